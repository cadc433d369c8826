From 32060116867b77443242ddcc7412e7056f5b5efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 01/84] fix: keep subdiagonals of the boundary mass matrix for
 stencils with lower diagonals

---
 shenfun/matrixbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 8b504fa..dcf60b3 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1996,8 +1996,10 @@ def _assemble_stencil_bc(test, trial, measure=1):
     else:
         A = K.diags('csr') * B.diags('csr') * S
     M = B.shape[1]
+    # The stencil may contain diagonals below the main
+    lb = max(0, -min(K.keys()))
     K.shape = (test[0].N, test[0].N)
-    d = extract_diagonal_matrix(A, lowerband=M+q, upperband=M)
+    d = extract_diagonal_matrix(A, lowerband=M+q+lb, upperband=M)
     d = d._storage
     return d
 
-- 
2.43.0


From 89c577b808a41c1a47f83be1b2997359851f7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 02/84] fix: scale N4, N5, Robin and W boundary conditions by
 the domain and accept N5 and W in bases

---
 shenfun/spectralbase.py        | 10 +++++++++-
 shenfun/utilities/findbasis.py |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index c83fd36..da92540 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -2000,6 +2000,14 @@ class BoundaryConditions(dict):
                     val[bc] /= df**2
                 elif bc == 'N3':
                     val[bc] /= df**3
+                elif bc == 'N4':
+                    val[bc] /= df**4
+                elif bc == 'N5':
+                    val[bc] /= df**5
+                elif bc == 'R':
+                    val[bc] = (v[0]*df, v[1])
+                elif bc == 'W':
+                    val[bc] = (v[0]*df, v[1]/df)
         dict.__init__(self, bcs)
 
     def orderednames(self):
@@ -2018,7 +2026,7 @@ class BoundaryConditions(dict):
         return len(self.orderedvals())
 
     def num_derivatives(self):
-        n = {'D': 0, 'R': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+        n = {'D': 0, 'R': 0, 'N': 1, 'W': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
         num_diff = 0
         for val in self.values():
             for k in val:
diff --git a/shenfun/utilities/findbasis.py b/shenfun/utilities/findbasis.py
index db90923..455dd78 100644
--- a/shenfun/utilities/findbasis.py
+++ b/shenfun/utilities/findbasis.py
@@ -39,7 +39,7 @@ def get_stencil_matrix(bcs, family, alpha=None, beta=None, gn=1):
     base = importlib.import_module('.'.join(('shenfun', family.lower())))
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
-    bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+    bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
     lr = {'L': 0, 'R': 1}
     lra = {'L': 'left', 'R': 'right'}
     s = []
@@ -95,7 +95,7 @@ def get_bc_basis(bcs, family, alpha=None, beta=None, gn=1):
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
     def _computematrix(first):
-        bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+        bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
         lr = {'L': 0, 'R': 1}
         lra = {'L': 'left', 'R': 'right'}
         s = []
-- 
2.43.0


From c0ec4acd9bf047c433f0b48267ae03490e3751df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 03/84] fix: boundary space of Jacobi bases uses the wrong beta

---
 shenfun/jacobi/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index a0fc26b..be0e48b 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -113,7 +113,7 @@ class JacobiBase(SpectralBase):
     def get_bc_space(self):
         if self._bc_space:
             return self._bc_space
-        self._bc_space = BCGeneric(self.N, bc=self.bcs, domain=self.domain, alpha=self.alpha, beta=self.alpha)
+        self._bc_space = BCGeneric(self.N, bc=self.bcs, domain=self.domain, alpha=self.alpha, beta=self.beta)
         return self._bc_space
 
 class Orthogonal(JacobiBase):
-- 
2.43.0


From 7c3153c11e82d4cbde0b21ba7cafb36b22afc76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 04/84] fix: end mode of Gauss-Lobatto mass matrices is not
 special on padded meshes

---
 shenfun/chebyshev/bases.py    | 4 ++--
 shenfun/chebyshev/matrices.py | 4 ++--
 shenfun/chebyshevu/bases.py   | 4 ++--
 shenfun/legendre/bases.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index 43dfdb4..3bb3b18 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -272,10 +272,10 @@ class Orthogonal(JacobiBase):
         if i is None:
             f = np.full(self.N, np.pi / 2)
             f[0] *= 2
-            if self.quad == "GL":
+            if self.quad == "GL" and not self.is_padded:
                 f[-1] *= 2
             return f
-        elif i == 0 or i == self.N - 1 and self.quad == "GL":
+        elif i == 0 or i == self.N - 1 and self.quad == "GL" and not self.is_padded:
             return np.pi
         return np.pi / 2
 
diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 8ac96fd..6ec5224 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -165,7 +165,7 @@ class BTTmat(SpectralMatrix):
         space = self.testfunction[0]
         u *= (2/np.pi*space.domain_factor())
         u[space.si[0]] /= 2
-        if space.quad == 'GL':
+        if space.quad == 'GL' and not space.is_padded:
             u[space.si[-1]] /= 2
         return u
 
@@ -198,7 +198,7 @@ class BTLmat(SpectralMatrix):
         d = {}
         for n in range(0, N, 2):
             d[n] = np.exp(gammaln((n+1)/2)-gammaln((n+2)/2)) * np.exp(gammaln((2*k[:N-n]+n+1)/2) - gammaln((2*k[:N-n]+n+2)/2))
-        if test[0].quad == 'GL':
+        if test[0].quad == 'GL' and not test[0].is_padded:
             d[0][-1] *= 2
         return d
 
diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 58eaeaa..b409632 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -181,10 +181,10 @@ class Orthogonal(JacobiBase):
     def l2_norm_sq(self, i=None):
         if i is None:
             f = np.full(self.N, np.pi/2)
-            if self.quad == 'GC':
+            if self.quad == 'GC' and not self.is_padded:
                 f[-1] *= 2
             return f
-        elif i == self.N-1 and self.quad == 'GC':
+        elif i == self.N-1 and self.quad == 'GC' and not self.is_padded:
             return np.pi
         return np.pi/2
 
diff --git a/shenfun/legendre/bases.py b/shenfun/legendre/bases.py
index b3a069a..5d4373f 100644
--- a/shenfun/legendre/bases.py
+++ b/shenfun/legendre/bases.py
@@ -157,10 +157,10 @@ class Orthogonal(JacobiBase):
     def l2_norm_sq(self, i=None):
         if i is None:
             f = 2/(2*np.arange(self.N)+1)
-            if self.quad == 'GL':
+            if self.quad == 'GL' and not self.is_padded:
                 f[-1] = 2/(self.N-1)
             return f
-        elif i == self.N-1 and self.quad == 'GL':
+        elif i == self.N-1 and self.quad == 'GL' and not self.is_padded:
             return 2/(self.N-1)
         return 2/(2*i+1)
 
-- 
2.43.0


From ca346da6ca301e496ff9345c41a881a5db80d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 05/84] fix: padded chebyshevu fast transforms and
 ultraspherical vandermonde

---
 shenfun/chebyshevu/bases.py     | 20 +++++++++++---------
 shenfun/ultraspherical/bases.py |  2 +-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index b409632..906715b 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -101,7 +101,7 @@ class Orthogonal(JacobiBase):
         if quad == 'GC':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=2)
             self._xfftn_bck = functools.partial(fftw.dstn, type=3)
-            self._sinGC = np.sin((np.arange(N)+0.5)*np.pi/N)
+            self._sinGC = np.sin((np.arange(int(padding_factor*N))+0.5)*np.pi/int(padding_factor*N))
 
         elif quad == 'GU':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=1)
@@ -228,15 +228,16 @@ class Orthogonal(JacobiBase):
             SpectralBase._evaluate_scalar_product(self, kind=kind)
             return
 
+        N = self.shape(False)
         if self.quad == 'GU':
-            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(self.N+1)*(np.arange(1, self.N+1))))
+            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(N+1)*(np.arange(1, N+1))))
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*(self.N+1)*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*(N+1)*self.domain_factor()))
 
         elif self.quad == 'GC':
             self.scalar_product._input_array *= self.broadcast_to_ndims(self._sinGC)
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*self.N*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*N*self.domain_factor()))
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
         if kind != 'fast':
@@ -247,18 +248,19 @@ class Orthogonal(JacobiBase):
         assert input_array is self.backward.tmp_array
         assert output_array is self.backward.output_array
         output_array = self.backward.xfftn()
+        N = self.shape(False)
 
         if self.quad == "GU":
-            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(self.N)+1)*np.pi/(self.N+1))))
+            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(N)+1)*np.pi/(N+1))))
 
         elif self.quad == "GC":
-            s0 = self.sl[slice(self.N-1, self.N)]
-            se = self.sl[slice(0, self.N, 2)]
-            so = self.sl[slice(1, self.N, 2)]
+            s0 = self.sl[slice(N-1, N)]
+            se = self.sl[slice(0, N, 2)]
+            so = self.sl[slice(1, N, 2)]
             output_array *= 0.5
             output_array[se] += input_array[s0]/2
             output_array[so] -= input_array[s0]/2
-            output_array *= 1/(self.broadcast_to_ndims(np.sin((np.arange(self.N)+0.5)*np.pi/self.N)))
+            output_array *= 1/(self.broadcast_to_ndims(np.sin((np.arange(N)+0.5)*np.pi/N)))
 
     @property
     def is_orthogonal(self):
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 603f2f9..c3c0b3b 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -141,7 +141,7 @@ class Orthogonal(JacobiBase):
         V = self.jacobiQ(x, self.alpha, self.shape(False))
         if self.alpha != 0:
             #V *= sp.lambdify(n, cn(self.alpha, self.alpha, n))(np.arange(self.N))[None, :]
-            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(self.N)], dtype=V.dtype)[None, :]
+            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(V.shape[1])], dtype=V.dtype)[None, :]
         return V
 
     @property
-- 
2.43.0


From 5987b65f0efdd5963d926db79ada132eea77488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 06/84] fix: number of padded points must not depend on
 rounding

---
 shenfun/fourier/bases.py | 2 +-
 shenfun/spectralbase.py  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index d472e31..8f255d7 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -361,7 +361,7 @@ class R2C(FourierBase):
 
     def _get_truncarray(self, shape, dtype):
         shape = list(shape)
-        shape[self.axis] = int(shape[self.axis] / self.padding_factor)
+        shape[self.axis] = int(np.round(shape[self.axis] / self.padding_factor))
         shape[self.axis] = shape[self.axis]//2 + 1
         return fftw.aligned(shape, dtype=dtype)
 
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index da92540..e1d9b95 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -50,7 +50,11 @@ class SpectralBase:
         self._stencil_matrix = {}
         self.padding_factor = padding_factor
         if padding_factor != 1:
-            self.padding_factor = np.floor(N*padding_factor)/N if N > 0 else 1
+            M = np.floor(N*padding_factor)
+            self.padding_factor = M/N if N > 0 else 1
+            if np.floor(N*self.padding_factor) < M:
+                # Rounding must not change the number of padded points
+                self.padding_factor = np.nextafter(self.padding_factor, np.inf)
         self.dealias_direct = dealias_direct
         self._mass = None         # Mass matrix (if needed)
         self._dtype = dtype
-- 
2.43.0


From 1ea7b98fcb1dad663abc901ff16c2edfd859944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 07/84] fix: floating point Jacobi parameters with recent sympy

---
 shenfun/jacobi/recursions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index d264e18..68f3420 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -356,6 +356,8 @@ def gamma(alf, bet, n):
     """
     #f = 2**(alfa+beta+1)*sp.gamma(m+alfa+1)*sp.gamma(m+beta+1)/sp.gamma(m+alfa+beta+1)/sp.gamma(m+1)/(2*m+alfa+beta+1)
     f = sp.rf(n+1, alfa)/sp.rf(n+beta+1, alfa) * 2**(alfa+beta+1)/(2*n+alfa+beta+1)
+    # simplify does not work for floating point exponents
+    alf, bet = sp.nsimplify(alf, rational=True), sp.nsimplify(bet, rational=True)
     return sp.simplify(f.subs([(alfa, alf), (beta, bet)]))
 
 def h(alf, bet, n, k, gn=1):
@@ -380,6 +382,8 @@ def h(alf, bet, n, k, gn=1):
         Chebyshev of first and second kind use cn and un, respectively.
         Legendre uses gn=1.
     """
+    # simplify does not work for floating point exponents
+    alf, bet = sp.nsimplify(alf, rational=True), sp.nsimplify(bet, rational=True)
     f = gamma(alf+k, bet+k, n-k)*(psi(alf, bet, n, k))**2
     return f if gn == 1 else sp.simplify(gn(alf, bet, n)**2*f)
 
-- 
2.43.0


From 6d95fb26a6512317e5ebad3e89098f0d649cd1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 08/84] fix: do not drop small diagonals of matrices of Phi
 bases, use quadrature where it is inexact

---
 shenfun/matrixbase.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index dcf60b3..fd33594 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1848,6 +1848,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
     """
     K0 = test[0].slice().stop - test[0].slice().start
     K1 = trial[0].slice().stop - trial[0].slice().start
+    abstol = 1e-10
 
     if assemble == 'quadrature':
 
@@ -1866,6 +1867,8 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                 return {}
         v = test[0].evaluate_basis_derivative_all(x=x, k=test[1])[:, :K0]
         V = np.dot(np.conj(v.T)*ws[np.newaxis, :], u)
+        # Diagonals are zero if they are negligible compared to the summands
+        abstol = min(1e-10, 1e-12*np.max(np.dot(abs(v.T)*abs(ws[np.newaxis, :]), abs(u)), initial=0))
 
     else: # exact or adaptive
 
@@ -1959,7 +1962,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
             V = V.real.copy()
         elif np.linalg.norm(V.real) / ni > 1e14:
             V = V.real.copy()
-    return extract_diagonal_matrix(V)
+    return extract_diagonal_matrix(V, abstol=abstol)
 
 def assemble_stencil(test, trial, measure=1):
     if trial[0].is_boundary_basis:
@@ -2074,7 +2077,9 @@ def assemble_phi(test, trial, measure=1):
 def _assemble_phi(test, trial, measure=1):
     from shenfun.jacobi.recursions import Lmat
     from shenfun.utilities import split
-    assert test[0].quad != 'GL'
+    # The quadrature is not exact for the highest mode
+    assert (test[0].is_padded or
+            not (test[0].quad == 'GL' or (test[0].family() == 'chebyshevu' and test[0].quad == 'GC')))
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
@@ -2091,13 +2096,13 @@ def _assemble_phi(test, trial, measure=1):
         Ax = Lmat(k, qi, l, test[0].dim(), trial[0].N, alpha, beta, gn)
         D = D + sc*Ax
     if trial[0].is_orthogonal:
-        d = extract_diagonal_matrix(D, lowerband=q-k+l, upperband=q+k+l)
+        d = extract_diagonal_matrix(D, lowerband=q-k+l, upperband=q+k+l, abstol=0)
     else:
         K = trial[0].stencil_matrix()
         K.shape = (trial[0].dim(), trial[0].N)
         keys = np.sort(np.array(list(K.keys())))
         lb, ub = -keys[0], keys[-1]
-        d = extract_diagonal_matrix(D*K.diags('csr').T, lowerband=q-k+l+ub, upperband=q+k+l+lb)
+        d = extract_diagonal_matrix(D*K.diags('csr').T, lowerband=q-k+l+ub, upperband=q+k+l+lb, abstol=0)
         K.shape = (trial[0].N, trial[0].N)
     d = d._storage
     return d
@@ -2128,7 +2133,7 @@ def _assemble_phi_bc(test, trial, measure=1):
         d = {0: 1}
     else:
         K = trial[0].stencil_matrix()
-        d = extract_diagonal_matrix(D*extract_diagonal_matrix(K).diags('csr').T, lowerband=N+q, upperband=N)
+        d = extract_diagonal_matrix(D*extract_diagonal_matrix(K, abstol=0).diags('csr').T, lowerband=N+q, upperband=N, abstol=0)
         d = d._storage
     return d
 
-- 
2.43.0


From ebe45e3588b2050a36bd7ee92d10f46ab071af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 09/84] fix: use exact Jacobi parameters in symbolic recursions

---
 shenfun/jacobi/bases.py      | 13 +++++++------
 shenfun/jacobi/recursions.py |  4 ----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index be0e48b..bf04536 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -36,8 +36,9 @@ class JacobiBase(SpectralBase):
         SpectralBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype,
                               padding_factor=padding_factor, dealias_direct=dealias_direct,
                               coordinates=coordinates)
-        self.alpha = alpha  # Jacobi parameter
-        self.beta = beta    # Jacobi parameter
+        # Jacobi parameters. Must be exact for symbolic manipulations
+        self.alpha = sp.nsimplify(alpha, rational=True) if isinstance(alpha, float) else alpha
+        self.beta = sp.nsimplify(beta, rational=True) if isinstance(beta, float) else beta
         self.gn = 1         # Jacobi scaling function
 
     @property
@@ -184,7 +185,7 @@ class Orthogonal(JacobiBase):
         if N is None:
             N = self.shape(False)
         assert self.quad == "JG"
-        points, weights = roots_jacobi(N, self.alpha, self.beta)
+        points, weights = roots_jacobi(N, float(self.alpha), float(self.beta))
         if weighted is False:
             weights = self.unweighted_quadrature_weights()
 
@@ -197,7 +198,7 @@ class Orthogonal(JacobiBase):
         V = np.zeros((x.shape[0], N))
         if mode == 'numpy':
             for n in range(N):
-                V[:, n] = eval_jacobi(n, alpha, beta, x)
+                V[:, n] = eval_jacobi(n, float(alpha), float(beta), x)
         else:
             for n in range(N):
                 V[:, n] = sp.lambdify(xp, sp.jacobi(n, alpha, beta, xp), 'mpmath')(x)
@@ -234,7 +235,7 @@ class Orthogonal(JacobiBase):
         if output_array is None:
             output_array = np.zeros(x.shape)
         if mode == 'numpy':
-            output_array = eval_jacobi(i, self.alpha, self.beta, x, out=output_array)
+            output_array = eval_jacobi(i, float(self.alpha), float(self.beta), x, out=output_array)
         else:
             f = self.orthogonal_basis_function(i, xp)
             output_array[:] = sp.lambdify(xp, f, 'mpmath')(x)
@@ -250,7 +251,7 @@ class Orthogonal(JacobiBase):
 
         if mode == 'numpy':
             dj = np.prod(np.array([i+self.alpha+self.beta+1+j for j in range(k)]))
-            output_array[:] = dj/2**k*eval_jacobi(i-k, self.alpha+k, self.beta+k, x)
+            output_array[:] = float(dj)/2**k*eval_jacobi(i-k, float(self.alpha+k), float(self.beta+k), x)
         else:
             f = sp.jacobi(i, self.alpha, self.beta, xp)
             output_array[:] = sp.lambdify(xp, f.diff(xp, k), 'mpmath')(x)
diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index 68f3420..d264e18 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -356,8 +356,6 @@ def gamma(alf, bet, n):
     """
     #f = 2**(alfa+beta+1)*sp.gamma(m+alfa+1)*sp.gamma(m+beta+1)/sp.gamma(m+alfa+beta+1)/sp.gamma(m+1)/(2*m+alfa+beta+1)
     f = sp.rf(n+1, alfa)/sp.rf(n+beta+1, alfa) * 2**(alfa+beta+1)/(2*n+alfa+beta+1)
-    # simplify does not work for floating point exponents
-    alf, bet = sp.nsimplify(alf, rational=True), sp.nsimplify(bet, rational=True)
     return sp.simplify(f.subs([(alfa, alf), (beta, bet)]))
 
 def h(alf, bet, n, k, gn=1):
@@ -382,8 +380,6 @@ def h(alf, bet, n, k, gn=1):
         Chebyshev of first and second kind use cn and un, respectively.
         Legendre uses gn=1.
     """
-    # simplify does not work for floating point exponents
-    alf, bet = sp.nsimplify(alf, rational=True), sp.nsimplify(bet, rational=True)
     f = gamma(alf+k, bet+k, n-k)*(psi(alf, bet, n, k))**2
     return f if gn == 1 else sp.simplify(gn(alf, bet, n)**2*f)
 
-- 
2.43.0


From b5213d38971638f984e3ceb0d1389dbd802c6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 10/84] fix: diagonal solver reads beyond its data in
 multidimensional arrays

---
 shenfun/la.py                      | 2 +-
 shenfun/optimization/cython/la.pyx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index ad462bf..6522e2d 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -317,7 +317,7 @@ class DiagMA(BandedMatrixSolver):
     @staticmethod
     def inner_solve(u, lu):
         d = lu[0]
-        u[:d.shape[0]] /= d
+        u[:d.shape[0]] /= d.reshape((-1,)+(1,)*(u.ndim-1))
 
     @staticmethod
     @runtimeoptimizer
diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index e41c0b0..664b042 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -129,7 +129,7 @@ cpdef DiagMA_Solve_2D(np.ndarray[T, ndim=2] u, double[:, ::1] data, int axis):
     cdef:
         int st = u.strides[axis]/u.itemsize
         np.flatiter ita = np.PyArray_IterAllButAxis(u, &axis)
-        int N = u.shape[axis]
+        int N = min(u.shape[axis], data.shape[1])
         double* dp = &data[0, 0]
     while np.PyArray_ITER_NOTDONE(ita):
         DiagMA_inner_solve_ptr[T](<T*>np.PyArray_ITER_DATA(ita), st, dp, 0, N)
@@ -139,7 +139,7 @@ cpdef DiagMA_Solve_3D(np.ndarray[T, ndim=3] u, double[:, ::1] data, int axis):
     cdef:
         int st = u.strides[axis]/u.itemsize
         np.flatiter ita = np.PyArray_IterAllButAxis(u, &axis)
-        int N = u.shape[axis]
+        int N = min(u.shape[axis], data.shape[1])
         double* dp = &data[0, 0]
     while np.PyArray_ITER_NOTDONE(ita):
         DiagMA_inner_solve_ptr[T](<T*>np.PyArray_ITER_DATA(ita), st, dp, 0, N)
-- 
2.43.0


From 34b8a2b5b2283dfeb457724066a12dddc68b700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 11/84] fix: exact and overflow free stencils of generic bases,
 ShenBiPolar, ultraspherical basis functions

---
 shenfun/chebyshev/bases.py      |  2 +-
 shenfun/jacobi/bases.py         |  4 +++-
 shenfun/spectralbase.py         |  8 +++++---
 shenfun/ultraspherical/bases.py | 10 +++++++---
 shenfun/utilities/findbasis.py  |  4 ++--
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index 3bb3b18..c1cb1a5 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -1950,12 +1950,12 @@ class ShenBiPolar(CompositeBase):
         N = self.N if N is None else N
         k = np.arange(N)
         d = (k + 1) * 3 / 8
-        d[0] = 0.5
         d[1] = 0.5
         d[-4:] = 0
         dm2 = -(k[2:] + 1) / 8
         dm2[-4:] = 0
         dp2 = -(k[:-2] + 1) * 3 / 8
+        dp2[0] = -0.5
         dp2[-2:] = 0
         dp4 = (k[:-4] + 1) / 8
         return SparseMatrix({-2: dm2, 0: d, 2: dp2, 4: dp4}, (N, N))
diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index bf04536..548b173 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -249,7 +249,9 @@ class Orthogonal(JacobiBase):
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
 
-        if mode == 'numpy':
+        if i < k:
+            output_array[:] = 0
+        elif mode == 'numpy':
             dj = np.prod(np.array([i+self.alpha+self.beta+1+j for j in range(k)]))
             output_array[:] = float(dj)/2**k*eval_jacobi(i-k, float(self.alpha+k), float(self.beta+k), x)
         else:
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index e1d9b95..3c907cc 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1515,12 +1515,13 @@ def getCompositeBase(Orthogonal):
             """
             from .matrixbase import SparseMatrix
             if self._stencil is None:
-                self._stencil = get_stencil_matrix(self.bcs, self.family(), self.alpha, self.beta, self.gn)
+                d = {'alpha': self.alpha, 'beta': self.beta, 'gn': self.gn} if self.is_jacobi else {}
+                self._stencil = get_stencil_matrix(self.bcs, self.family(), **d)
             N = self.N if N is None else N
             if N in self._stencil_matrix:
                 return self._stencil_matrix[N]
             d = {}
-            k = np.arange(N)
+            k = np.arange(N, dtype=float) # integer powers of k overflow
             for i, s in self._stencil.items():
                 di = sp.lambdify(n, s)(k[:N-i])
                 if isinstance(di, np.ndarray):
@@ -1565,7 +1566,8 @@ def getCompositeBase(Orthogonal):
 
             """
             if self._stencil is None:
-                self._stencil = get_stencil_matrix(self.bcs, self.family(), self.alpha, self.beta, self.gn)
+                d = {'alpha': self.alpha, 'beta': self.beta, 'gn': self.gn} if self.is_jacobi else {}
+                self._stencil = get_stencil_matrix(self.bcs, self.family(), **d)
 
             def _named_diagonal(s, name, i):
                 class h(sp.Function):
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index c3c0b3b..55bc74b 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -181,7 +181,7 @@ class Orthogonal(JacobiBase):
             output_array = np.zeros(x.shape)
         output_array = eval_jacobi(i, float(self.alpha), float(self.alpha), x, out=output_array)
         if self.alpha != 0:
-            output_array *= cn(self.alpha, self.alpha, i).n()
+            output_array *= float(cn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative(self, x=None, i=0, k=0, output_array=None):
@@ -191,10 +191,14 @@ class Orthogonal(JacobiBase):
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
 
-        dj = np.prod(np.array([i+2*self.alpha+1+j for j in range(k)]))
+        if i < k:
+            output_array[:] = 0
+            return output_array
+
+        dj = float(np.prod(np.array([i+2*self.alpha+1+j for j in range(k)])))
         output_array[:] = dj/2**k*eval_jacobi(i-k, float(self.alpha+k), float(self.alpha+k), x)
         if self.alpha != 0:
-            output_array[:] = output_array*cn(self.alpha, self.alpha, i).n()
+            output_array[:] = output_array*float(cn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
diff --git a/shenfun/utilities/findbasis.py b/shenfun/utilities/findbasis.py
index 455dd78..8f220d9 100644
--- a/shenfun/utilities/findbasis.py
+++ b/shenfun/utilities/findbasis.py
@@ -48,7 +48,7 @@ def get_stencil_matrix(bcs, family, alpha=None, beta=None, gn=1):
         k, v = key[0], key[1:]
         if v in 'WR':
             k0 = 0 if v == 'R' else 1
-            alfa = bcs[lra[k]][v][0]
+            alfa = sp.nsimplify(bcs[lra[k]][v][0], rational=True)
             f = [bnd_values(k=k0)[lr[k]], bnd_values(k=k0+1)[lr[k]]]
             s.append([sp.simplify(f[0](n+j)+alfa*f[1](n+j)) for j in range(1, 1+bcs.num_bcs())])
             r.append(-sp.simplify(f[0](n)+alfa*f[1](n)))
@@ -103,7 +103,7 @@ def get_bc_basis(bcs, family, alpha=None, beta=None, gn=1):
             k, v = key[0], key[1:]
             if v in 'WR':
                 k0 = 0 if v == 'R' else 1
-                alfa = bcs[lra[k]][v][0]
+                alfa = sp.nsimplify(bcs[lra[k]][v][0], rational=True)
                 f = [bnd_values(k=k0)[lr[k]], bnd_values(k=k0+1)[lr[k]]]
                 s.append([sp.simplify(f[0](j)+alfa*f[1](j)) for j in range(first, first+bcs.num_bcs())])
             else:
-- 
2.43.0


From be892beb20acc12c52992dc1d6d6dac5d45fb054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 12/84] fix: boundary conditions given with an explicit basis,
 as dictionaries or with defaults

---
 shenfun/chebyshevu/bases.py     |  7 ++++---
 shenfun/forms/arguments.py      | 17 ++++++++++++++++-
 shenfun/ultraspherical/bases.py |  2 +-
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 906715b..414e431 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -854,7 +854,7 @@ class CompactNeumann(CompositeBase):
     def __init__(self, N, quad="GU", bc=(0, 0), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         if isinstance(bc, (tuple, list)):
-            bc = BoundaryConditions({'left': {'N': bc[0]}, 'right': {'N': bc[1]}})
+            bc = BoundaryConditions({'left': {'N': bc[0]}, 'right': {'N': bc[1]}}, domain=domain)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
@@ -970,7 +970,7 @@ class LowerDirichlet(CompositeBase):
          Map for curvilinear coordinatesystem, and parameters to :class:`~shenfun.coordinates.Coordinates`
 
     """
-    def __init__(self, N, quad="GU", bc=(None, 0), domain=Domain(-1, 1), dtype=float,
+    def __init__(self, N, quad="GU", bc=(0, None), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
@@ -1178,7 +1178,8 @@ class Generic(CompositeBase):
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
         self._stencil = get_stencil_matrix(bc, 'chebyshevu', half, half, un)
-        bc = BoundaryConditions(bc)
+        if not isinstance(bc, BoundaryConditions):
+            bc = BoundaryConditions(bc, domain=domain)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index ed16a5b..f6a9293 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -175,6 +175,9 @@ def FunctionSpace(N, family='Fourier', bc=None, dtype='d', quad=None,
             B = getattr(chebyshev.bases, basis)
             if isinstance(bc, tuple) or 'Generic' in basis:
                 par['bc'] = bc
+            elif isinstance(bc, (str, dict)):
+                domain = Domain(-1, 1) if domain is None else domain
+                par['bc'] = BoundaryConditions(bc, domain=domain)
         else:
             if isinstance(bc, (str, tuple, dict)):
                 domain = Domain(-1, 1) if domain is None else domain
@@ -220,6 +223,9 @@ def FunctionSpace(N, family='Fourier', bc=None, dtype='d', quad=None,
             B = getattr(legendre.bases, basis)
             if isinstance(bc, tuple):
                 par['bc'] = bc
+            elif isinstance(bc, (str, dict)):
+                domain = Domain(-1, 1) if domain is None else domain
+                par['bc'] = BoundaryConditions(bc, domain=domain)
         else:
             if isinstance(bc, (str, tuple, dict)):
                 domain = Domain(-1, 1) if domain is None else domain
@@ -261,6 +267,9 @@ def FunctionSpace(N, family='Fourier', bc=None, dtype='d', quad=None,
             B = getattr(chebyshevu.bases, basis)
             if isinstance(bc, tuple):
                 par['bc'] = bc
+            elif isinstance(bc, (str, dict)):
+                domain = Domain(-1, 1) if domain is None else domain
+                par['bc'] = BoundaryConditions(bc, domain=domain)
         else:
             if isinstance(bc, (str, tuple, dict)):
                 domain = Domain(-1, 1) if domain is None else domain
@@ -303,6 +312,9 @@ def FunctionSpace(N, family='Fourier', bc=None, dtype='d', quad=None,
             B = getattr(ultraspherical.bases, basis)
             if isinstance(bc, tuple):
                 par['bc'] = bc
+            elif isinstance(bc, (str, dict)):
+                domain = Domain(-1, 1) if domain is None else domain
+                par['bc'] = BoundaryConditions(bc, domain=domain)
         else:
             if isinstance(bc, (str, tuple, dict)):
                 domain = Domain(-1, 1) if domain is None else domain
@@ -336,6 +348,9 @@ def FunctionSpace(N, family='Fourier', bc=None, dtype='d', quad=None,
             B = getattr(laguerre.bases, basis)
             if isinstance(bc, tuple):
                 par['bc'] = bc
+            elif isinstance(bc, (str, dict)):
+                domain = Domain(0, np.inf) if domain is None else domain
+                par['bc'] = BoundaryConditions(bc, domain=domain)
         else:
             if isinstance(bc, (str, tuple, dict)):
                 domain = Domain(0, np.inf) if domain is None else domain
@@ -386,7 +401,7 @@ def FunctionSpace(N, family='Fourier', bc=None, dtype='d', quad=None,
                                 '': jacobi.bases.Orthogonal,
                                 'LDRD': jacobi.bases.CompactDirichlet,
                                 'LNRN': jacobi.bases.CompactNeumann,
-                                'UD': jacobi.bases.UpperDirichlet,
+                                'RD': jacobi.bases.UpperDirichlet,
                                 'LD': jacobi.bases.LowerDirichlet,
                                 'LDLNRDRN': jacobi.bases.Phi2,
                                 'LDLNLN2RDRNRN2': jacobi.bases.Phi3,
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 55bc74b..1b77dbe 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -856,7 +856,7 @@ class LowerDirichlet(CompositeBase):
         Map for curvilinear coordinatesystem, and parameters to :class:`~shenfun.coordinates.Coordinates`
 
     """
-    def __init__(self, N, quad="QG", bc=(None, 0), domain=Domain(-1, 1), dtype=float,
+    def __init__(self, N, quad="QG", bc=(0, None), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None,
                  alpha=0, **kw):
         assert quad == "QG"
-- 
2.43.0


From b394356ca0bd575ca759cbc9c32284c9567ce897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 13/84] fix: powers of recursion matrices with negative indices
 (chebyshevu, x**3 and higher)

---
 shenfun/jacobi/recursions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index d264e18..785db9a 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -480,11 +480,10 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                         d[i][(q+i):] = fz(np.arange(q, Z-i))
 
                 else:
-                    if alf == -half and bet == -half:
-                        d[i][:q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
-                        d[i][q:] = fz(np.arange(-i+q, Z-i))
-                    else:
-                        d[i][:] = fz(np.arange(-i, Z-i))
+                    # Recursions that make use of negative indices must be
+                    # evaluated before alfa and beta are inserted
+                    d[i][:q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, min(q, Z))]
+                    d[i][q:] = fz(np.arange(-i+q, Z-i)) if Z > q else 0
     _pmat[(mat, q, alf, bet, M, N, gn)] = d
     return SparseMatrix(d, (M, N))
 
-- 
2.43.0


From 79f7697df3d5c68fee57a7dd67673cf3e832ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 14/84] fix: assembly of matrices with coefficients,
 differentiated test functions, unequal sizes, exact and adaptive integration

---
 shenfun/chebyshevu/matrices.py |  3 +-
 shenfun/matrixbase.py          | 52 +++++++++++++++++++++-------------
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/shenfun/chebyshevu/matrices.py b/shenfun/chebyshevu/matrices.py
index 50127cb..bef941d 100644
--- a/shenfun/chebyshevu/matrices.py
+++ b/shenfun/chebyshevu/matrices.py
@@ -103,7 +103,8 @@ class BP1SDmat(SpectralMatrix):
         from shenfun.jacobi.recursions import Lmat, half, cn
         assert isinstance(test[0], P1)
         assert isinstance(trial[0], SD)
-        assert test[0].quad == 'GU'
+        if not test[0].quad == 'GU':
+            return None
         N = test[0].N-2
         K = trial[0].stencil_matrix()
         K.shape = (N, N+2)
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index fd33594..23c1811 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -637,7 +637,10 @@ class SpectralMatrix(SparseMatrix):
         d = {}
         _assembly_method = assemble
         if assemble == 'exact':
-            d = self.assemble(assemble) # Look for implemented exact matrix
+            if test[0].N == trial[0].N:
+                d = self.assemble(assemble) # Look for implemented exact matrix
+            else:
+                d = None
             if d is None:
                 d = _get_matrix(test, trial, measure, assemble=assemble)
         elif assemble == 'adaptive':
@@ -645,13 +648,18 @@ class SpectralMatrix(SparseMatrix):
         else:
             if fixed_resolution is not None:
                 kind = 'vandermonde'
+            # Most specific implementations assume that the test and trial
+            # functions make use of the same number of modes
+            implemented = (test[0].N == trial[0].N or trial[0].is_boundary_basis or
+                           (test[0].is_orthogonal and trial[0].is_orthogonal and
+                            test[0].family() == trial[0].family() and test[1]+trial[1] == 0))
             if kind is None:
                 # If nothing is specified then
                 # 1. Check for specific implementation
                 # 2. Try to use stencil-method. This may fail because it does not
                 #    cover all options, so
                 # 3. Fall back on Vandermonde quadrature in case the above fails.
-                d = self.assemble(assemble)
+                d = self.assemble(assemble) if implemented else None
                 if d is not None:
                     _assembly_method += '_implemented'
                 if d is None:
@@ -667,7 +675,9 @@ class SpectralMatrix(SparseMatrix):
                             except AssertionError:
                                 kind = 'vandermonde'
                         else:
-                            if test[0].is_jacobi and sp.sympify(measure).is_polynomial() and not (test[0].is_orthogonal and trial[0].is_orthogonal):
+                            if (test[0].is_jacobi and sp.sympify(measure).is_polynomial() and
+                                (measure == 1 or test[1] == 0) and
+                                not (test[0].is_orthogonal and trial[0].is_orthogonal)):
                                 d = assemble_stencil(test, trial, measure)
                                 _assembly_method += '_stencil'
                             else:
@@ -680,10 +690,11 @@ class SpectralMatrix(SparseMatrix):
                     _assembly_method += '_implemented'
                 elif kind == 'stencil':
                     assert sp.sympify(measure).is_polynomial(), 'Cannot use `stencil` with non-polynomial coefficients'
-                    if test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6') and test[0].N != trial[0].N:
+                    if test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6') and test[0].N != trial[0].N and test[1] == 0:
                         d = assemble_phi(test, trial, measure)
                         _assembly_method += '_phi'
                     else:
+                        assert measure == 1 or test[1] == 0, 'Cannot use `stencil` with coefficients and differentiated test functions'
                         d = assemble_stencil(test, trial, measure)
                         _assembly_method += '_stencil'
                 elif kind == 'vandermonde':
@@ -1889,8 +1900,8 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                     s = measure.free_symbols
                     assert len(s) == 1
                     x = s.pop()
-                    xm = test[0].map_true_domain(x)
-                    measure = measure.subs(x, sp.cos(xm))
+                    # The measure has already been mapped to the reference domain
+                    measure = measure.subs(x, sp.cos(x))
                 else:
                     assert isinstance(measure, Number)
             assert test[1] == 0
@@ -1921,14 +1932,13 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                 if isinstance(measure, sp.Expr):
                     s = measure.free_symbols
                     assert len(s) == 1
+                    # The measure has already been mapped to the reference domain
                     x = s.pop()
-                    xm = test[0].map_true_domain(x)
-                    measure = measure.subs(x, xm)
                 else:
                     assert isinstance(measure, Number)
 
             cheb = test[0].family() in ('chebyshev', 'chebyshevu', 'ultraspherical', 'gegenbauer')
-            if cheb: # use adaptive quadrature with weight incorporated
+            if cheb and assemble == 'adaptive': # use adaptive quadrature with weight incorporated
                 w = {'weight': 'alg',
                      'wvar': (float(test[0].alpha), float(test[0].beta)),
                      'epsabs': 0, 'epsrel': 1e-8}
@@ -1948,12 +1958,9 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                     if assemble == 'exact':
                         V[i, j] = integrate_sympy(integrand, (x, domain[0], domain[1]))
                     elif assemble == 'adaptive':
-                        if isinstance(integrand, Number):
-                            if cheb:
-                                V[i, j] = integrand*np.pi
-                            else:
-                                V[i, j] = integrand*float(domain[1]-domain[0])
-                        else:
+                        if isinstance(integrand, Number) and not cheb:
+                            V[i, j] = integrand*float(domain[1]-domain[0])
+                        elif integrand != 0:
                             V[i, j] = quad(sp.lambdify(x, integrand), float(domain[0]), float(domain[1]), **w)[0]
 
     if V.dtype.char in 'FDG':
@@ -2002,7 +2009,10 @@ def _assemble_stencil_bc(test, trial, measure=1):
     # The stencil may contain diagonals below the main
     lb = max(0, -min(K.keys()))
     K.shape = (test[0].N, test[0].N)
-    d = extract_diagonal_matrix(A, lowerband=M+q+lb, upperband=M)
+    lowerband = M+q+lb
+    if test[1] > 0 or test[0].family() != trial[0].family():
+        lowerband = None # no orthogonality to make use of
+    d = extract_diagonal_matrix(A, lowerband=lowerband, upperband=M)
     d = d._storage
     return d
 
@@ -2050,7 +2060,7 @@ def _assemble_stencil(test, trial, measure=1):
         ub = Ac.getrow(0).indices
         ub2 = Ac.getrow(1).indices
         if len(ub) == 0 and len(ub2) == 0:
-            ub = 0
+            ub = trial[0].dim()
         else:
             ub = trial[0].dim() if len(ub) == 0 else ub.max()
             ub2 = trial[0].dim() if len(ub2) == 0 else ub2.max()-1
@@ -2059,7 +2069,7 @@ def _assemble_stencil(test, trial, measure=1):
         lb = Ac.getcol(0).indices
         lb2 = Ac.getcol(1).indices
         if len(lb) == 0 and len(lb2) == 0:
-            lb = 0
+            lb = test[0].dim()
         else:
             lb = test[0].dim() if len(lb) == 0 else lb.max()
             lb2 = test[0].dim() if len(lb2) == 0 else lb2.max()-1
@@ -2070,6 +2080,10 @@ def _assemble_stencil(test, trial, measure=1):
 
 def assemble_phi(test, trial, measure=1):
     assert test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6')
+    # Based on orthogonality and recursions for one and the same family
+    assert test[1] == 0
+    assert test[0].family() == trial[0].family()
+    assert (test[0].alpha, test[0].beta) == (trial[0].alpha, trial[0].beta)
     if trial[0].is_boundary_basis:
         return _assemble_phi_bc(test, trial, measure)
     return _assemble_phi(test, trial, measure)
@@ -2130,7 +2144,7 @@ def _assemble_phi_bc(test, trial, measure=1):
             Ax = Lmat(k, qi, l, M, N, alpha, beta, gn)
             D = D + sc*Ax
     if D is sp.S.Zero:
-        d = {0: 1}
+        d = {}
     else:
         K = trial[0].stencil_matrix()
         d = extract_diagonal_matrix(D*extract_diagonal_matrix(K, abstol=0).diags('csr').T, lowerband=N+q, upperband=N, abstol=0)
-- 
2.43.0


From e475b22d516131eb52a4ab77f9cbc49f4d2caaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 15/84] fix: inner products with several inhomogeneous
 directions, or with boundary matrices only, dropped terms

---
 shenfun/forms/inner.py | 71 ++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/shenfun/forms/inner.py b/shenfun/forms/inner.py
index 527f806..15cdb94 100644
--- a/shenfun/forms/inner.py
+++ b/shenfun/forms/inner.py
@@ -1,3 +1,4 @@
+import itertools
 from numbers import Number
 import sympy as sp
 import numpy as np
@@ -406,7 +407,6 @@ def inner(expr0, expr1, output_array=None, assemble=None, kind=None, fixed_resol
                     test_sp = testspace
                     if isinstance(testspace, (CompositeSpace, MixedFunctionSpace)):
                         test_sp = testspace.flatten()[test_ind[test_j]]
-                    has_bcs = False
                     # Check if scale is zero
                     if dV == 0:
                         continue
@@ -422,58 +422,35 @@ def inner(expr0, expr1, output_array=None, assemble=None, kind=None, fixed_resol
 
                             # assemble inner product
                             AA = inner_product((tt, a), (ts, b), msi, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
-                            if len(AA) == 0:
-                                sc = 0
-                                continue
-
-                            #if not abs(AA.scale-1.) < 1e-8:
-                            #    AA.incorporate_scale()
                             M.append(AA)
-
+                            DM.append(None)
                             if ts.has_nonhomogeneous_bcs:
-                                tsc = ts.get_bc_space()
-                                BB = inner_product((tt, a), (tsc, b), msi, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
-                                #if not abs(BB.scale-1.) < 1e-8:
-                                #    BB.incorporate_scale()
-                                #if BB.diags('csr').nnz > 0:
-                                if len(BB) > 0:
-                                    DM.append(BB)
-                                    has_bcs = True
-                                else:
-                                    DM.append(0)
-                            else:
-                                DM.append(AA)
+                                DM[-1] = inner_product((tt, a), (ts.get_bc_space(), b), msi, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
 
-                        if sc == 0:
-                            continue
                         sc = tt.broadcast_to_ndims(np.array([sc]))
 
-                        if len(M) == 1: # 1D case
-                            M[0].global_index = (test_ind[test_j], trial_ind[trial_j])
-                            M[0].scale = sc[0]
-                            M[0].testbase = testspace
-                            M[0].trialbase = trialspace
-                            M[0].incorporate_scale()
-                            A.append(M[0])
-                        else:
-                            A.append(TPMatrix(M, test_sp, trial_sp, sc, (test_ind[test_j], trial_ind[trial_j]), testspace, trialspace))
-                        if has_bcs:
-                            if len(DM) == 1: # 1D case
-                                DM[0].global_index = (test_ind[test_j], trial_ind[trial_j])
-                                DM[0].scale = sc
-                                DM[0].testbase = testspace
-                                DM[0].trialbase = testspace
-                                A.append(DM[0])
+                        # The regular matrices come first and then all combinations
+                        # including boundary matrices. There are no contributions
+                        # from zero matrices
+                        axes = [i for i, D in enumerate(DM) if D is not None]
+                        combinations = [c for n in range(len(axes)+1) for c in itertools.combinations(axes[::-1], n)]
+                        for bcaxes in combinations:
+                            mats = [DM[i] if i in bcaxes else M[i] for i in range(len(M))]
+                            if np.any([len(m) == 0 for m in mats]):
+                                continue
+                            if len(mats) == 1: # 1D case
+                                mats[0].global_index = (test_ind[test_j], trial_ind[trial_j])
+                                mats[0].testbase = testspace
+                                if len(bcaxes) == 0:
+                                    mats[0].scale = sc[0]
+                                    mats[0].trialbase = trialspace
+                                    mats[0].incorporate_scale()
+                                else:
+                                    mats[0].scale = sc
+                                    mats[0].trialbase = testspace
+                                A.append(mats[0])
                             else:
-                                if len(trial_sp.get_nonhomogeneous_axes()) == 1:
-                                    A.append(TPMatrix(DM, test_sp, trial_sp, sc, (test_ind[test_j], trial_ind[trial_j]), testspace, trialspace))
-                                elif len(trial_sp.get_nonhomogeneous_axes()) == 2:
-                                    if DM[1] != 0:
-                                        A.append(TPMatrix([M[0], DM[1]], test_sp, trial_sp, sc, (test_ind[test_j], trial_ind[trial_j]), testspace, trialspace))
-                                    if DM[0] != 0:
-                                        A.append(TPMatrix([DM[0], M[1]], test_sp, trial_sp, sc, (test_ind[test_j], trial_ind[trial_j]), testspace, trialspace))
-                                    if DM[0] != 0 and DM[1] != 0:
-                                        A.append(TPMatrix(DM, test_sp, trial_sp, sc, (test_ind[test_j], trial_ind[trial_j]), testspace, trialspace))
+                                A.append(TPMatrix(mats, test_sp, trial_sp, sc, (test_ind[test_j], trial_ind[trial_j]), testspace, trialspace))
 
     # At this point A contains all matrices of the form. The length of A is
     # the number of inner products. For each index into A there are ndim 1D
-- 
2.43.0


From 7f5f5a6735c1fc9affb253329b4237bdf3fa3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 16/84] fix: matrix vector products of TPMatrix with two or
 more non-periodic directions, one-row matrices, and assembly of measures with
 inexact quadrature

---
 shenfun/matrixbase.py | 92 +++++++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 39 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 23c1811..ef128c5 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -13,6 +13,7 @@ from scipy.sparse import bmat, spmatrix, dia_matrix, csr_matrix, kron, \
     diags as sp_diags
 from scipy.integrate import quad
 from mpi4py import MPI
+from mpi4py_fft.pencil import Pencil
 from shenfun.config import config
 from .utilities import integrate_sympy
 
@@ -133,9 +134,9 @@ class SparseMatrix(MutableMapping):
         else:
             diags = self.diags(format=format)
             P = int(np.prod(v.shape[1:]))
-            y = diags.dot(v[:M].reshape(M, P)).squeeze()
-            d = tuple([slice(0, m) for m in y.shape])
-            c[d] = y.reshape(c[d].shape)
+            y = diags.dot(v[:M].reshape(M, P))
+            d = tuple([slice(0, m) for m in (N,)+v.shape[1:]])
+            c[d] = y.reshape((N,)+v.shape[1:])
 
         if axis > 0:
             c = np.moveaxis(c, 0, axis)
@@ -168,9 +169,12 @@ class SparseMatrix(MutableMapping):
         """
         format = config['matrix']['sparse']['diags'] if format is None else format
         self.sort()
-        self._diags = sp_diags(list(self.values()),
-                               list(self.keys()),
-                               shape=self.shape, format=format)
+        if len(self) > 0:
+            self._diags = sp_diags(list(self.values()),
+                                   list(self.keys()),
+                                   shape=self.shape, format=format)
+        else:
+            self._diags = csr_matrix(self.shape).asformat(format)
         scale = self.scale
         if isinstance(scale, np.ndarray):
             scale = np.atleast_1d(scale).item()
@@ -676,7 +680,7 @@ class SpectralMatrix(SparseMatrix):
                                 kind = 'vandermonde'
                         else:
                             if (test[0].is_jacobi and sp.sympify(measure).is_polynomial() and
-                                (measure == 1 or test[1] == 0) and
+                                (measure == 1 or (test[1] == 0 and _exact_norm(test[0]))) and
                                 not (test[0].is_orthogonal and trial[0].is_orthogonal)):
                                 d = assemble_stencil(test, trial, measure)
                                 _assembly_method += '_stencil'
@@ -1458,39 +1462,44 @@ class TPMatrix:
             else:
                 c = tpmat.pmat.matvec(v[tpmat.global_index[1]], c, format=format, axis=axis)
             c[:] = c*tpmat.scale
-        elif len(tpmat.naxes) == 2:
-            # 2 non-periodic directions (may be non-aligned in second axis, hence transfers)
-            npaxes = deepcopy(list(tpmat.naxes))
-            space = tpmat.space
-            newspace = False
-            if space.forward.input_array.shape != space.forward.output_array.shape:
-                space = space.get_unplanned(True) # in case self.space is padded
-                newspace = True
-
-            pencilA = space.forward.output_pencil
-            subcomms = [s.Get_size() for s in pencilA.subcomm]
-            axis = pencilA.axis
-            assert subcomms[axis] == 1
-            npaxes.remove(axis)
-            second_axis = npaxes[0]
-            pencilB = pencilA.pencil(second_axis)
-            transAB = pencilA.transfer(pencilB, c.dtype.char)
-            cB = np.zeros(transAB.subshapeB, dtype=c.dtype)
-            cC = np.zeros(transAB.subshapeB, dtype=c.dtype)
-            bb = tpmat.mats[axis]
-            c = bb.matvec(v, c, format=format, axis=axis)
-            # align in second non-periodic axis
-            transAB.forward(c, cB)
-            bb = tpmat.mats[second_axis]
-            cC = bb.matvec(cB, cC, format=format, axis=second_axis)
-            transAB.backward(cC, c)
+        else:
+            # 2 or more non-periodic directions (may be non-aligned, hence transfers)
+            if getattr(v, 'rank', 0) > 0:
+                v = v[tpmat.global_index[1]]
+            pencil = tpmat.space.forward.output_pencil
+            shape = pencil.shape
+            pencil = Pencil(pencil.subcomm, getattr(v, 'global_shape', shape), pencil.axis)
+            pencils = []
+            w = v
+            for axis in sorted(tpmat.naxes, key=lambda axis: axis != pencil.axis):
+                if pencil.subcomm[axis].Get_size() > 1:
+                    # align in axis
+                    pencils.append(pencil)
+                    pencil = pencil.pencil(axis)
+                    w = self._transfer(w, pencils[-1], pencil, c.dtype)
+                newshape = list(pencil.shape)
+                newshape[axis] = shape[axis] # trial and test spaces may differ
+                pencil = Pencil(pencil.subcomm, newshape, pencil.axis)
+                w = tpmat.mats[axis].matvec(w, np.zeros(pencil.subshape, dtype=c.dtype), format=format, axis=axis)
+            for p in pencils[::-1]:
+                p = Pencil(p.subcomm, shape, p.axis)
+                w = self._transfer(w, pencil, p, c.dtype)
+                pencil = p
+            c[:] = w
             c *= tpmat.scale
-            transAB.destroy()
-            if newspace:
-                space.destroy()
 
         return c
 
+    @staticmethod
+    def _transfer(w, pencilA, pencilB, dtype):
+        w0 = np.zeros(pencilA.subshape, dtype=dtype)
+        w1 = np.zeros(pencilB.subshape, dtype=dtype)
+        w0[:] = w
+        transfer = pencilA.transfer(pencilB, dtype.char)
+        transfer.forward(w0, w1)
+        transfer.destroy()
+        return w1
+
     def get_key(self):
         naxis = self.space.get_nondiagonal_axes()
         assert len(naxis) == 1
@@ -2025,6 +2034,8 @@ def _assemble_stencil(test, trial, measure=1):
     gn = test[0].gn
     # This needs to be either implemented or quadrature:
     B = inner_product((Tv, test[1]), (Tu, trial[1]))
+    if len(B) == 0:
+        return {}
     K = test[0].stencil_matrix()
     q = sp.degree(measure)
 
@@ -2088,12 +2099,15 @@ def assemble_phi(test, trial, measure=1):
         return _assemble_phi_bc(test, trial, measure)
     return _assemble_phi(test, trial, measure)
 
+def _exact_norm(test):
+    # The quadrature may not be exact for the highest mode
+    return (test.is_padded or
+            not (test.quad == 'GL' or (test.family() == 'chebyshevu' and test.quad == 'GC')))
+
 def _assemble_phi(test, trial, measure=1):
     from shenfun.jacobi.recursions import Lmat
     from shenfun.utilities import split
-    # The quadrature is not exact for the highest mode
-    assert (test[0].is_padded or
-            not (test[0].quad == 'GL' or (test[0].family() == 'chebyshevu' and test[0].quad == 'GC')))
+    assert _exact_norm(test[0])
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
-- 
2.43.0


From 7e0694a19a43294607859ea56b68de5bee9d6d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 17/84] fix: project between spaces that differ (other basis,
 coarser composite, non-separable or scaled mass, pencil along a periodic
 axis) gave wrong coefficients

---
 shenfun/forms/project.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index 6ee83e5..6729827 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -92,7 +92,7 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
 
         assert W.rank == T.rank
         compatible_bases = W.compatible_base(T)
-        if (not compatible_bases) and use_assign:
+        if (not compatible_bases) and use_assign and _use_assign(W, T):
             # If the underlysing bases are the same, but of different size,
             # then use assign to simply copy to the new space
             try:
@@ -101,7 +101,7 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
             except:
                 pass
 
-        elif T.is_orthogonal and use_to_ortho:
+        elif compatible_bases and T.is_orthogonal and use_to_ortho:
             # Try to use fast to_ortho for projection to orthogonal space
             try:
                 output_array = uh.to_ortho(output_array)
@@ -136,11 +136,15 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
         if len(T.get_nonperiodic_axes()) == 2:
             # Means we have two non-periodic directions
             B = [B] if isinstance(B, TPMatrix) else B
+            B = la.get_simplified_tpmatrices(B)
             npaxes = list(B[0].naxes)
             assert len(npaxes) == 2
 
             pencilA = T.forward.output_pencil
             axis = pencilA.axis
+            if len(B) > 1 or axis not in npaxes:
+                # Not separable, or distributed along a non-periodic axis
+                return la.SolverGeneric2ND(B)(output_array, output_array)
             npaxes.remove(axis)
             second_axis = npaxes[0]
             pencilB = pencilA.pencil(second_axis)
@@ -153,6 +157,7 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
             b = B[0].mats[second_axis]
             output_arrayB2 = b.solve(output_arrayB, output_arrayB2, axis=second_axis)
             transAB.backward(output_arrayB2, output_array)
+            output_array[:] = output_array / B[0].scale
             transAB.destroy()
             return output_array
 
@@ -170,6 +175,26 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
     return output_array
 
 
+def _use_assign(W, T):
+    """Return True if a Function in W can be copied to the space T
+
+    The underlying bases need to be the same, and T the denser of the two,
+    unless it is orthogonal.
+    """
+    spaces = lambda V: V.flatten() if hasattr(V, 'flatten') else [V]
+    for w, t in zip(spaces(W), spaces(T)):
+        for b0, b1 in zip(getattr(w, 'bases', [w]), getattr(t, 'bases', [t])):
+            if not (b0.__class__ == b1.__class__ and b0.domain == b1.domain and
+                    getattr(b0, 'alpha', 0) == getattr(b1, 'alpha', 0) and
+                    getattr(b0, 'beta', 0) == getattr(b1, 'beta', 0)):
+                return False
+            if b1.N < b0.N and not b1.is_orthogonal:
+                return False
+            if getattr(b0, 'bcs', None) != getattr(b1, 'bcs', None):
+                return False
+    return True
+
+
 class Project:
     """Return an instance of a class that can perform projections efficiently
 
-- 
2.43.0


From 625fa233810c3686de78fb816c7c8ad3ae26cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 18/84] fix: one-dimensional Fourier forward transform ignored
 the measure of the curve

---
 shenfun/fourier/bases.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index 8f255d7..976b135 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -135,6 +135,8 @@ class FourierBase(SpectralBase):
         if input_array is not None:
             self.forward.input_array[...] = input_array
 
+        # Include the measure, since the mass matrix contains it as well
+        self.get_measured_array(self.forward.input_array)
         self.forward.xfftn()
         self._truncation_forward(self.forward.tmp_array,
                                  self.forward.output_array)
-- 
2.43.0


From 0cc700026bcb5e0502670331bf86062772a081eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 19/84] fix: BTTmat.solve ignored the scale, and ShenNeumann
 mass and Hermite stiffness matvec failed

---
 shenfun/chebyshev/matrices.py | 21 ++++++++-------------
 shenfun/hermite/matrices.py   | 12 ++----------
 2 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 6ec5224..461e8e6 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -162,11 +162,9 @@ class BTTmat(SpectralMatrix):
             u = b
         else:
             u[:] = b
-        space = self.testfunction[0]
-        u *= (2/np.pi*space.domain_factor())
-        u[space.si[0]] /= 2
-        if space.quad == 'GL' and not space.is_padded:
-            u[space.si[-1]] /= 2
+        s = [np.newaxis]*u.ndim # broadcasting
+        s[axis] = slice(None)
+        u /= (self.scale*np.atleast_1d(self[0]))[tuple(s)]
         return u
 
 class BTLmat(SpectralMatrix):
@@ -410,16 +408,13 @@ class BSNSNmat(SpectralMatrix):
             c = np.moveaxis(c, axis, 0)
 
         N = self.testfunction[0].N-2
-        k = np.arange(N)
+        s = (slice(None),)+(np.newaxis,)*(v.ndim-1) # broadcasting
         d0 = self[0]
         d2 = self[2]
-        c[0] = d0[0]*v[0] + d2[0]*v[2]
-        c[1] = d0[1]*v[1] + d2[1]*v[3]
-        for k in range(2, N-2):
-            c[k] = d2[k-2]* v[k-2] + d0[k]*v[k] + d2[k]*v[k+2]
-
-        c[N-2] = d2[N-4]*v[N-4] + d0[N-2]*v[N-2]
-        c[N-1] = d2[N-3]*v[N-3] + d0[N-1]*v[N-1]
+        c.fill(0)
+        c[:N] = d0[s]*v[:N]
+        c[:N-2] += d2[s]*v[2:N]
+        c[2:N] += d2[s]*v[:N-2]
         c *= self.scale
         if axis > 0:
             v = np.moveaxis(v, 0, axis)
diff --git a/shenfun/hermite/matrices.py b/shenfun/hermite/matrices.py
index b11e580..1154370 100644
--- a/shenfun/hermite/matrices.py
+++ b/shenfun/hermite/matrices.py
@@ -72,17 +72,9 @@ class AHHmat(SpectralMatrix):
     def matvec(self, v, c, format='cython', axis=0):
         N, M = self.shape
         c.fill(0)
-        if format == 'cython' and v.ndim == 3:
+        if format == 'cython':
             ld = self[-2]*np.ones(M-2)
-            cython.Matvec.Tridiagonal_matvec3D_ptr(v, c, ld, self[0], ld, axis)
-            self.scale_array(c, self.scale)
-        elif format == 'cython' and v.ndim == 2:
-            ld = self[-2]*np.ones(M-2)
-            cython.Matvec.Tridiagonal_matvec2D_ptr(v, c, ld, self[0], ld, axis)
-            self.scale_array(c, self.scale)
-        elif format == 'cython' and v.ndim == 1:
-            ld = self[-2]*np.ones(M-2)
-            cython.Matvec.Tridiagonal_matvec(v, c, ld, self[0], ld)
+            cython.Matvec.Tridiagonal_matvec(v, c, axis, ld, self[0], ld)
             self.scale_array(c, self.scale)
         elif format == 'self':
             if axis > 0:
-- 
2.43.0


From cadcff04db1d5474d4d55e80df4361ecac879980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 20/84] fix: inhomogeneous boundary data in curvilinear
 coordinates was projected without the measure

---
 shenfun/tensorproductspace.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 8147f99..56c2ca1 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -2006,6 +2006,16 @@ class BoundaryValues:
                     raise NotImplementedError
 
             if len(T.get_nonhomogeneous_axes()) == 1:
+                # The mass matrices of the other bases contain the measure
+                msdict = split(T.coors.get_sqrt_det_g())[0]
+                dx = sp.S(msdict['coeff'] if self.axis != T.dimensions-1 else 1)
+                for axis in range(T.dimensions):
+                    if axis != self.axis:
+                        dx *= msdict['xyzrs'[axis]]
+                if dx != 1:
+                    X = T.local_mesh(True)
+                    b *= sp.lambdify(sp.symbols('x,y,z,r,s')[:T.dimensions], dx.xreplace({f: sp.Symbol(str(f)) for f in dx.free_symbols}))(*X)
+
                 for j, bci in enumerate(self.bc.orderedvals()):
                     from .spectralbase import FuncWrap
                     if number_of_bases_after_this == 0:
@@ -2014,13 +2024,10 @@ class BoundaryValues:
                     else:
                         i = number_of_bases_after_this
                         u_hat = T.forward._xfftn[i].input_array
-                        dx = T.coors.get_sqrt_det_g()
-                        msdict = split(dx)
-                        c = msdict[0]['coeff']
                         fun = FuncWrap(lambda x, y, **kw: x, u_hat, u_hat) # Do-nothing
                         fwd = Transform(list(T.forward._xfftn[:i])+[fun],
                                         T.forward._transfer[:i], [[], []])
-                        b_hat = fwd(c*b).copy()
+                        b_hat = fwd(b).copy()
 
                     # Now b_hat contains the correct slices in slm1 and slm2
                     # These are the values to use on intermediate steps.
-- 
2.43.0


From 0919bccabf91393936643b0dec9457dd25bfdeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 21/84] fix: outer product of a 3D vector with itself used an
 unassigned component

---
 shenfun/utilities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/utilities/__init__.py b/shenfun/utilities/__init__.py
index d2a910e..13d2552 100644
--- a/shenfun/utilities/__init__.py
+++ b/shenfun/utilities/__init__.py
@@ -246,6 +246,7 @@ def outer3D(a, b, c, symmetric):
     c[0] = a[0]*b[0]
     c[1] = a[0]*b[1]
     c[2] = a[0]*b[2]
+    c[5] = a[1]*b[2]
     if symmetric:
         c[3] = c[1]
         c[6] = c[2]
@@ -255,7 +256,6 @@ def outer3D(a, b, c, symmetric):
         c[6] = a[2]*b[0]
         c[7] = a[2]*b[1]
     c[4] = a[1]*b[1]
-    c[5] = a[1]*b[2]
     c[8] = a[2]*b[2]
 
 def dot(u, v, output_array=None, forward_output=True):
-- 
2.43.0


From a97471be219f6bd83a1e496b52bd9d9f318740d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 22/84] fix: components of expressions refer to the wrong
 function when they involve several components

---
 shenfun/forms/arguments.py | 39 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index f6a9293..09cb442 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -565,9 +565,9 @@ class Expr:
 
         if len(self._terms) == 1:
             return 0
-        if len(self._terms) == len(self._terms[0][0]):
+        if len(self._terms) == self.dimensions:
             return 1
-        if len(self._terms) == len(self._terms[0][0])**2:
+        if len(self._terms) == self.dimensions**2:
             return 2
         raise RuntimeError
 
@@ -716,7 +716,7 @@ class Expr:
             s = sp.S(0)
             for j, term in enumerate(vec):
                 sc = self.scales()[i][j]
-                k = self.indices()[i][j]
+                k = self.indices()[i][j] - self._basis.offset()
                 b0 = basis[k]
                 tt = tuple([psi[n] for n, l in enumerate(term) for m in range(l)])
                 bi = 1
@@ -820,25 +820,26 @@ class Expr:
             raise IndexError
 
         basis = self._basis
+        n = 1
+        if self.expr_rank() == 2:
+            n = self.dimensions
+        elif not self.expr_rank() == 1:
+            raise NotImplementedError
+
+        terms = copy.deepcopy(self._terms[i*n:(i+1)*n])
+        scales = copy.deepcopy(self._scales[i*n:(i+1)*n])
+        indices = copy.deepcopy(self._indices[i*n:(i+1)*n])
+
         if self.tensor_rank:
             if ((self.expr_rank() == self.tensor_rank and self.is_basis_function) or
                     (self.expr_rank() > self.tensor_rank and self.tensor_rank > 0)):
-                basis = self._basis[i]
-
-        if self.expr_rank() == 1:
-            return Expr(basis,
-                        [copy.deepcopy(self._terms[i])],
-                        [copy.deepcopy(self._scales[i])],
-                        [copy.deepcopy(self._indices[i])])
-
-        elif self.expr_rank() == 2:
-            ndim = self.dimensions
-            return Expr(basis,
-                        copy.deepcopy(self._terms[i*ndim:(i+1)*ndim]),
-                        copy.deepcopy(self._scales[i*ndim:(i+1)*ndim]),
-                        copy.deepcopy(self._indices[i*ndim:(i+1)*ndim]))
-        else:
-            raise NotImplementedError
+                # Use component of basis if that is all that is being referred to
+                bi = self._basis[i]
+                offset = bi.offset()
+                if np.all([offset <= k < offset+bi.num_components() for ind in indices for k in ind]):
+                    basis = bi
+
+        return Expr(basis, terms, scales, indices)
 
     def get_contravariant_component(self, i, j=None):
         """Return contravariant vector component
-- 
2.43.0


From ab8a7b5b1510adb19c97b4676c1277166603f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 23/84] fix: evaluation of expressions of vectors, of Fourier
 series in 1D and in parallel

---
 shenfun/forms/arguments.py | 42 +++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 09cb442..1936cc8 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -751,21 +751,30 @@ class Expr:
         V = self.function_space()
         basis = self.basis()
 
+        nc = self.num_components()
         if output_array is None:
-            output_array = np.zeros(x.shape[1], dtype=V.forward.input_array.dtype)
+            shape = (x.shape[1],) if nc == 1 else (nc, x.shape[1])
+            output_array = np.zeros(shape, dtype=V.forward.input_array.dtype)
         else:
             output_array[:] = 0
 
-        work = np.zeros_like(output_array)
+        work = np.zeros(x.shape[1], dtype=output_array.dtype)
 
         assert V.dimensions == len(x)
+        assert V.dimensions < 4, 'eval not implemented (yet) for higher dimensions'
+
+        # Indices are global, whereas basis may be a component of a larger Function
+        offset = basis.offset()
+        spaces = V.flatten() if isinstance(V, CompositeSpace) else [V]
+        coefficients = basis.__array__()
+        coefficients = coefficients.reshape((len(spaces),)+coefficients.shape[coefficients.ndim-V.dimensions:])
 
         for vec, (base, ind) in enumerate(zip(self.terms(), self.indices())):
+            out = output_array if nc == 1 else output_array[vec]
             for base_j, b0 in enumerate(base):
                 M = []
-                test_sp = V
-                if isinstance(V, CompositeSpace):
-                    test_sp = V.flatten()[ind[base_j]]
+                test_sp = spaces[ind[base_j]-offset]
+                bv = coefficients[ind[base_j]-offset]
                 r2c = -1
                 last_conj_index = -1
                 sl = -1
@@ -773,23 +782,28 @@ class Expr:
                     xx = np.atleast_1d(test_sp[axis].map_reference_domain(np.squeeze(x[axis])))
                     P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k)
                     if not test_sp[axis].domain_factor() == 1:
-                        P *= test_sp[axis].domain_factor()**(k)
+                        P *= float(test_sp[axis].domain_factor())**k
                     if len(x) > 1:
-                        M.append(P[..., V.local_slice()[axis]])
+                        M.append(P[..., test_sp.local_slice()[axis]])
 
-                    if isinstance(test_sp[axis], R2C) and len(x) > 1:
+                    if isinstance(test_sp[axis], R2C):
                         r2c = axis
                         m = test_sp[axis].N//2+1
                         if test_sp[axis].N % 2 == 0:
                             last_conj_index = m-1
                         else:
                             last_conj_index = m
-                        sl = V.local_slice()[axis].start
+                        if len(x) > 1:
+                            sl = test_sp.local_slice()[axis].start
 
-                bv = basis if basis.tensor_rank == 0 else basis[ind[base_j]]
                 work.fill(0)
                 if len(x) == 1:
-                    work = np.dot(P, bv)
+                    if r2c == 0:
+                        work = np.dot(P, bv)
+                        work += np.conj(np.dot(P[:, 1:last_conj_index], bv[1:last_conj_index]))
+                        work = work.real
+                    else:
+                        work = np.dot(P, bv)
 
                 elif len(x) == 2:
                     work = cython.evaluate.evaluate_2D(work, bv, M, r2c, last_conj_index, sl)
@@ -807,7 +821,11 @@ class Expr:
                         j = 'xyzrs'.index(str(sym))
                         m.append(x[j])
                     sc = sp.lambdify(sym0, sc)(*m)
-                output_array += sc*work
+                out += sc*work
+
+        if len(x) > 1:
+            for c in spaces[0].subcomm:
+                output_array[:] = c.allreduce(output_array)
 
         return output_array
 
-- 
2.43.0


From fc894bc42076a8e3380ae484195746111f610cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 24/84] fix: Cartesian vector of arrays with covariant basis or
 constant non-integer components

---
 shenfun/forms/arguments.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 1936cc8..c029006 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -2036,13 +2036,10 @@ class Array(ShenfunBaseArray):
         T = self.function_space()
         psi = T.coors.psi
         x = T.local_mesh(True)
-        b = T.coors.get_basis()
-        bij = np.zeros(b.shape, dtype=object)
-        for bi in np.ndindex(bij.shape):
+        b = T.coors.get_basis(config['basisvectors'])
+        bij = np.zeros(b.shape+x[0].shape)
+        for bi in np.ndindex(b.shape):
             bij[bi] = sp.lambdify(psi, b[bi])(*x)
-            if isinstance(bij[bi], int):
-                bij[bi] = np.full(x[0].shape, bij[bi])
-        bij = np.array(bij.tolist())
         sl = [slice(None)]*bij.ndim
         sl[1] = None
         uc = np.sum(self[tuple(sl)]*bij, axis=0)
-- 
2.43.0


From 713cafd0ca3f768343770f124e3e315be8e0e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:37 +0000
Subject: [PATCH 25/84] fix: Coordinates.subs left quantities computed earlier
 unchanged

---
 shenfun/coordinates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shenfun/coordinates.py b/shenfun/coordinates.py
index e46b48c..66bf0f1 100644
--- a/shenfun/coordinates.py
+++ b/shenfun/coordinates.py
@@ -274,7 +274,11 @@ class Coordinates:
                 gt[i, j] = gt[i, j].subs(s0, s1)
 
         sg = self.get_sqrt_det_g().subs(s0, s1)
-        self._sqrt_det_g[True] = sg
+        self._sqrt_det_g = {True: sg, False: None}
+
+        # Recompute remaining quantities when required
+        self._e = self._bt = self._gn = self._ct = None
+        self._det_g = {True: None, False: None}
 
         hi = self.get_scaling_factors()
         for i in range(len(hi)):
-- 
2.43.0


From b5818d497df281be58a07107dffc3c65fd546cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:37 +0000
Subject: [PATCH 26/84] fix: latex_basis_vectors changed the basis vectors it
 prints

---
 shenfun/coordinates.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shenfun/coordinates.py b/shenfun/coordinates.py
index 66bf0f1..6452c15 100644
--- a/shenfun/coordinates.py
+++ b/shenfun/coordinates.py
@@ -313,14 +313,15 @@ class Coordinates:
                 if b[i, j] == 1:
                     m += (k[j]+'+')
                 elif b[i, j] != 0:
+                    bij = b[i, j]
                     if replace is not None:
                         for repl in replace:
                             assert len(repl) == 2
-                            b[i, j] = b[i, j].replace(*repl)
-                    sl = sp.latex(b[i, j], symbol_names=symbols)
-                    if sl.startswith('-') and not isinstance(b[i, j], sp.Add):
+                            bij = bij.replace(*repl)
+                    sl = sp.latex(bij, symbol_names=symbols)
+                    if sl.startswith('-') and not isinstance(bij, sp.Add):
                         m = m.rstrip('+')
-                    if isinstance(b[i, j], sp.Add):
+                    if isinstance(bij, sp.Add):
                         sl = '\\left(%s\\right)'%(sl)
                     m += (sl+'\\,'+k[j]+'+')
 
-- 
2.43.0


From 002e8437efe40501d8eb2c26ced78ead2815fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 27/84] fix: banded solvers left arrays of more than three
 dimensions unsolved

---
 shenfun/la.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shenfun/la.py b/shenfun/la.py
index 6522e2d..1ce13fb 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -257,6 +257,14 @@ class BandedMatrixSolver(SparseMatrixSolver):
         if u is not b:
             sl = u.function_space().slice() if hasattr(u, 'function_space') else slice(None)
             u[sl] = b[sl]
+        if u.ndim > 3:
+            # The optimized solvers handle at most three dimensions
+            shape = u.shape
+            v = np.reshape(u, (int(np.prod(shape[:axis])), shape[axis], int(np.prod(shape[axis+1:]))))
+            self.Solve(v, lu.data, 1)
+            if not np.shares_memory(u, v):
+                u[...] = v.reshape(shape)
+            return u
         self.Solve(u, lu.data, axis)
         return u
 
-- 
2.43.0


From e9b85a0358ca1621055db802f8077ca1e976924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 28/84] fix: third diagonal of the python ThreeDMA solver

---
 shenfun/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 1ce13fb..fe56ace 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -698,7 +698,7 @@ class ThreeDMA(BandedMatrixSolver):
     def inner_solve(u, data):
         d = data[0, :]
         u1 = data[1, 2:]
-        u2 = data[1, 4:]
+        u2 = data[2, 4:]
         n = d.shape[0]
         u[n-1] = u[n-1]/d[n-1]
         u[n-2] = u[n-2]/d[n-2]
-- 
2.43.0


From 06edec1f7f36672abf21794b290333a06efac996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 29/84] fix: generic solver left systems with one unknown
 unsolved

---
 shenfun/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index fe56ace..8690ac5 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -133,7 +133,7 @@ class SparseMatrixSolver:
             if isinstance(self.mat, SparseMatrix):
                 self.mat = self.mat.diags('csc')
             self.mat.eliminate_zeros()
-            if self.mat.nnz < 2:
+            if self.mat.nnz < min(2, self.mat.shape[0]):
                 self._lu = None
                 return self._lu
             self._lu = splu(self.mat, permc_spec=config['matrix']['sparse']['permc_spec'])
-- 
2.43.0


From 2b7f9abf558822eb827b9bb6ee167e6a0c673cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 30/84] fix: third diagonal of the Cython and Numba ThreeDMA
 solvers

---
 shenfun/optimization/cython/la.pyx     | 2 +-
 shenfun/optimization/numba/threedma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index 664b042..dee8bb7 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -571,7 +571,7 @@ cdef void ThreeDMA_inner_solve_ptr(T* u, int st, double* data, int m0, int m1):
         int i, n = m1
         double* d = &data[0]
         double* u1 = &data[m1+2]
-        double* u2 = &data[m1+4]
+        double* u2 = &data[2*m1+4]
     u[(n-1)*st] = u[(n-1)*st]/d[n-1]
     u[(n-2)*st] = u[(n-2)*st]/d[n-2]
     u[(n-3)*st] = (u[(n-3)*st]-u1[n-3]*u[(n-1)*st])/d[n-3]
diff --git a/shenfun/optimization/numba/threedma.py b/shenfun/optimization/numba/threedma.py
index 881fe3d..2695c5f 100644
--- a/shenfun/optimization/numba/threedma.py
+++ b/shenfun/optimization/numba/threedma.py
@@ -25,7 +25,7 @@ def ThreeDMA_Solve(x, data, axis=0):
 def ThreeDMA_inner_solve(u, data):
     d = data[0, :]
     u1 = data[1, 2:]
-    u2 = data[1, 4:]
+    u2 = data[2, 4:]
     n = d.shape[0]
     u[n-1] = u[n-1]/d[n-1]
     u[n-2] = u[n-2]/d[n-2]
-- 
2.43.0


From 3e89aa9f4ee2c3d53adf693bad4491c17955f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 31/84] fix: PDMA and HeptaDMA skipped the LU decomposition for
 constrained systems

---
 shenfun/la.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 8690ac5..216cf82 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -482,7 +482,6 @@ class PDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
@@ -745,7 +744,6 @@ class HeptaDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
-- 
2.43.0


From 35131d185202ca5bd4e4b88949ed18c617f35fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 32/84] fix: TDMA_O ignored constraints in the matrix

---
 shenfun/la.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/shenfun/la.py b/shenfun/la.py
index 216cf82..e7724ad 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -415,6 +415,17 @@ class TDMA_O(BandedMatrixSolver):
     def __init__(self, mats):
         BandedMatrixSolver.__init__(self, mats)
 
+    def apply_constraints(self, b, constraints, axis=0):
+        if len(constraints) > 0:
+            assert len(constraints) == 1
+            assert constraints[0][0] == 0, 'Can only fix first row of TDMA_O'
+            self._lu.diagonal(0)[0] = 1
+            self._lu.diagonal(1)[0] = 0
+            s = [slice(None)]*len(b.shape)
+            s[axis] = 0
+            b[tuple(s)] = constraints[0][1]
+        return b
+
     def perform_lu(self):
         if self._inner_arg is None:
             self.LU(self._lu.data)
-- 
2.43.0


From 3fa84b2d5d5a293d5b5140cffcaab614c6512338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 33/84] fix: one-dimensional Chebyshev Helmholtz solver raised
 for its own scale arrays

---
 shenfun/optimization/cython/la.pyx      | 2 +-
 shenfun/optimization/numba/helmholtz.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index dee8bb7..c97a028 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -708,7 +708,7 @@ cdef void Poisson_Solve_ADD_1D_ptr(double* d,
 def LU_Helmholtz(A, B, A_s, B_s, neumann, d0, d1, d2, L, axis):
     n = d0.ndim
     if n == 1:
-        LU_Helmholtz_1D(A, B, A_s, B_s, neumann, d0, d1, d2, L)
+        LU_Helmholtz_1D(A, B, A_s.item(), B_s.item(), neumann, d0, d1, d2, L)
     elif n == 2:
         LU_Helmholtz_2D(A, B, axis, A_s, B_s, neumann, d0, d1, d2, L)
     elif n == 3:
diff --git a/shenfun/optimization/numba/helmholtz.py b/shenfun/optimization/numba/helmholtz.py
index fe007c5..91127f3 100644
--- a/shenfun/optimization/numba/helmholtz.py
+++ b/shenfun/optimization/numba/helmholtz.py
@@ -13,7 +13,7 @@ def LU_Helmholtz(A, B, A_s, B_s, neumann, d0, d1, d2, L, axis):
     A_0, A_2, A_4, B_m2, B_0, B_2 = preLU(A, B, neumann)
 
     if n == 1:
-        LU_Helmholtz_1D(A_0, A_2, A_4, B_m2, B_0, B_2, np.asscalar(A_s), np.asscalar(B_s), neumann, d0, d1, d2, L)
+        LU_Helmholtz_1D(A_0, A_2, A_4, B_m2, B_0, B_2, A_s.item(), B_s.item(), neumann, d0, d1, d2, L)
     elif n == 2:
         LU_Helmholtz_2D(A_0, A_2, A_4, B_m2, B_0, B_2, axis, A_s, B_s, neumann, d0, d1, d2, L)
     elif n == 3:
@@ -275,7 +275,7 @@ def Helmholtz_matvec(v, b, alfa, beta, A, B, axis):
     n = v.ndim
     A_0, A_2, A_4, B_m2, B_0, B_2 = preLU(A, B)
     if n == 1:
-        Helmholtz_matvec1D(v, b, np.asscalar(alfa), np.asscalar(beta), A_0, A_2, B_0)
+        Helmholtz_matvec1D(v, b, alfa.item(), beta.item(), A_0, A_2, B_0)
     elif n == 2:
         Helmholtz_matvec2D(v, b, alfa, beta, A_0, A_2, B_0, axis)
     elif n == 3:
-- 
2.43.0


From 48e1afe88e70b58e4f3b1240ad84d13daf109745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 34/84] fix: Chebyshev ADD and ANN solvers of complex arrays of
 more than one dimension raised

---
 shenfun/chebyshev/la.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 1b18caf..da4b08c 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -45,8 +45,8 @@ class ADDSolver(SparseMatrixSolver):
             se = 0.0
             so = 0.0
         else:
-            se = np.zeros(us.shape[1:])
-            so = np.zeros(us.shape[1:])
+            se = np.zeros(us.shape[1:], dtype=us.dtype)
+            so = np.zeros(us.shape[1:], dtype=us.dtype)
 
         d = A[0]
         d1 = A[2]
@@ -98,8 +98,8 @@ class ANNSolver(SparseMatrixSolver):
             se = 0.0
             so = 0.0
         else:
-            se = np.zeros(u.shape[1:])
-            so = np.zeros(u.shape[1:])
+            se = np.zeros(u.shape[1:], dtype=u.dtype)
+            so = np.zeros(u.shape[1:], dtype=u.dtype)
             j2.repeat(np.prod(bs.shape[1:])).reshape(bs.shape)
         d = A[0]*j2
         d1 = A[2]*j2[2:]
-- 
2.43.0


From ba8f1f1c5cf2854c1b56ade998709a16cd19f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 35/84] fix: Chebyshev Biharmonic solver of few or an odd
 number of modes corrupted memory

---
 shenfun/chebyshev/la.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index da4b08c..773d565 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -476,6 +476,9 @@ class Biharmonic:
             self.beta = beta = args[5]
 
         S, A, B = self.S, self.A, self.B
+        if S.shape[0] < 10 or S.shape[0] % 2 == 1:
+            # The solvers for even and odd modes work on arrays of equal size
+            raise ValueError('Biharmonic requires an even number, and at least 10 modes')
         self.axis = S.axis
         T = S.tensorproductspace
         if T is None:
-- 
2.43.0


From dddd49b0ef1de769eaef8734a299f5be6b895020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 36/84] fix: solvers modified the caller's right hand side when
 u was provided and the boundary conditions inhomogeneous

---
 shenfun/chebyshev/la.py |  4 ++++
 shenfun/la.py           | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 773d565..04e7170 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -303,6 +303,8 @@ class Helmholtz:
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(u)
+            if u is not b:
+                b = b.copy()
             for bc_mat in self.bc_mats:
                 b -= bc_mat.matvec(u, w0)
         self.Solve_Helmholtz(b, u, self.neumann, self.u0, self.u1, self.u2, self.L, self.axis)
@@ -545,6 +547,8 @@ class Biharmonic:
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(u)
+            if u is not b:
+                b = b.copy()
             for bc_mat in self.bc_mats:
                 b -= bc_mat.matvec(u, w0)
         self.Biharmonic_Solve(b, u, self.u0, self.u1, self.u2, self.l0,
diff --git a/shenfun/la.py b/shenfun/la.py
index e7724ad..600099f 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -70,6 +70,8 @@ class SparseMatrixSolver:
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(b)
+            if u is not b:
+                b = b.copy()
             for bc_mat in self.bc_mats:
                 b -= bc_mat.matvec(u, w0, axis=axis)
         return b
@@ -1001,6 +1003,8 @@ class SolverGeneric2ND:
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = Function(self.T).v
+            if u is not b:
+                b = b.copy()
             for bc_mat in self.bc_mats:
                 b -= bc_mat.matvec(u, w0)
 
@@ -1134,6 +1138,8 @@ class Solver2D:
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = Function(self.T).v
+            if u is not b:
+                b = b.copy()
             for bc_mat in self.bc_mats:
                 b -= bc_mat.matvec(u, w0)
 
@@ -1429,6 +1435,8 @@ class SolverGeneric1ND:
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(b)
+            if u is not b:
+                b = b.copy()
             for bc_mat in self.bc_mats:
                 b -= bc_mat.matvec(u, w0)
 
@@ -1499,7 +1507,7 @@ class BlockMatrixSolver:
         if self.bc_mat: # Add contribution to right hand side due to inhomogeneous boundary conditions
             u.set_boundary_dofs()
             w0 = np.zeros_like(b)
-            b -= self.bc_mat.matvec(u, w0, use_scipy=True)
+            b = b - self.bc_mat.matvec(u, w0, use_scipy=True)
 
         nvars = b.shape[0] if len(b.shape) > space.dimensions else 1
         u = np.expand_dims(u, 0) if nvars == 1 else u
-- 
2.43.0


From 655ec0b094d103fd6123256f3861d97f983e31c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 37/84] fix: Chebyshev ASNSNmat.matvec scaled twice and
 BTLmat.matvec ignored scale, axis and quadrature

---
 shenfun/chebyshev/matrices.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 461e8e6..6c3d390 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -200,22 +200,6 @@ class BTLmat(SpectralMatrix):
             d[0][-1] *= 2
         return d
 
-    def matvec(self, v, c, format=None, axis=0):
-        # Roll relevant axis to first
-        c.fill(0)
-        if axis > 0:
-            v = np.moveaxis(v, axis, 0)
-            c = np.moveaxis(c, axis, 0)
-
-        N = self.testfunction[0].N
-        for n in range(0, N, 2):
-            c[:(N-n)] += self.a[n//2]*self.a[n//2:(N-n//2)]*v[n:]
-
-        if axis > 0:
-            c = np.moveaxis(c, 0, axis)
-            v = np.moveaxis(v, 0, axis)
-        return c
-
 class BSDSDmat(SpectralMatrix):
     r"""Mass matrix :math:`B=(b_{kj}) \in \mathbb{R}^{M \times N}`, where
 
@@ -1139,8 +1123,9 @@ class ASNSNmat(SpectralMatrix):
             s[0] = slice(None)
             j2 = j2[tuple(s)]
         vc = v[:-2]*j2
-        d0 = -2*np.pi*(k+1)/(k+2)*self.scale*self._keyscale
-        d2 = -4*np.pi*(k[:-2]+1)/(k[:-2]+2)**2*self.scale*self._keyscale
+        c[-2:] = 0
+        d0 = -2*np.pi*(k+1)/(k+2)*self._keyscale
+        d2 = -4*np.pi*(k[:-2]+1)/(k[:-2]+2)**2*self._keyscale
         c[N-1] = d0[N-1]*vc[N-1]
         c[N-2] = d0[N-2]*vc[N-2]
         s0 = 0
-- 
2.43.0


From ac574c6e937e12c963353290024c9fe808b14a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 38/84] fix: Cython matvec of arrays that are not C-contiguous
 read out of bounds and lost the result

---
 shenfun/optimization/cython/Matvec.pyx | 79 ++++++++++++++------------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/shenfun/optimization/cython/Matvec.pyx b/shenfun/optimization/cython/Matvec.pyx
index a0d8c43..10b336a 100644
--- a/shenfun/optimization/cython/Matvec.pyx
+++ b/shenfun/optimization/cython/Matvec.pyx
@@ -12,6 +12,13 @@ ctypedef fused T:
     double
     complex
 
+cdef np.ndarray _ravel(np.ndarray array):
+    # The strides used are those of C-contiguous arrays, and the output
+    # must be a view
+    if not array.flags.c_contiguous:
+        raise ValueError('ndarray is not C-contiguous')
+    return np.PyArray_Ravel(array, np.NPY_CORDER)
+
 ctypedef void (*funv)(T* const, T*, int, int, void* const)
 
 cdef IterAllButAxis(funv f, np.ndarray[T, ndim=1] input_array, np.ndarray[T, ndim=1] output_array, int st, int N, int axis, long int[::1] shapein, long int[::1] shapeout, void* const data):
@@ -61,9 +68,9 @@ cpdef CDN_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ld, double[::
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](CDN_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](CDN_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](CDN_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](CDN_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 ctypedef struct BDN:
@@ -99,9 +106,9 @@ cpdef BDN_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ld, double[::
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](BDN_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](BDN_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](BDN_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](BDN_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 ctypedef struct CDD0:
@@ -133,9 +140,9 @@ cpdef CDD_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ld, double[::
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](CDD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](CDD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](CDD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](CDD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 ctypedef struct SBB:
@@ -183,9 +190,9 @@ cpdef SBB_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] dd):
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](SBB_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](SBB_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](SBB_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](SBB_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 
@@ -228,9 +235,9 @@ cpdef ADD_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] dd):
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](ADD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](ADD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](ADD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](ADD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 cdef void ATT_matvec_ptr(T* const v,
@@ -269,9 +276,9 @@ cpdef ATT_matvec(np.ndarray v, np.ndarray b, int axis):
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](ATT_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[double](ATT_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     else:
-        IterAllButAxis[complex](ATT_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[complex](ATT_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     return b
 
 cdef void GLL_matvec_ptr(T* const v,
@@ -310,9 +317,9 @@ cpdef GLL_matvec(np.ndarray v, np.ndarray b, int axis):
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](GLL_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[double](GLL_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     else:
-        IterAllButAxis[complex](GLL_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[complex](GLL_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     return b
 
 
@@ -343,9 +350,9 @@ cpdef CLL_matvec(np.ndarray v, np.ndarray b, int axis):
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](CLL_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[double](CLL_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     else:
-        IterAllButAxis[complex](CLL_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[complex](CLL_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     return b
 
 cdef void CTSD_matvec_ptr(T* const v,
@@ -384,9 +391,9 @@ cpdef CTSD_matvec(np.ndarray v, np.ndarray b, int axis):
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](CTSD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[double](CTSD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     else:
-        IterAllButAxis[complex](CTSD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[complex](CTSD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     return b
 
 cdef void CTT_matvec_ptr(T* const v,
@@ -416,9 +423,9 @@ cpdef CTT_matvec(np.ndarray v, np.ndarray b, int axis):
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](CTT_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[double](CTT_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     else:
-        IterAllButAxis[complex](CTT_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, NULL)
+        IterAllButAxis[complex](CTT_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, NULL)
     return b
 
 ctypedef struct TD:
@@ -456,9 +463,9 @@ cpdef Tridiagonal_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ld, d
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](Tridiagonal_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](Tridiagonal_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](Tridiagonal_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](Tridiagonal_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 ctypedef struct PD:
@@ -506,9 +513,9 @@ cpdef Pentadiagonal_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ldd
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](Pentadiagonal_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](Pentadiagonal_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](Pentadiagonal_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](Pentadiagonal_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 ctypedef struct CBD:
@@ -543,9 +550,9 @@ cpdef CBD_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ld, double[::
         int N = v.shape[axis]
         int st = v.strides[axis]/v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](CBD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](CBD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](CBD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](CBD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 ctypedef struct CDB:
@@ -583,9 +590,9 @@ cpdef CDB_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] lld, double[:
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](CDB_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](CDB_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](CDB_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](CDB_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 ctypedef struct BBD:
@@ -623,9 +630,9 @@ cpdef BBD_matvec(np.ndarray v, np.ndarray b, int axis, double ld, double[::1] dd
         int N = v.shape[axis]
         int st = v.strides[axis]//v.itemsize
     if v.dtype.char in 'fdg':
-        IterAllButAxis[double](BBD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[double](BBD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     else:
-        IterAllButAxis[complex](BBD_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), st, N, axis, shape, shape, &c0)
+        IterAllButAxis[complex](BBD_matvec_ptr, _ravel(v), _ravel(b), st, N, axis, shape, shape, &c0)
     return b
 
 # Helmholtz solver has nonconstant coefficients alfa and beta, so need special iterator
@@ -705,9 +712,9 @@ cpdef Helmholtz_matvec(np.ndarray v, np.ndarray b, np.ndarray alfa, np.ndarray b
         int N = v.shape[axis]
         int st = v.strides[axis]/v.itemsize
     if v.dtype.char in 'fdg':
-        ABIterAllButAxis[double](Helmholtz_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), np.PyArray_Ravel(alfa, np.NPY_CORDER), np.PyArray_Ravel(beta, np.NPY_CORDER), st, N, axis, shape, ashape, &c0)
+        ABIterAllButAxis[double](Helmholtz_matvec_ptr, _ravel(v), _ravel(b), _ravel(alfa), _ravel(beta), st, N, axis, shape, ashape, &c0)
     else:
-        ABIterAllButAxis[complex](Helmholtz_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), np.PyArray_Ravel(alfa, np.NPY_CORDER), np.PyArray_Ravel(beta, np.NPY_CORDER), st, N, axis, shape, ashape, &c0)
+        ABIterAllButAxis[complex](Helmholtz_matvec_ptr, _ravel(v), _ravel(b), _ravel(alfa), _ravel(beta), st, N, axis, shape, ashape, &c0)
     return b
 
 
@@ -794,9 +801,9 @@ cpdef Helmholtz_Neumann_matvec(np.ndarray v, np.ndarray b, np.ndarray alfa, np.n
     c0 = HN(&dd[0], &ud[0], &bl[0], &bd[0], &bu[0], A[0].shape[0])
 
     if v.dtype.char in 'fdg':
-        ABIterAllButAxis[double](Helmholtz_Neumann_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), np.PyArray_Ravel(alfa, np.NPY_CORDER), np.PyArray_Ravel(beta, np.NPY_CORDER), st, N, axis, shape, ashape, &c0)
+        ABIterAllButAxis[double](Helmholtz_Neumann_matvec_ptr, _ravel(v), _ravel(b), _ravel(alfa), _ravel(beta), st, N, axis, shape, ashape, &c0)
     else:
-        ABIterAllButAxis[complex](Helmholtz_Neumann_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), np.PyArray_Ravel(alfa, np.NPY_CORDER), np.PyArray_Ravel(beta, np.NPY_CORDER), st, N, axis, shape, ashape, &c0)
+        ABIterAllButAxis[complex](Helmholtz_Neumann_matvec_ptr, _ravel(v), _ravel(b), _ravel(alfa), _ravel(beta), st, N, axis, shape, ashape, &c0)
     return b
 
 ctypedef struct Bi:
@@ -916,7 +923,7 @@ cpdef Biharmonic_matvec(np.ndarray v, np.ndarray b, double a0, np.ndarray alfa,
         int N = v.shape[axis]
         int st = v.strides[axis]/v.itemsize
     if v.dtype.char in 'fdg':
-        ABIterAllButAxis[double](Biharmonic_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), np.PyArray_Ravel(alfa, np.NPY_CORDER), np.PyArray_Ravel(beta, np.NPY_CORDER), st, N, axis, shape, ashape, &c0)
+        ABIterAllButAxis[double](Biharmonic_matvec_ptr, _ravel(v), _ravel(b), _ravel(alfa), _ravel(beta), st, N, axis, shape, ashape, &c0)
     else:
-        ABIterAllButAxis[complex](Biharmonic_matvec_ptr, np.PyArray_Ravel(v, np.NPY_CORDER), np.PyArray_Ravel(b, np.NPY_CORDER), np.PyArray_Ravel(alfa, np.NPY_CORDER), np.PyArray_Ravel(beta, np.NPY_CORDER), st, N, axis, shape, ashape, &c0)
+        ABIterAllButAxis[complex](Biharmonic_matvec_ptr, _ravel(v), _ravel(b), _ravel(alfa), _ravel(beta), st, N, axis, shape, ashape, &c0)
     return b
-- 
2.43.0


From 81998b20296621591a3d9531bc0f04270fb27282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 39/84] fix: Numba ANN_matvec divided by the scale, and left
 arrays of more than three dimensions untouched

---
 shenfun/optimization/numba/helmholtz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shenfun/optimization/numba/helmholtz.py b/shenfun/optimization/numba/helmholtz.py
index 91127f3..63a09da 100644
--- a/shenfun/optimization/numba/helmholtz.py
+++ b/shenfun/optimization/numba/helmholtz.py
@@ -459,8 +459,9 @@ def ANN_matvec1D(v, c, d0, d2, scale=1):
         else:
             s1 += v[k+2]*(k+2)**2
             c[k] += s1*d2[k]/(k+2)**2
+    c[N:] = 0
     if scale != 1:
-        c /= scale
+        c *= scale
 
 @nb.jit(nopython=True, fastmath=True, cache=True)
 def ANN_matvec2D(v, b, d0, d2, scale, axis):
@@ -496,4 +497,6 @@ def ANN_matvec(v, b, A, axis=0):
         ANN_matvec2D(vc, bc, A[0], A[2], A.scale, axis)
     elif n == 3:
         ANN_matvec3D(vc, bc, A[0], A[2], A.scale, axis)
+    else:
+        raise NotImplementedError
     return b
-- 
2.43.0


From 26d2b0c23dcdaee0a521cbbb9bb340b67b8b2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 40/84] fix: Chebyshev ADD, ANN, Helmholtz and Biharmonic
 solvers for scaled matrices, complex and multidimensional arrays

---
 shenfun/chebyshev/la.py            | 44 +++++++++++++++++++-----------
 shenfun/optimization/cython/la.pyx | 10 +++----
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 04e7170..c3c327a 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -17,6 +17,14 @@ class ADDSolver(SparseMatrixSolver):
     def solve(self, b, u, axis, lu):
         if u is not b:
             u[:] = b
+        if u.ndim > 3:
+            # The optimized solvers handle at most three dimensions
+            shape = u.shape
+            v = np.reshape(u, (int(np.prod(shape[:axis])), shape[axis], int(np.prod(shape[axis+1:]))))
+            self.Poisson_Solve_ADD(self.mat, v, v, axis=1)
+            if not np.shares_memory(u, v):
+                u[...] = v.reshape(shape)
+            return u
         self.Poisson_Solve_ADD(self.mat, b, u, axis=axis)
         return u
 
@@ -67,7 +75,6 @@ class ADDSolver(SparseMatrixSolver):
             u = np.moveaxis(u, 0, axis)
             if u is not b:
                 b = np.moveaxis(b, 0, axis)
-        u.set_boundary_dofs()
         return u
 
 
@@ -75,7 +82,7 @@ class ANNSolver(SparseMatrixSolver):
 
     def __call__(self, b, u=None, axis=0, constraints=((0, 0),)):
         A = self.mat
-        assert A.shape[0] + 2 == b.shape[0]
+        assert A.shape[0] + 2 == b.shape[axis]
         s = A.trialfunction[0].slice()
 
         if u is None:
@@ -243,8 +250,8 @@ class Helmholtz:
             if isinstance(self.A, TPMatrix):
                 self.A = self.A.pmat
                 self.B = self.B.pmat
-                self.alfa *= self.A.scale
-                self.beta *= self.B.scale
+                self.alfa = self.alfa*self.A.scale
+                self.beta = self.beta*self.B.scale
         elif len(args) == 4:
             self.alfa = args[2]
             self.beta = args[3]
@@ -330,11 +337,12 @@ class Helmholtz:
         -------
             c : array
         """
+        # The coefficients include the scales of the two matrices
+        w = np.zeros_like(c)
         c[:] = 0
-        if not self.neumann:
-            self.Helmholtz_matvec(v, c, self.alfa, self.beta, self.A, self.B, self.axis)
-        else:
-            self.Helmholtz_Neumann_matvec(v, c, self.alfa, self.beta, self.A, self.B, self.axis)
+        for mat, coeff in ((self.A, self.alfa), (self.B, self.beta)):
+            w = mat.matvec(v, w, axis=self.axis)
+            c += coeff/mat.scale*w
         if len(self.bc_mats) > 0:
             v.set_boundary_dofs()
             w0 = np.zeros_like(v)
@@ -470,8 +478,9 @@ class Biharmonic:
                 self.S = self.S.pmat
                 self.A = self.A.pmat
                 self.B = self.B.pmat
-                self.alfa *= self.A.scale
-                self.beta *= self.B.scale
+                self.a0 = a0 = a0*np.atleast_1d(self.S.scale).item()
+                self.alfa = alfa = alfa*self.A.scale
+                self.beta = beta = beta*self.B.scale
         elif len(args) == 6:
             self.a0 = a0 = np.atleast_1d(args[3]).item()
             self.alfa = alfa = args[4]
@@ -487,7 +496,9 @@ class Biharmonic:
             shape = [S[0].shape]
         else:
             shape = list(T.shape(True))
-        sii, siu, siuu = S[0], S[2], S[4]
+        # The LU and the back substitution make use of the unscaled items of S
+        self._a0 = a0 = self.a0*S._keyscale
+        sii, siu, siuu = (S[key]/S._keyscale for key in (0, 2, 4))
         ail, aii, aiu = A[-2], A[0], A[2]
         bill, bil, bii, biu, biuu = B[-4], B[-2], B[0], B[2], B[4]
         M = sii[::2].shape[0]
@@ -552,14 +563,15 @@ class Biharmonic:
             for bc_mat in self.bc_mats:
                 b -= bc_mat.matvec(u, w0)
         self.Biharmonic_Solve(b, u, self.u0, self.u1, self.u2, self.l0,
-                              self.l1, self.ak, self.bk, self.a0, self.axis)
+                              self.l1, self.ak, self.bk, self._a0, self.axis)
 
         return u
 
     def matvec(self, v, c):
+        # The coefficients include the scales of the three matrices
+        w = np.zeros_like(c)
         c[:] = 0
-        self.Biharmonic_matvec(v, c, self.a0, self.alfa, self.beta, self.S[0],
-                               self.S[2], self.S[4], self.A[-2], self.A[0],
-                               self.A[2], self.B[-4], self.B[-2], self.B[0],
-                               self.B[2], self.B[4], self.axis)
+        for mat, coeff in ((self.S, self.a0), (self.A, self.alfa), (self.B, self.beta)):
+            w = mat.matvec(v, w, axis=self.axis)
+            c += coeff/mat.scale*w
         return c
diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index c97a028..1e45f32 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -670,11 +670,11 @@ def Poisson_Solve_ADD_3D_ptr(double[::1] d,
                 Poisson_Solve_ADD_1D_ptr(&d[0], &d1[0], scale, &b[i, j, 0], &u[i, j, 0], N, strides)
 
 
-cdef void Poisson_Solve_ADD_1D(double[::1] d,
-                               double[::1] d1,
-                               double scale,
-                               double[::1] b,
-                               double[::1] u):
+def Poisson_Solve_ADD_1D(double[::1] d,
+                         double[::1] d1,
+                         double scale,
+                         T[::1] b,
+                         T[::1] u):
     Poisson_Solve_ADD_1D_ptr(&d[0], &d1[0], scale, &b[0], &u[0], d.shape[0], 1)
 
 cdef void Poisson_Solve_ADD_1D_ptr(double* d,
-- 
2.43.0


From ca01cdcdf901b3e43a176345355e5f9a98e42de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 41/84] fix: non-diagonal slices of spaces with two Fourier
 axes

---
 shenfun/tensorproductspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 56c2ca1..bb938e1 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1362,10 +1362,10 @@ class TensorProductSpace(PFFT):
             daxes += 1
         j = np.atleast_1d((0,)*len(daxes) if j == () else j)
         assert len(j) == len(daxes)
-        sa = np.array(sl)
+        sa = np.atleast_2d(np.array(sl))
         if len(daxes) > 0:
-            sa.T[daxes] = j if isinstance(j, int) else np.array(j)[:, None]
-        return np.atleast_2d(sa)
+            sa.T[daxes] = np.array(j)[:, None]
+        return sa
 
     def _get_ndiag_slices_and_dims(self, j=()):
         """Return nondiagonal slices and their accumulated dimensions"""
-- 
2.43.0


From f15971496763fc13bb281347aae37546deb9f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 42/84] fix: banded matvec kernels read out of bounds for small
 matrices

---
 shenfun/optimization/cython/Matvec.pyx | 38 +++++++++++---------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/shenfun/optimization/cython/Matvec.pyx b/shenfun/optimization/cython/Matvec.pyx
index 10b336a..2c7c9a9 100644
--- a/shenfun/optimization/cython/Matvec.pyx
+++ b/shenfun/optimization/cython/Matvec.pyx
@@ -447,14 +447,12 @@ cdef void Tridiagonal_matvec_ptr(T* const v,
         double* ud = c0.ud
         int M = c0.N
 
-    b[0] = dd[0]*v[0] + ud[0]*v[2*st]
-    b[st] = dd[1]*v[st] + ud[1]*v[3*st]
-    for i in range(2, M-2):
-        b[i*st] = ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-2
-    b[i*st] = ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st]
-    i = M-1
-    b[i*st] = ld[i-2]* v[(i-2)*st] + dd[i]*v[i*st]
+    for i in range(M):
+        b[i*st] = dd[i]*v[i*st]
+    for i in range(M-2):
+        b[i*st] = b[i*st] + ud[i]*v[(i+2)*st]
+    for i in range(2, M):
+        b[i*st] = b[i*st] + ld[i-2]*v[(i-2)*st]
 
 cpdef Tridiagonal_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ld, double[::1] dd, double[::1] ud):
     cdef:
@@ -491,20 +489,16 @@ cdef void Pentadiagonal_matvec_ptr(T* const v,
         double* udd = c0.udd
         int M = c0.N
 
-    b[0] = dd[0]*v[0] + ud[0]*v[2*st] + udd[0]*v[4*st]
-    b[1*st] = dd[1]*v[1*st] + ud[1]*v[3*st] + udd[1]*v[5*st]
-    b[2*st] = ld[0]*v[0] + dd[2]*v[2*st] + ud[2]*v[4*st] + udd[2]*v[6*st]
-    b[3*st] = ld[1]*v[1*st] + dd[3]*v[3*st] + ud[3]*v[5*st] + udd[3]*v[7*st]
-    for i in range(4, M-4):
-        b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st] + udd[i]*v[(i+4)*st]
-    i = M-4
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-3
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-2
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st]
-    i = M-1
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st]
+    for i in range(M):
+        b[i*st] = dd[i]*v[i*st]
+        if i >= 4:
+            b[i*st] += ldd[i-4]*v[(i-4)*st]
+        if i >= 2:
+            b[i*st] += ld[i-2]*v[(i-2)*st]
+        if i < M-2:
+            b[i*st] += ud[i]*v[(i+2)*st]
+        if i < M-4:
+            b[i*st] += udd[i]*v[(i+4)*st]
 
 cpdef Pentadiagonal_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ldd, double[::1] ld, double[::1] dd, double[::1] ud, double[::1] udd):
     cdef:
-- 
2.43.0


From b90cd28c4a1408716adeb467e7c99be079db95d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 43/84] fix: Helmholtz_2dirichlet direct solver ignored the
 scale of the stiffness terms

---
 shenfun/legendre/la.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/legendre/la.py b/shenfun/legendre/la.py
index 93452ec..65040b9 100644
--- a/shenfun/legendre/la.py
+++ b/shenfun/legendre/la.py
@@ -115,7 +115,8 @@ class Helmholtz_2dirichlet:
 
             # Apply the inverse in eigen space
             ls = self.T.local_slice()
-            u /= (self.BB.scale + self.lmbdax[:, np.newaxis] + self.lmbday[np.newaxis, :])[ls]
+            u /= (self.BB.scale + self.scale['AUB']*self.lmbdax[:, np.newaxis]
+                  + self.scale['BUA']*self.lmbday[np.newaxis, :])[ls]
 
             # Map back to physical space
             u[:] = self.Vx.dot(u)
-- 
2.43.0


From 023da8a39b1edc5ba7ca14cf5dbb95bf4c1d4ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 44/84] fix: 1D solver factory used real kernels for complex
 matrices

---
 shenfun/la.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shenfun/la.py b/shenfun/la.py
index 600099f..32a802b 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -37,6 +37,9 @@ def Solver(mats):
     if isinstance(mats, list):
         bc_mats = extract_bc_matrices([mats])
         mat = sum(mats[1:], mats[0])
+    if np.iscomplexobj(mat.scale) or np.any([np.iscomplexobj(d) for d in mat.values()]):
+        # The optimized solvers are all for real matrices
+        return Solve([mat]+bc_mats)
     return mat.get_solver()([mat]+bc_mats)
 
 class SparseMatrixSolver:
-- 
2.43.0


From 535abe4f528c5c7db516a91f270a99079163c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 45/84] fix: SolverGeneric2ND with complex scale

---
 shenfun/la.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 32a802b..65efd2d 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -932,13 +932,13 @@ class SolverGeneric2ND:
             A0 = m.mats[naxes[0]].diags('csc')
             A1 = m.mats[naxes[1]].diags('csc')
             M0 = kron(A0, A1, 'csc')
-            M0 *= m.scale[tuple(sc)]
+            M0 = M0*m.scale[tuple(sc)]
             for m in self.tpmats[1:]:
                 A0 = m.mats[naxes[0]].diags('csc')
                 A1 = m.mats[naxes[1]].diags('csc')
                 M1 = kron(A0, A1, 'csc')
                 sc[diagonal_axis] = i if m.scale.shape[diagonal_axis] > 1 else 0
-                M1 *= m.scale[tuple(sc)]
+                M1 = M1*m.scale[tuple(sc)]
                 M0 = M0 + M1
         self.mats2D[i] = M0
         return M0
-- 
2.43.0


From d9482d3ed3d02aa73a750fd12bcf616936b3d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 46/84] fix: constraints of SolverGeneric2ND

---
 shenfun/la.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 65efd2d..4ed2f9e 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -944,6 +944,9 @@ class SolverGeneric2ND:
         return M0
 
     def apply_constraints(self, b, constraints):
+        if self.T.dimensions == 3 and self.T.local_slice()[self.get_diagonal_axis()].start > 0:
+            # The first index of the diagonal axis is on another processor
+            return b
         if len(constraints) > 0:
             if self._lu is None:
                 A = self.mats2D[0]
@@ -952,11 +955,15 @@ class SolverGeneric2ND:
                     _, zerorow = A[row].nonzero()
                     A[(row, zerorow)] = 0
                     A[row, row] = 1
-                    b[row] = val
                 self.mats2D[0] = A.tocsc()
-            else:
-                for (row, val) in constraints:
-                    b[row] = val
+            # row is the flattened row of the non-diagonal axes, for the
+            # first index of the diagonal axis
+            naxes = self.T.get_nondiagonal_axes()
+            s0 = [0]*b.ndim
+            for (row, val) in constraints:
+                for axis, i in zip(naxes, np.unravel_index(row, np.take(self.T.dims(), naxes))):
+                    s0[axis] = i
+                b[tuple(s0)] = val
         return b
 
     def assemble(self):
-- 
2.43.0


From 477a25bf83a07d51b4226cc301bd580b07d3494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 47/84] fix: BlockMatrixSolver for Fourier systems

---
 shenfun/la.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 4ed2f9e..fd8ad35 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1540,12 +1540,11 @@ class BlockMatrixSolver:
             if isinstance(self._lu, dict):
                 for con in constraints:
                     Ai, gi = self.apply_constraint(Ai, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
+                self._lu = sp.linalg.splu(Ai.astype(gi.dtype), permc_spec=config['matrix']['block']['permc_spec'])
             else:
                 for con in constraints:
                     _, gi = self.apply_constraint(None, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
-            lu = sp.linalg.splu(Ai, permc_spec=config['matrix']['block']['permc_spec'])
-            self._lu = lu
-            u[:] = lu.solve(gi).reshape(u.shape)
+            u[:] = self._lu.solve(gi).reshape(u.shape)
 
         else:
             sl, dims = space._get_ndiag_slices_and_dims()
-- 
2.43.0


From c857f12dcf1ecfd2ee8359c90385625dc6f3c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 48/84] fix: BlockMatrix.matvec with scipy for Fourier-only
 systems

---
 shenfun/matrixbase.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index ef128c5..7c22b80 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1097,8 +1097,7 @@ class BlockMatrix:
             daxes = self.testbase.get_diagonal_axes()
             if len(daxes) == self.testbase.dimensions:
                 # Only Fourier
-                assert isinstance(self._Ai, spmatrix)
-                c.flatten()[:] = self._Ai * v.flatten()
+                c.v[:] = (self._Ai[0] * v.v.flatten()).reshape(c.shape)
             else:
                 if len(daxes) > 0:
                     daxes += 1
-- 
2.43.0


From 0698d3ba5031a45b9e455b2e864ce2c084894bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 49/84] fix: assembling systems changed the user's matrices

---
 shenfun/matrixbase.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 7c22b80..297a66e 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1027,11 +1027,11 @@ class BlockMatrix:
                     self.mats[i][j] = [m]
                 else:
                     found = False
-                    for n in m0:
-                        if m == n:
-                            n += m
+                    for k, n in enumerate(m0):
+                        if isinstance(m, TPMatrix) and m == n:
+                            m0[k] = n._add_scale(m)
                             found = True
-                            continue
+                            break
                     if not found:
                         self.mats[i][j].append(m)
 
@@ -1592,6 +1592,14 @@ class TPMatrix:
         return TPMatrix(self.mats, self.space, self.trialspace, self.scale+a.scale,
                         self.global_index, self.testbase, self.trialbase)
 
+    def _add_scale(self, a):
+        """Return self + a without modifying self, and keep simplifications"""
+        b = self+a
+        b.pmat = self.pmat
+        b.naxes = self.naxes
+        b._issimplified = self._issimplified
+        return b
+
     def __iadd__(self, a):
         """self.__iadd__(a) <==> self += a"""
         assert isinstance(a, TPMatrix)
@@ -1687,10 +1695,11 @@ def get_simplified_tpmatrices(tpmats):
     B = [A[0]]
     for a in A[1:]:
         found = False
-        for b in B:
+        for i, b in enumerate(B):
             if a == b:
-                b += a
+                B[i] = b._add_scale(a)
                 found = True
+                break
         if not found:
             B.append(a)
     return B
-- 
2.43.0


From 3bd922a081f8fc7e8fd3f53533e6167685ea44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 50/84] fix: BlockMatrix.__iadd__ returned None

---
 shenfun/matrixbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 297a66e..aa680a0 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1034,6 +1034,7 @@ class BlockMatrix:
                             break
                     if not found:
                         self.mats[i][j].append(m)
+        return self
 
     def get_mats(self, return_first=False):
         """Return flattened list of matrices in self
-- 
2.43.0


From ba861e3f875dcd70205c6413e6c39fc8f5272680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 51/84] fix: constraints modified the matrix of the user, and
 missed some entries

---
 shenfun/la.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index fd8ad35..e617a0c 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -113,18 +113,25 @@ class SparseMatrixSolver:
                         b[row] = val
 
             elif isinstance(A, SparseMatrix):
+                if self._lu is None:
+                    # Do not modify the original matrix
+                    A = object.__new__(self.mat.__class__)
+                    A.__dict__.update(self.mat.__dict__)
+                    A._storage = dict(self.mat._storage)
+                    A._storage.setdefault(0, 0)
+                    self.mat = A
                 for (row, val) in constraints:
                     if self._lu is None:
-                        for key, vals in A.items():
+                        for key, vals in list(A.items()):
                             if key >= 0:
                                 M = A.shape[0]-key
-                                v = np.broadcast_to(np.atleast_1d(vals), M).copy()
+                                v = np.broadcast_to(np.atleast_1d(vals), M).astype(np.result_type(vals, float, A.scale))
                                 if row < M:
                                     v[row] = int(key == 0)/A.scale
                             elif key < 0:
                                 M = A.shape[0]+key
                                 v = np.broadcast_to(np.atleast_1d(vals), M).copy()
-                                if row+key < M and row+key > 0:
+                                if row+key < M and row+key >= 0:
                                     v[row+key] = 0
                             A[key] = v
                     if b.ndim > 1:
-- 
2.43.0


From 9ceeb3241d8820cd354b73500f28ce37e73ce888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 52/84] fix: BlockMatrix kept assembled system after in-place
 addition

---
 shenfun/matrixbase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index aa680a0..49639ef 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1012,6 +1012,8 @@ class BlockMatrix:
         a : :class:`.BlockMatrix` or list of :class:`.TPMatrix` instances
 
         """
+        self._Ai = None
+        self.solver = None
         if isinstance(a, BlockMatrix):
             tpmats = a.get_mats()
         elif isinstance(a, (list, tuple)):
@@ -1021,6 +1023,8 @@ class BlockMatrix:
                 mat = [mat]
             for m in mat:
                 assert isinstance(m, (TPMatrix, SparseMatrix))
+                if isinstance(m, TPMatrix) and len(m.naxes) > 0:
+                    m = m.get_simplified()
                 i, j = m.global_index
                 m0 = self.mats[i][j]
                 if isinstance(m0, int):
-- 
2.43.0


From b4f552783e6e6af226190327991c40227a49ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 53/84] fix: TPMatrix shared state between copies and lacked
 true division

---
 shenfun/matrixbase.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 49639ef..42a3981 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1333,7 +1333,7 @@ class TPMatrix:
                  testbase=None, trialbase=None):
         assert isinstance(mats, (list, tuple))
         assert len(mats) == len(testspace)
-        self.mats = mats
+        self.mats = list(mats)
         self.space = testspace
         self.trialspace = trialspace
         self.scale = scale
@@ -1546,10 +1546,8 @@ class TPMatrix:
 
     def __imul__(self, a):
         """Returns self.__imul__(a) <==> self*=a"""
-        if isinstance(a, Number):
-            self.scale *= a
-        elif isinstance(a, np.ndarray):
-            self.scale = self.scale*a
+        # not in-place, because scale may be shared with other matrices
+        self.scale = self.scale*a
         return self
 
     def __div__(self, a):
@@ -1564,6 +1562,10 @@ class TPMatrix:
         else:
             raise NotImplementedError
 
+    def __truediv__(self, a):
+        """Returns copy self.__truediv__(a) <==> self/a"""
+        return self.__div__(a)
+
     def __neg__(self):
         """self.__neg__() <==> -self"""
         A = self.copy()
-- 
2.43.0


From 2922e11c98362b8f4bf56a549ab2adeb80508fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 54/84] fix: Identity.solve ignored constraints

---
 shenfun/matrixbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 42a3981..2251d9a 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -837,6 +837,8 @@ class Identity(SparseMatrix):
             assert u.shape == b.shape
             u[:] = b
         u *= (1/self.scale)
+        for (row, val) in constraints:
+            u[(slice(None),)*axis+(row,)] = val
         return u
 
 class ScipyMatrix(csr_matrix):
-- 
2.43.0


From 971f0bd1f2c71cc3794377d606c6155b8fdc1bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 55/84] fix: sorting froze the diagonals of lazily evaluated
 matrices

---
 shenfun/matrixbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 2251d9a..67de1a6 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -181,7 +181,8 @@ class SparseMatrix(MutableMapping):
         return self._diags*scale if scaled else self._diags
 
     def sort(self):
-        self._storage = {si[0]: si[1] for si in sorted(self.items())}
+        # Note that the diagonals may be functions
+        self._storage = {key: self._storage[key] for key in sorted(self._storage)}
 
     def __getitem__(self, key):
         v = self._storage[key]
-- 
2.43.0


From fc1324a61fa5859e2f0e061a593b907c0f9d3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 56/84] fix: stale solver after changing a SparseMatrix

---
 shenfun/matrixbase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 67de1a6..633c57c 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -84,6 +84,7 @@ class SparseMatrix(MutableMapping):
         self.scale = scale
         self._matvec_methods = []
         self.solver = None
+        self._solver_key = None
 
     def matvec(self, v, c, format=None, axis=0):
         """Matrix vector product
@@ -192,9 +193,11 @@ class SparseMatrix(MutableMapping):
 
     def __delitem__(self, key):
         del self._storage[key]
+        self.solver = None
 
     def __setitem__(self, key, val):
         self._storage[key] = val
+        self.solver = None
 
     def __iter__(self):
         return iter(self._storage)
@@ -436,8 +439,11 @@ class SparseMatrix(MutableMapping):
         Vectors may be one- or multidimensional.
 
         """
-        if self.solver is None:
+        # The solver contains the factorized matrix, including constraints
+        key = (tuple([con[0] for con in constraints]), np.asarray(self.scale).tobytes())
+        if self.solver is None or self._solver_key != key:
             self.solver = self.get_solver()(self)
+            self._solver_key = key
         u = self.solver(b, u=u, axis=axis, constraints=constraints)
         return u
 
-- 
2.43.0


From 1e5be5456ce8b68f45910050dd0a1826949ddfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 57/84] fix: banded solvers used for complex SparseMatrix

---
 shenfun/matrixbase.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 633c57c..a46c2ff 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -234,7 +234,8 @@ class SparseMatrix(MutableMapping):
             c.scale *= y
             return c
         elif isinstance(y, np.ndarray):
-            c = np.empty_like(y)
+            shape = (max(y.shape[0], self.shape[0]),) + y.shape[1:]
+            c = np.empty_like(y, shape=shape, dtype=self._result_type(y))
             c = self.matvec(y, c)
             return c
         elif isinstance(y, SparseMatrix):
@@ -260,12 +261,15 @@ class SparseMatrix(MutableMapping):
             c.scale /= y
             return c
         elif isinstance(y, np.ndarray):
-            b = np.zeros_like(y)
-            b = self.solve(y, b)
+            b = np.zeros_like(y, dtype=self._result_type(y))
+            b = self.solve(y.astype(b.dtype), b)
             return b
         else:
             raise NotImplementedError
 
+    def _result_type(self, y):
+        return np.result_type(y.dtype, float, np.asarray(self.scale), *[np.asarray(v) for v in self.values()])
+
     def __truediv__(self, y):
         """Returns copy self.__div__(y) <==> self/y"""
         return self.__div__(y)
@@ -459,6 +463,9 @@ class SparseMatrix(MutableMapping):
             DiagMA, HeptaDMA)
         if self.scale == 0:
             return Solve
+        if np.iscomplexobj(self.scale) or np.any([np.iscomplexobj(d) for d in self.values()]):
+            # The optimized solvers are all for real matrices
+            return Solve
 
         if len(self) == 1:
             if list(self.keys())[0] == 0:
-- 
2.43.0


From 3584a7d57109993748150e141537c1b98dc16e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 58/84] fix: sums of SparseMatrix changed operands and ignored
 small scale differences

---
 shenfun/matrixbase.py | 70 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index a46c2ff..424a43c 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -277,25 +277,24 @@ class SparseMatrix(MutableMapping):
     def __add__(self, d):
         """Return copy of self.__add__(y) <==> self+d"""
 
-        if abs(self.scale) < 1e-15 and abs(d.scale) < 1e-15:
+        if self.scale == 0 and d.scale == 0:
             f = SparseMatrix({0: 0}, self.shape)
 
-        elif abs(self.scale) < 1e-15:
+        elif self.scale == 0:
             f = SparseMatrix(deepcopy(dict(d)), d.shape, d.scale)
 
-        elif abs(d.scale) < 1e-15:
-            f = self.copy()
+        elif d.scale == 0:
+            f = SparseMatrix(deepcopy(dict(self)), self.shape, self.scale)
 
         else:
             assert isinstance(d, Mapping)
             f = SparseMatrix(deepcopy(dict(self)), self.shape, self.scale)
             f.incorporate_scale()
-            d.incorporate_scale()
             for key, val in d.items():
                 if key in f:
-                    f[key] = f[key] + val
+                    f[key] = f[key] + val*d.scale
                 else:
-                    f[key] = val
+                    f[key] = val*d.scale
         return f
 
     def __iadd__(self, d):
@@ -303,47 +302,46 @@ class SparseMatrix(MutableMapping):
         assert isinstance(d, Mapping)
         assert d.shape == self.shape
 
-        if abs(d.scale) < 1e-16:
+        if type(self) is not SparseMatrix:
+            # The sum is no longer the special matrix with optimized methods
+            return self + d
+
+        if d.scale == 0:
             return self
 
-        elif abs(self.scale) < 1e-16:
+        if self.scale == 0:
             self.clear()
-            for key, val in d.items():
-                self[key] = val
-            self.scale = d.scale
-            return self
+            self.scale = 1
 
         self.incorporate_scale()
-        d.incorporate_scale()
-        for key, val in d.items():
+        for key, val in list(d.items()):
             if key in self:
-                self[key] = self[key] + val
+                self[key] = self[key] + val*d.scale
             else:
-                self[key] = val
+                self[key] = val*d.scale
         return self
 
     def __sub__(self, d):
         """Return copy of self.__sub__(d) <==> self-d"""
         assert isinstance(d, Mapping)
 
-        if abs(self.scale) < 1e-15 and abs(d.scale) < 1e-15:
+        if self.scale == 0 and d.scale == 0:
             f = SparseMatrix({0: 0}, self.shape)
 
-        elif abs(self.scale) < 1e-15:
+        elif self.scale == 0:
             f = SparseMatrix(deepcopy(dict(d)), d.shape, -d.scale)
 
-        elif abs(d.scale) < 1e-15:
-            f = self.copy()
+        elif d.scale == 0:
+            f = SparseMatrix(deepcopy(dict(self)), self.shape, self.scale)
 
         else:
             f = SparseMatrix(deepcopy(dict(self)), self.shape, self.scale)
             f.incorporate_scale()
-            d.incorporate_scale()
             for key, val in d.items():
                 if key in f:
-                    f[key] = f[key] - val
+                    f[key] = f[key] - val*d.scale
                 else:
-                    f[key] = -val
+                    f[key] = -val*d.scale
 
         return f
 
@@ -352,23 +350,23 @@ class SparseMatrix(MutableMapping):
         assert isinstance(d, Mapping)
         assert d.shape == self.shape
 
-        if abs(d.scale) < 1e-16:
+        if type(self) is not SparseMatrix:
+            # The difference is no longer the special matrix with optimized methods
+            return self - d
+
+        if d.scale == 0:
             return self
 
-        elif abs(self.scale) < 1e-16:
+        if self.scale == 0:
             self.clear()
-            for key, val in d.items():
-                self[key] = val
-            self.scale = -d.scale
-            return self
+            self.scale = 1
 
         self.incorporate_scale()
-        d.incorporate_scale()
-        for key, val in d.items():
+        for key, val in list(d.items()):
             if key in self:
-                self[key] = self[key] - val
+                self[key] = self[key] - val*d.scale
             else:
-                self[key] = -val
+                self[key] = -val*d.scale
         return self
 
     def copy(self):
@@ -402,12 +400,12 @@ class SparseMatrix(MutableMapping):
 
     def scale_array(self, c, sc):
         assert isinstance(sc, Number)
-        if abs(sc-1) > 1e-8:
+        if sc != 1:
             c *= sc
 
     def incorporate_scale(self):
         """Modifies matrix such that self.scale = 1"""
-        if abs(self.scale-1) < 1e-8:
+        if self.scale == 1:
             return
         if hasattr(self, '_keyscale'):
             self._keyscale *= self.scale
-- 
2.43.0


From ad4c215e8921595ad411dd75b74d361edbf738ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:22 +0000
Subject: [PATCH 59/84] fix: redistribute backwards in scalar product of padded
 spaces

---
 shenfun/tensorproductspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index bb938e1..0d90248 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -537,7 +537,7 @@ class TensorProductSpace(PFFT):
             self.pencil[::-1], self)
         self.scalar_product = ScalarTransform(
             [o.scalar_product for o in self.xfftn[::-1]],
-            [o.forward for o in self.transfer[::-1]],
+            [o.backward for o in self.transfer[::-1]],
             self.pencil[::-1], self)
 
     def get_dealiased(self, padding_factor=1.5, dealias_direct=False):
-- 
2.43.0


From aa9278b7281f3dfe381be24ea22caac860db8c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 60/84] fix: evaluate over the processes that share the tensor
 product space

---
 shenfun/tensorproductspace.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 0d90248..4d6df96 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -772,10 +772,16 @@ class TensorProductSpace(PFFT):
                 out = out2
             previous_axes.append(axis)
         output_array[:] = out
-        output_array = comm.allreduce(output_array)
+        output_array = self._reduce(output_array)
         return output_array
 
 
+    def _reduce(self, output_array):
+        """Return sum of ``output_array`` over the processes sharing self"""
+        for c in self.subcomm:
+            output_array = c.allreduce(output_array)
+        return output_array
+
     def _eval_lm_cython(self, points, coefficients, output_array):
         """Evaluate Function at points, given expansion coefficients
 
@@ -812,7 +818,7 @@ class TensorProductSpace(PFFT):
             output_array = cython.evaluate.evaluate_lm_3D(list(self.bases), output_array, coefficients, x[0], x[1], x[2], w[0], w[1], w[2], r2c, last_conj_index, sl)
 
         output_array = np.atleast_1d(output_array)
-        output_array = comm.allreduce(output_array)
+        output_array = self._reduce(output_array)
         return output_array
 
     def _eval_cython(self, points, coefficients, output_array):
@@ -850,7 +856,7 @@ class TensorProductSpace(PFFT):
             output_array = cython.evaluate.evaluate_3D(output_array, coefficients, P, r2c, last_conj_index, sl)
 
         output_array = np.atleast_1d(output_array)
-        output_array = comm.allreduce(output_array)
+        output_array = self._reduce(output_array)
         return output_array
 
     def wavenumbers(self, scaled=False, eliminate_highest_freq=False):
-- 
2.43.0


From e55646044442ae659ed57e649c151503845c64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 61/84] fix: keep communicator, axes, dtype and coordinates in
 get_homogeneous and get_unplanned

---
 shenfun/tensorproductspace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 4d6df96..8a17e52 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -613,7 +613,9 @@ class TensorProductSpace(PFFT):
         """
         bases = tuple([base.get_unplanned(**kwargs) for base in self.bases])
         if tensorproductspace:
-            return TensorProductSpace(comm, bases)
+            return TensorProductSpace(self.subcomm, bases, axes=self.axes,
+                                      dtype=self.dtype(),
+                                      coordinates=self.coors.coordinates)
         return bases
 
     def get_homogeneous(self, **kwargs):
@@ -627,7 +629,9 @@ class TensorProductSpace(PFFT):
 
         """
         bases = tuple([base.get_homogeneous(**kwargs) for base in self.bases])
-        return TensorProductSpace(comm, bases)
+        return TensorProductSpace(self.subcomm, bases, axes=self.axes,
+                                  dtype=self.dtype(),
+                                  coordinates=self.coors.coordinates)
 
     def dtype(self, forward_output=False):
         if hasattr(self, 'forward'):
-- 
2.43.0


From 9a9b4046a6f1d983ef2a1cf8b13ff515055d2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 62/84] fix: apply constraints and special zero wavenumber
 solver only where all diagonal indices start at 0

---
 shenfun/la.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index e617a0c..a0151cf 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1302,6 +1302,11 @@ class SolverGeneric1ND:
                             sol = mat.mats[self.naxes]*sc
                     self.solvers1D[-1].append(Solver(sol))
 
+    def has_first_wavenumber(self):
+        """Return True if this process holds index 0 of all diagonal axes"""
+        z0 = self.mats[0].space.local_slice()
+        return all(z0[i].start == 0 for i in range(self.mats[0].dimensions) if i != self.naxes)
+
     def apply_constraints(self, b, constraints=()):
         #The SolverGeneric1ND solver can only constrain the first dofs of
         #the diagonal axes. For Fourier this is the zero dof with the
@@ -1309,16 +1314,12 @@ class SolverGeneric1ND:
         if constraints == ():
             return b
         ndim = self.mats[0].dimensions
-        space = self.mats[0].space
-        z0 = space.local_slice()
-        paxes = np.setxor1d(range(ndim), self.naxes)
+        if not self.has_first_wavenumber():
+            return b
         s = [0]*ndim
         s[self.naxes] = slice(None)
         s = tuple(s)
-        is_rank_zero = np.array([z0[i].start for i in paxes]).prod()
         sol = self.solvers1D[0] if ndim == 2 else self.solvers1D[0][0]
-        if is_rank_zero != 0:
-            return b
         sol.apply_constraints(b[s], constraints)
         return b
 
@@ -1391,7 +1392,7 @@ class SolverGeneric1ND:
         # All other wavenumbers we assume have the same solver
         sol0 = solvers1D[0] if u.ndim == 2 else solvers1D[0][0]
         sol1 = solvers1D[-1] if u.ndim == 2 else solvers1D[-1][-1]
-        is_rank_zero = comm.Get_rank() == 0
+        is_rank_zero = self.has_first_wavenumber()
 
         if is_rank_zero:
             s = [0]*u.ndim
@@ -1490,7 +1491,7 @@ class BlockMatrixSolver:
 
     @staticmethod
     def apply_constraint(A, b, offset, i, constraint):
-        if constraint is None or comm.Get_rank() > 0:
+        if constraint is None:
             return A, b
 
         if isinstance(i, int):
@@ -1539,6 +1540,11 @@ class BlockMatrixSolver:
             self._lu = {}
 
         daxes = space.get_diagonal_axes()
+        if space.dimensions > 1:
+            # Constraints apply to index 0 of the diagonal axes
+            z0 = space.flatten()[0].local_slice(True)
+            if any(z0[i].start > 0 for i in daxes):
+                constraints = ()
         if len(daxes) == space.dimensions:
             # Only Fourier spaces, all diagonal
             assert len(daxes) == space.dimensions
-- 
2.43.0


From 7d6e905cde774256e89adb98b6d21b2c011a494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 63/84] fix: boundary values, matrix vector products and block
 matrices for distributed axes

---
 shenfun/la.py                 |  5 ++--
 shenfun/matrixbase.py         | 12 ++++++---
 shenfun/tensorproductspace.py | 51 +++++++++++++++++++++++++++--------
 3 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index a0151cf..754de2d 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1246,6 +1246,7 @@ class SolverGeneric1ND:
         mats = get_simplified_tpmatrices(mats)
         assert len(mats[0].naxes) == 1
         self.naxes = mats[0].naxes[0]
+        assert mats[0].space.forward.output_pencil.subcomm[self.naxes].Get_size() == 1, 'The nonperiodic axis must be aligned'
         bc_mats = extract_bc_matrices([mats])
         self.mats = mats
         self.testspace = mats[0].space
@@ -1552,11 +1553,11 @@ class BlockMatrixSolver:
             gi = b.flatten()
             if isinstance(self._lu, dict):
                 for con in constraints:
-                    Ai, gi = self.apply_constraint(Ai, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
+                    Ai, gi = self.apply_constraint(Ai, gi, con[0]*b[0].size, 0, con)
                 self._lu = sp.linalg.splu(Ai.astype(gi.dtype), permc_spec=config['matrix']['block']['permc_spec'])
             else:
                 for con in constraints:
-                    _, gi = self.apply_constraint(None, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
+                    _, gi = self.apply_constraint(None, gi, con[0]*b[0].size, 0, con)
             u[:] = self._lu.solve(gi).reshape(u.shape)
 
         else:
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 424a43c..996038c 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1228,7 +1228,13 @@ class BlockMatrix:
                     bm[-1].append(None)
                 else:
                     m = mij[0]
-                    if isinstance(self.testbase, MixedFunctionSpace) or len(m.naxes) == len(m.mats) or len(m.naxes) == 0:
+                    if not isinstance(self.testbase, MixedFunctionSpace) and len(m.naxes) == 0:
+                        # Only diagonal matrices, use the local part
+                        shape = m.space.shape(True)
+                        d = sum(np.broadcast_to(mj.scale, shape) for mj in mij).flatten()
+                        d = sp_diags([d], [0], shape=(d.size, d.size), format=format)
+
+                    elif isinstance(self.testbase, MixedFunctionSpace) or len(m.naxes) == len(m.mats):
                         d = m.diags(format)
                         for mj in mij[1:]:
                             d = d + mj.diags(format)
@@ -1472,7 +1478,7 @@ class TPMatrix:
         c.fill(0)
         if len(tpmat.naxes) == 0:
             c[:] = tpmat.scale*v
-        elif len(tpmat.naxes) == 1:
+        elif len(tpmat.naxes) == 1 and c.shape[tpmat.naxes[0]] == tpmat.space.forward.output_pencil.shape[tpmat.naxes[0]]:
             axis = tpmat.naxes[0]
             rank = v.rank if hasattr(v, 'rank') else 0
             if rank == 0:
@@ -1481,7 +1487,7 @@ class TPMatrix:
                 c = tpmat.pmat.matvec(v[tpmat.global_index[1]], c, format=format, axis=axis)
             c[:] = c*tpmat.scale
         else:
-            # 2 or more non-periodic directions (may be non-aligned, hence transfers)
+            # One or more non-periodic directions (may be non-aligned, hence transfers)
             if getattr(v, 'rank', 0) > 0:
                 v = v[tpmat.global_index[1]]
             pencil = tpmat.space.forward.output_pencil
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 8a17e52..1838c2e 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -692,6 +692,9 @@ class TensorProductSpace(PFFT):
             output_array[:] = 0
         if len(self.get_nonperiodic_axes()) > 1:
             method = 1
+        for axis in self.get_nonperiodic_axes():
+            if method == 0 and self.forward.output_pencil.subcomm[axis].Get_size() > 1:
+                method = 1 # The low-memory version needs aligned nonperiodic axes
         assert self.dimensions < 4, 'eval not implemented (yet) for higher dimensions'
         if method == 0:
             return self._eval_lm_cython(points, coefficients, output_array)
@@ -1965,10 +1968,10 @@ class BoundaryValues:
             # inhomogeneous space, but before any other transforms
 
             b = Array(T)
-            s = T.local_slice(False)[self.axis]
             num_bcs = self.bc.num_bcs()
 
             for j, bci in enumerate(self.bc.orderedvals()):
+                row = self._local_row(-num_bcs+j, False)
                 if isinstance(bci, sp.Expr):
                     X = T.local_mesh(True)
                     for sym in bci.free_symbols:
@@ -1980,11 +1983,10 @@ class BoundaryValues:
                     Yi = []
                     for sym in sym0:
                         k = 'xyzrs'.index(str(sym))
-                        Yi.append(X[k][this_base.si[j]])
-                    f_bci = lbci(*Yi)
+                        Yi.append(X[k][this_base.si[row or 0]])
                     # Put the value in the position of the bc dofs
-                    if s.stop == int(this_base.N*this_base.padding_factor):
-                        b[this_base.si[-num_bcs+j]] = f_bci
+                    if row is not None:
+                        b[this_base.si[row]] = lbci(*Yi)
 
                 elif isinstance(bci, Function):
                     # if bci is some Function that needs to be evaluated at the boundary
@@ -2005,12 +2007,12 @@ class BoundaryValues:
                     mesh.insert(self.axis, np.ones(len(mesh[0]))*dm)
                     xj = np.vstack(mesh)
                     newb = bci.function_space().eval(xj, bci).reshape(gs)
-                    if s.stop == int(this_base.N*this_base.padding_factor):
-                        b[this_base.si[-num_bcs+j]] = newb[sl]
+                    if row is not None:
+                        b[this_base.si[row]] = newb[sl]
 
                 elif isinstance(bci, (Number, np.ndarray)):
-                    if s.stop == int(this_base.N*this_base.padding_factor):
-                        b[this_base.si[-num_bcs+j]] = bci
+                    if row is not None:
+                        b[this_base.si[row]] = bci
 
                 else:
                     raise NotImplementedError
@@ -2046,7 +2048,9 @@ class BoundaryValues:
                 b_hat = T.forward(b).copy()
 
                 for j in range(self.bc.num_bcs()):
-                    self.bcs_final[j] = b_hat[this_base.si[-num_bcs+j]].copy()
+                    row = self._local_row(-num_bcs+j, True)
+                    if row is not None:
+                        self.bcs_final[j] = b_hat[this_base.si[row]].copy()
 
             elif len(T.get_nonhomogeneous_axes()) == 2:
                 assert len(T.bases) == 2, 'Only implemented for 2D'
@@ -2084,6 +2088,29 @@ class BoundaryValues:
                     ua[:] = b[this_base.si[-num_bcs+i]]
                     self.bcs_final[i] = project(ua, other_base)
 
+    def _local_row(self, row, forward_output):
+        """Return local index of (negative) global index along axis of self
+
+        Parameters
+        ----------
+        row : int
+            Negative index into the global array
+        forward_output : bool
+            Whether the array is of spectral (True) or physical (False) space
+
+        Note
+        ----
+        Returns None if row is found on another processor.
+        """
+        T = self.tensorproductspace
+        if not hasattr(T, 'pencil'):
+            return row
+        p = T.forward.output_pencil if forward_output else T.forward.input_pencil
+        if p.subcomm[self.axis].Get_size() == 1:
+            return row
+        k = p.shape[self.axis] + row - p.substart[self.axis]
+        return k if 0 <= k < p.subshape[self.axis] else None
+
     def _add_to_orthogonal(self, u, uh):
         """Add contribution from boundary functions to ``u``
 
@@ -2139,7 +2166,9 @@ class BoundaryValues:
         M = self.bc.num_bcs()
         if final is True:
             for i in range(M):
-                u[self.base.si[-(M)+i]] = self.bcs_final[i]
+                row = self._local_row(-M+i, True)
+                if row is not None:
+                    u[self.base.si[row]] = self.bcs_final[i]
         else:
             for i in range(M):
                 u[self.base.si[-(M)+i]] = self.bcs[i]
-- 
2.43.0


From 05dc376697d357e9decddc2d6852058d9ff23e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 64/84] fix: Cython evaluators doubled the Nyquist mode and
 mixed wavenumbers for nonperiodic axis 1

---
 shenfun/optimization/cython/evaluate.pyx | 36 ++++++++++++------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/shenfun/optimization/cython/evaluate.pyx b/shenfun/optimization/cython/evaluate.pyx
index 6ebadce..699f545 100644
--- a/shenfun/optimization/cython/evaluate.pyx
+++ b/shenfun/optimization/cython/evaluate.pyx
@@ -82,7 +82,7 @@ def _evaluate_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
 
     return b
@@ -120,7 +120,7 @@ def _evaluate_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -156,7 +156,7 @@ def _evaluate_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
 
     return b
@@ -276,7 +276,7 @@ def _evaluate_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                     b[i] += p
                     if r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
 
     return b
@@ -341,7 +341,7 @@ def _evaluate_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -387,7 +387,7 @@ def _evaluate_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -431,7 +431,7 @@ def _evaluate_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -456,7 +456,7 @@ def _evaluate_3D_rrc1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -481,7 +481,7 @@ def _evaluate_3D_rcr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -506,7 +506,7 @@ def _evaluate_3D_crr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = k + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -600,7 +600,7 @@ def _evaluate_lm_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -659,7 +659,7 @@ def _evaluate_lm_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -718,7 +718,7 @@ def _evaluate_lm_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -816,7 +816,7 @@ def _evaluate_lm_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -883,7 +883,7 @@ def _evaluate_lm_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -938,7 +938,7 @@ def _evaluate_lm_3D_crc1(np.ndarray[real_t, ndim=1] b,
             for m in range(u.shape[2]):
                 for i in range(b.shape[0]):
                     #p = (u[k, l, m] * P0[i] * exp(1j*(w0[k]*x0[i] + w1[m]*x2[i]))).real
-                    y2 = w0[k]*x0[i] + w1[m]*x2[i]
+                    y2 = w0[k]*x0[i] + w2[m]*x2[i]
                     yc = cos(y2)
                     ys = sin(y2)
                     ur = u[k, l, m].real
@@ -949,7 +949,7 @@ def _evaluate_lm_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -1016,6 +1016,6 @@ def _evaluate_lm_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 1:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
-- 
2.43.0


From dd629cbcd1e01259cf2aa23945feea4a7a2bcdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 65/84] fix: Parseval energy for real Fourier transforms

---
 shenfun/fourier/__init__.py | 79 ++++++++-----------------------------
 1 file changed, 17 insertions(+), 62 deletions(-)

diff --git a/shenfun/fourier/__init__.py b/shenfun/fourier/__init__.py
index f5d9b0d..a8da73d 100644
--- a/shenfun/fourier/__init__.py
+++ b/shenfun/fourier/__init__.py
@@ -24,71 +24,26 @@ def energy_fourier(u, T):
     if not hasattr(T, 'comm'):
         # Just a 1D basis
         assert u.ndim == 1
-        if isinstance(T, R2C):
-            if u.shape[0] % 2 == 0:
-                result = (2*np.sum(abs(u[1:-1])**2) +
-                          np.sum(abs(u[0])**2) +
-                          np.sum(abs(u[-1])**2))
-            else:
-                result = (2*np.sum(abs(u[1:])**2) +
-                          np.sum(abs(u[0])**2))
+        return np.sum(_parseval_weights(T)*abs(u)**2)
 
-        else:
-            result = np.sum(abs(u)**2)
-        return result
-
-    comm = T.comm
     assert np.all([base.family() == 'fourier' for base in T.bases])
-    real = False
+    result = abs(u[...])**2
     for axis, base in enumerate(T.bases):
-        if isinstance(base, R2C):
-            real = True
-            break
-
-    if real:
-        s = [slice(None)]*u.ndim
-        uaxis = axis + u.ndim-len(T.bases)
-        if T.forward.output_pencil.subcomm[axis].Get_size() == 1:
-            # aligned in r2c direction
-            if base.N % 2 == 0:
-                s[uaxis] = slice(1, -1)
-                result = 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = 0
-                result += np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = -1
-                result += np.sum(abs(u[tuple(s)])**2)
-            else:
-                s[uaxis] = slice(1, None)
-                result = 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = 0
-                result += np.sum(abs(u[tuple(s)])**2)
+        weights = _parseval_weights(base)[T.local_slice(True)[axis]]
+        result = result*weights[(slice(None),)+(None,)*(len(T.bases)-1-axis)]
+    result = np.sum(result)
 
-        else:
-            # Data not aligned along r2c axis. Need to check about 0 and -1
-            if base.N % 2 == 0:
-                s[uaxis] = slice(1, -1)
-                result = 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = 0
-                if T.local_slice(True)[axis].start == 0:
-                    result += np.sum(abs(u[tuple(s)])**2)
-                else:
-                    result += 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = -1
-                if T.local_slice(True)[axis].stop == T.dims()[axis]:
-                    result += np.sum(abs(u[tuple(s)])**2)
-                else:
-                    result += 2*np.sum(abs(u[tuple(s)])**2)
-            else:
-                s[uaxis] = slice(1, None)
-                result = 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = 0
-                if T.local_slice(True)[axis].start == 0:
-                    result += np.sum(abs(u[tuple(s)])**2)
-                else:
-                    result += 2*np.sum(abs(u[tuple(s)])**2)
+    for c in T.forward.output_pencil.subcomm:
+        result = c.allreduce(result)
+    return result
 
-    else:
-        result = np.sum(abs(u[...])**2)
+def _parseval_weights(base):
+    """Return the number of wavenumbers represented by each Fourier coefficient
 
-    result = comm.allreduce(result)
-    return result
+    The real transforms store only half of the spectrum. Coefficients 0 and,
+    for even N, N/2 have no complex conjugate counterpart.
+    """
+    weights = np.ones(base.shape(True))
+    if isinstance(base, R2C):
+        weights[1:(base.N+1)//2] = 2
+    return weights
-- 
2.43.0


From b31ba4728a184628cb7f8585b852aa74334ec567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:07 +0000
Subject: [PATCH 66/84] fix: sign in third derivative of Laguerre basis
 functions

---
 shenfun/laguerre/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index 9a62e23..95c7f2a 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -149,7 +149,7 @@ class Orthogonal(SpectralBase):
             D[:-2, :] -= lag.lagder(np.eye(M), 2)*3/2
             D[:-1, :] += lag.lagder(np.eye(M), 1)*3/4
             W = np.dot(V, D)
-            W += V/8
+            W -= V/8
             V = W*np.exp(-x/2)[:, np.newaxis]
 
         elif k == 4:
-- 
2.43.0


From 8c49188a592b08756ac88b215dfcea29d6ff2008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 67/84] fix: Expr.eval includes the boundary functions

---
 shenfun/forms/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index c029006..7116154 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -780,7 +780,7 @@ class Expr:
                 sl = -1
                 for axis, k in enumerate(b0):
                     xx = np.atleast_1d(test_sp[axis].map_reference_domain(np.squeeze(x[axis])))
-                    P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k)
+                    P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k, argument=1)
                     if not test_sp[axis].domain_factor() == 1:
                         P *= float(test_sp[axis].domain_factor())**k
                     if len(x) > 1:
-- 
2.43.0


From e17fb0e5a7b5e417df8ca5c07058a279af2ea680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 68/84] fix: local_slice of padded spaces along the first axis

---
 shenfun/tensorproductspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 1838c2e..1226dc0 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -504,7 +504,8 @@ class TensorProductSpace(PFFT):
             dtype = self.xfftn[-1].forward.input_array.dtype
             shape[axes[-1]] = self.xfftn[-1].forward.input_array.shape[axes[-1]]
         pencilA = Pencil(pencil.subcomm, shape, axes[0])
-        self.pencil[0] = pencilA
+        # The spectral array is not padded, not even along the first axis
+        self.pencil[0] = Pencil(pencil.subcomm, list(self.global_shape(True)), axes[0])
         for axes in self.axes[1:]:
             pencilB = pencilA.pencil(axes[-1])
             transBA = pencilA.transfer(pencilB, dtype)
-- 
2.43.0


From bb64f7eb04a5c6426b5e6597cec2d228ccbd0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 69/84] fix: evaluate padded spaces and Fourier spaces at
 scalar points

---
 shenfun/forms/arguments.py      |  1 +
 shenfun/fourier/bases.py        |  4 ++--
 shenfun/gegenbauer/bases.py     |  2 +-
 shenfun/jacobi/bases.py         |  2 +-
 shenfun/spectralbase.py         | 15 ++++++++++++++-
 shenfun/tensorproductspace.py   |  4 ++--
 shenfun/ultraspherical/bases.py |  2 +-
 7 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 7116154..67801e3 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -781,6 +781,7 @@ class Expr:
                 for axis, k in enumerate(b0):
                     xx = np.atleast_1d(test_sp[axis].map_reference_domain(np.squeeze(x[axis])))
                     P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k, argument=1)
+                    P = test_sp[axis]._remove_padding(P)
                     if not test_sp[axis].domain_factor() == 1:
                         P *= float(test_sp[axis].domain_factor())**k
                     if len(x) > 1:
diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index 976b135..043a4c6 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -120,7 +120,7 @@ class FourierBase(SpectralBase):
         x = np.atleast_1d(x)
         return np.exp(1j*x[:, np.newaxis]*k[np.newaxis, :])
 
-    def evaluate_basis_derivative_all(self, x=None, k=0):
+    def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
         V = self.evaluate_basis_all(x=x)
         if k > 0:
             l = self.wavenumbers(bcast=False, scaled=False, eliminate_highest_freq=False)
@@ -381,7 +381,7 @@ class R2C(FourierBase):
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
         if kind == 'vandermonde':
-            assert abs(self.padding_factor-1) < 1e-8
+            assert x is not None or abs(self.padding_factor-1) < 1e-8
             P = self.evaluate_basis_all(x=x)
             if output_array.ndim == 1:
                 output_array[:] = np.dot(P, input_array).real
diff --git a/shenfun/gegenbauer/bases.py b/shenfun/gegenbauer/bases.py
index 2b8bab9..9690a89 100644
--- a/shenfun/gegenbauer/bases.py
+++ b/shenfun/gegenbauer/bases.py
@@ -246,7 +246,7 @@ class Orthogonal(JacobiBase):
             output_array = np.zeros(x.shape, dtype=self.forward.output_array.dtype)
         x = self.map_reference_domain(x)
         P = self.vandermonde(x)
-        output_array = np.dot(P, u, out=output_array)
+        output_array = np.dot(P[:, :len(u)], u, out=output_array)
         return output_array
 
     def get_orthogonal(self, **kwargs):
diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index 548b173..1a8f47f 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -284,7 +284,7 @@ class Orthogonal(JacobiBase):
             output_array = np.zeros(x.shape, dtype=self.forward.output_array.dtype)
         x = self.map_reference_domain(x)
         P = self.vandermonde(x)
-        output_array = np.dot(P, u, out=output_array)
+        output_array = np.dot(P[:, :len(u)], u, out=output_array)
         return output_array
 
     #def get_bc_space(self):
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 3c907cc..27ea328 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -449,6 +449,18 @@ class SpectralBase:
             V[:, i] = self.evaluate_basis_derivative(x, i, k, output_array=V[:, i])
         return V
 
+    def _remove_padding(self, P):
+        """Return Vandermonde matrix P with one column for each coefficient
+
+        Padded spaces return matrices matching the padded arrays, where the
+        boundary functions are found in the last columns. There is no padding
+        in the coefficients of a :class:`.Function`.
+        """
+        if P.shape[1] <= self.N:
+            return P
+        n = self.dim()
+        return np.hstack((P[:, :n], P[:, P.shape[1]-(self.N-n):]))
+
     def _evaluate_expansion_all(self, input_array, output_array,
                                 x=None, kind=None):
         r"""Evaluate expansion on 'x' or entire mesh
@@ -477,7 +489,7 @@ class SpectralBase:
         if kind == 'vandermonde':
             P = self.evaluate_basis_all(x=x, argument=1)
             if output_array.ndim == 1:
-                output_array = np.dot(P, input_array, out=output_array)
+                output_array = np.dot(P[:, :len(input_array)], input_array, out=output_array)
             else:
                 fc = np.moveaxis(input_array, self.axis, -2)
                 shape = [slice(None)]*input_array.ndim
@@ -511,6 +523,7 @@ class SpectralBase:
             output_array
 
         """
+        x = np.atleast_1d(x)
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
         x = self.map_reference_domain(x)
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 1226dc0..02c63c2 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -727,7 +727,7 @@ class TensorProductSpace(PFFT):
         for axis in flataxes:
             base = self.bases[axis]
             x = base.map_reference_domain(points[axis])
-            D = base.evaluate_basis_all(x=x, argument=1)
+            D = base._remove_padding(base.evaluate_basis_all(x=x, argument=1))
             P = D[..., self.local_slice()[axis]]
             if isinstance(base, R2C):
                 M = base.N//2+1
@@ -847,7 +847,7 @@ class TensorProductSpace(PFFT):
         for base in self:
             axis = base.axis
             x = base.map_reference_domain(points[axis])
-            D = base.evaluate_basis_all(x=x, argument=1)
+            D = base._remove_padding(base.evaluate_basis_all(x=x, argument=1))
             P.append(D[..., self.local_slice()[axis]])
             if isinstance(base, R2C):
                 r2c = axis
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 1b77dbe..727a8cc 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -221,7 +221,7 @@ class Orthogonal(JacobiBase):
             output_array = np.zeros(x.shape, dtype=self.forward.output_array.dtype)
         x = self.map_reference_domain(x)
         P = self.vandermonde(x)
-        output_array = np.dot(P, u, out=output_array)
+        output_array = np.dot(P[:, :len(u)], u, out=output_array)
         return output_array
 
     def get_bc_space(self):
-- 
2.43.0


From 566290e1a86df5d163cb4d9d77dcaad5f753c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 70/84] fix: backward with a new padding_factor reused an array
 of the wrong size

---
 shenfun/forms/arguments.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 67801e3..1acb04c 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1655,9 +1655,8 @@ class Function(ShenfunBaseArray, BasisFunction):
                 # Note that the output_array is not the same shape as
                 # space.backward.output_array for spaces of rank > 0.
                 # Also, it is probably not safe to return space.backward.output_array
-                if hasattr(self, '_backward_work_array'):
-                    output_array = self._backward_work_array
-                else:
+                output_array = getattr(self, '_backward_work_array', None)
+                if output_array is None or output_array.shape != space.shape(False):
                     output_array = Array(space)
                     self._backward_work_array = output_array
             output_array = space.backward(self, output_array, kind=kind, mesh=mesh)
-- 
2.43.0


From dd369f428be424a84f57728920649964a0aaf694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 71/84] fix: get_dealiased cache ignored dealias_direct

---
 shenfun/tensorproductspace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 02c63c2..863506d 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -560,9 +560,10 @@ class TensorProductSpace(PFFT):
         elif isinstance(padding_factor, (tuple, list, np.ndarray)):
             assert len(padding_factor) == len(self)
         
-        if padding_factor in self._padded_space:
-            return self._padded_space[padding_factor]
-        
+        key = (tuple(padding_factor), bool(dealias_direct))
+        if key in self._padded_space:
+            return self._padded_space[key]
+
         padded_bases = [base.get_dealiased(padding_factor=padding_factor[axis],
                                            dealias_direct=dealias_direct)
                         for axis, base in enumerate(self.bases)]
@@ -575,7 +576,7 @@ class TensorProductSpace(PFFT):
                                          dtype=self.forward.output_array.dtype,
                                          backward_from_pencil=self.forward.output_pencil,
                                          coordinates=self.coors.coordinates)
-        self._padded_space[padding_factor] = paddedspace
+        self._padded_space[key] = paddedspace
         return paddedspace
 
     def get_refined(self, N):
-- 
2.43.0


From d4bebf087b07cf8ea6fd418204be61daa52f0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 72/84] fix: Convolve used the spectral shape and dropped
 domains

---
 shenfun/tensorproductspace.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 863506d..781dc7e 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1838,15 +1838,17 @@ class Convolve:
 
     def __init__(self, padding_space):
         self.padding_space = padding_space
-        shape = padding_space.shape()
+        shape = padding_space.global_shape(False)
         bases = []
         for i, base in enumerate(padding_space.bases):
-            newbase = base.__class__(shape[i], padding_factor=1.0)
+            newbase = base.get_refined(shape[i], padding_factor=1.0)
             bases.append(newbase)
         axes = []
         for axis in padding_space.axes:
             axes.append(axis[0])
-        newspace = TensorProductSpace(padding_space.comm, bases, axes=axes)
+        newspace = TensorProductSpace(padding_space.comm, bases, axes=axes,
+                                      dtype=padding_space.forward.input_array.dtype,
+                                      coordinates=padding_space.coors.coordinates)
         self.newspace = newspace
 
     def __call__(self, a_hat, b_hat, ab_hat=None):
-- 
2.43.0


From 5327c380055a14122a04aad1c11e3b1d75e20f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 73/84] fix: count_trailing_zeros for complex Fourier spaces

---
 shenfun/fourier/bases.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index 043a4c6..88ae9f1 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -567,7 +567,9 @@ class C2C(FourierBase):
         assert u.ndim == 1
         a = abs(u[self.slice()])
         ua = (a < reltol*a.max()) | (a < abstol)
-        return np.argmin(ua[self.N//2:]) + np.argmin(ua[:self.N//2][::-1])
+        # All wavenumbers up to the largest in use (positive or negative) are required
+        k = abs(self.wavenumbers(bcast=False, scaled=False))
+        return max(0, self.N-2*int(max(k[~ua], default=0))-1)
 
     def _truncation_forward(self, padded_array, trunc_array):
         if not id(trunc_array) == id(padded_array):
-- 
2.43.0


From f4c6d59d520e3241356f71192397485948605a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 74/84] fix: dealias_direct of C2C spaces with N<6 was void

---
 shenfun/fourier/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index 88ae9f1..e4f6218 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -598,7 +598,7 @@ class C2C(FourierBase):
 
         elif self.dealias_direct:
             N = trunc_array.shape[self.axis]
-            su = self.sl[slice(N//3, -(N//3)+1)]
+            su = self.sl[slice(N//3, N-N//3+1)]
             padded_array[su] = 0
 
     def convolve(self, u, v, uv=None, fast=True):
-- 
2.43.0


From da9e3df31dc7a27b39a5a07fbe588490adde27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 75/84] fix: refine and assign truncate to, and pad from, all
 sizes

---
 shenfun/forms/arguments.py | 96 +++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 1acb04c..c97cf78 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1736,12 +1736,7 @@ class Function(ShenfunBaseArray, BasisFunction):
         from shenfun import VectorSpace
         if self.ndim == 1:
             assert u_hat.__class__ == self.__class__
-            if self.shape[0] < u_hat.shape[0]:
-                self.function_space()._padding_backward(self, u_hat)
-            elif self.shape[0] == u_hat.shape[0]:
-                u_hat[:] = self
-            elif self.shape[0] > u_hat.shape[0]:
-                self.function_space()._truncation_forward(self, u_hat)
+            self._resize(self, u_hat, self.function_space(), u_hat.function_space())
             return u_hat
 
         space = self.function_space()
@@ -1802,64 +1797,69 @@ class Function(ShenfunBaseArray, BasisFunction):
 
         if isinstance(space, VectorSpace):
             if output_array is None:
-                output_array = [None]*len(self)
+                output_array = Function(space.get_refined(N))
             for i, array in enumerate(self):
-                output_array[i] = array.refine(N, output_array=output_array[i])
-            if isinstance(output_array, list):
-                T = output_array[0].function_space()
-                VT = VectorSpace(T)
-                output_array = np.array(output_array)
-                output_array = Function(VT, buffer=output_array)
+                array.refine(N, output_array=output_array[i])
             return output_array
 
+        if output_array is None:
+            output_array = Function(space.get_refined(N))
+        newspace = output_array.function_space()
+
         axes = [bx for ax in space.axes for bx in ax]
-        base = space.bases[axes[0]]
         global_shape = list(self.global_shape) # Global shape in spectral space
-        factor = N[axes[0]]/self.function_space().bases[axes[0]].N
-        if isinstance(base, R2C):
-            global_shape[axes[0]] = int((2*global_shape[axes[0]]-2)*factor)//2+1
-        else:
-            global_shape[axes[0]] = int(global_shape[axes[0]]*factor)
-        c1 = DistArray(global_shape,
-                       subcomm=self.pencil.subcomm,
-                       dtype=self.dtype,
-                       alignment=self.alignment)
-        if self.global_shape[axes[0]] <= global_shape[axes[0]]:
-            base._padding_backward(self, c1)
-        else:
-            base._truncation_forward(self, c1)
-        for ax in axes[1:]:
-            c0 = c1.redistribute(ax)
-            factor = N[ax]/self.function_space().bases[ax].N
-
-            # Get a new padded array
-            base = space.bases[ax]
-            if isinstance(base, R2C):
-                global_shape[ax] = int(base.N*factor)//2+1
-            else:
-                global_shape[ax] = int(global_shape[ax]*factor)
+        c0 = self
+        for ax in axes:
+            if ax != axes[0]:
+                c0 = c1.redistribute(ax)
+            base, newbase = space.bases[ax], newspace.bases[ax]
+            # Get a new padded or truncated array
+            global_shape[ax] = newbase.shape(True)
             c1 = DistArray(global_shape,
                            subcomm=c0.pencil.subcomm,
                            dtype=c0.dtype,
                            alignment=ax)
-
-            # Copy from c0 to d0
-            if self.global_shape[ax] <= global_shape[ax]:
-                base._padding_backward(c0, c1)
-            else:
-                base._truncation_forward(c0, c1)
+            self._resize(c0, c1, base, newbase)
 
         # Reverse transfer to get the same distribution as u_hat
         for ax in reversed(axes[:-1]):
             c1 = c1.redistribute(ax)
 
-        if output_array is None:
-            refined_space = space.get_refined(N)
-            output_array = Function(refined_space, buffer=c1)
-        else:
-            output_array[:] = c1
+        output_array[:] = c1
         return output_array
 
+    @staticmethod
+    def _resize(c0, c1, base, newbase):
+        """Copy ``c0`` to ``c1`` with zero-padding or truncation along one axis
+
+        Parameters
+        ----------
+        c0, c1 : arrays
+            The expansion coefficients of ``base`` and ``newbase``
+        base, newbase : :class:`.SpectralBase`
+            Spaces of the same class, but with (possibly) different sizes
+        """
+        from shenfun.fourier.bases import R2C
+
+        if base.N == newbase.N:
+            c1[:] = c0
+        elif base.N > newbase.N:
+            newbase._truncation_forward(c0, c1)
+            n = newbase.N-newbase.dim()
+            if n > 0 and base.family() != 'fourier': # boundary dofs
+                c1[base.sl[slice(-n, None)]] = c0[base.sl[slice(-n, None)]]
+        elif isinstance(base, R2C):
+            c1.fill(0)
+            s = base.sl[slice(0, base.shape(True))]
+            c1[s] = c0[s]
+            if base.N % 2 == 0:  # Symmetric Fourier interpolator
+                sn = base.si[base.N//2]
+                if c0.ndim == 1:
+                    c1[sn] = c1[sn].real
+                c1[sn] *= 0.5
+        else:
+            base._padding_backward(c0, c1)
+
     def copy_to_flattened(self, f=None, j=(), dims=None, sl=None):
         """Copy dofs of self to a flattened array
 
-- 
2.43.0


From 5666372cc88b84ba05991b1544164b025dd902f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:41 +0000
Subject: [PATCH 76/84] fix: block matrices and matrix vector products of
 unsimplified and scalar tensor spaces

---
 shenfun/la.py         | 2 +-
 shenfun/matrixbase.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 754de2d..f7e6e66 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1543,7 +1543,7 @@ class BlockMatrixSolver:
         daxes = space.get_diagonal_axes()
         if space.dimensions > 1:
             # Constraints apply to index 0 of the diagonal axes
-            z0 = space.flatten()[0].local_slice(True)
+            z0 = (space.flatten()[0] if hasattr(space, 'flatten') else space).local_slice(True)
             if any(z0[i].start > 0 for i in daxes):
                 constraints = ()
         if len(daxes) == space.dimensions:
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 996038c..39ca321 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1231,7 +1231,7 @@ class BlockMatrix:
                     if not isinstance(self.testbase, MixedFunctionSpace) and len(m.naxes) == 0:
                         # Only diagonal matrices, use the local part
                         shape = m.space.shape(True)
-                        d = sum(np.broadcast_to(mj.scale, shape) for mj in mij).flatten()
+                        d = sum(np.broadcast_to(mj.get_simplified().scale, shape) for mj in mij).flatten()
                         d = sp_diags([d], [0], shape=(d.size, d.size), format=format)
 
                     elif isinstance(self.testbase, MixedFunctionSpace) or len(m.naxes) == len(m.mats):
@@ -1478,7 +1478,7 @@ class TPMatrix:
         c.fill(0)
         if len(tpmat.naxes) == 0:
             c[:] = tpmat.scale*v
-        elif len(tpmat.naxes) == 1 and c.shape[tpmat.naxes[0]] == tpmat.space.forward.output_pencil.shape[tpmat.naxes[0]]:
+        elif len(tpmat.naxes) == 1 and tpmat.space.forward.output_pencil.subcomm[tpmat.naxes[0]].Get_size() == 1:
             axis = tpmat.naxes[0]
             rank = v.rank if hasattr(v, 'rank') else 0
             if rank == 0:
-- 
2.43.0


From f1c519d807d81e148adf10772de946baa9eb558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:23 +0000
Subject: [PATCH 77/84] fix: Cython masks apply in place and cover the whole
 array

---
 shenfun/optimization/cython/applymask.pyx | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/shenfun/optimization/cython/applymask.pyx b/shenfun/optimization/cython/applymask.pyx
index 320701a..1dbde1c 100644
--- a/shenfun/optimization/cython/applymask.pyx
+++ b/shenfun/optimization/cython/applymask.pyx
@@ -17,37 +17,37 @@ def apply_mask(u_hat, mask):
         if u_hat.ndim == mask.ndim:
             mask = np.broadcast_to(mask, u_hat.shape).copy()
             if mask.ndim == 1:
-                u_hat = apply_mask_1D(u_hat, mask)
+                apply_mask_1D(u_hat, mask)
             elif mask.ndim == 2:
-                u_hat = apply_mask_2D(u_hat, mask)
+                apply_mask_2D(u_hat, mask)
             elif mask.ndim == 3:
-                u_hat = apply_mask_3D(u_hat, mask)
+                apply_mask_3D(u_hat, mask)
             elif mask.ndim == 4:
-                u_hat = apply_mask_4D(u_hat, mask)
+                apply_mask_4D(u_hat, mask)
             else:
                 u_hat *= mask
         elif u_hat.ndim == mask.ndim + 1:
             mask = np.broadcast_to(mask, u_hat.shape[1:]).copy()
             if mask.ndim == 1:
-                u_hat = apply_bmask_1D(u_hat, mask)
+                apply_bmask_1D(u_hat, mask)
             elif mask.ndim == 2:
-                u_hat = apply_bmask_2D(u_hat, mask)
+                apply_bmask_2D(u_hat, mask)
             elif mask.ndim == 3:
-                u_hat = apply_bmask_3D(u_hat, mask)
+                apply_bmask_3D(u_hat, mask)
             elif mask.ndim == 4:
-                u_hat = apply_bmask_4D(u_hat, mask)
+                apply_bmask_4D(u_hat, mask)
             else:
                 u_hat *= mask
         elif u_hat.ndim == mask.ndim + 2:
             mask = np.broadcast_to(mask, u_hat.shape[2:]).copy()
             if mask.ndim == 1:
-                u_hat = apply_b2mask_1D(u_hat, mask)
+                apply_b2mask_1D(u_hat, mask)
             elif mask.ndim == 2:
-                u_hat = apply_b2mask_2D(u_hat, mask)
+                apply_b2mask_2D(u_hat, mask)
             elif mask.ndim == 3:
-                u_hat = apply_b2mask_3D(u_hat, mask)
+                apply_b2mask_3D(u_hat, mask)
             elif mask.ndim == 4:
-                u_hat = apply_b2mask_4D(u_hat, mask)
+                apply_b2mask_4D(u_hat, mask)
             else:
                 u_hat *= mask
         else:
@@ -128,7 +128,7 @@ def apply_bmask_4D(T[:, :, :, :, ::1] u, int_t[:, :, :, ::1] mask):
 
 def apply_b2mask_1D(T[:, :, ::1] u, int_t[::1] mask):
     cdef int i, j, k
-    for k in range(u.shape[1]):
+    for k in range(mask.shape[0]):
         if mask[k] == 0:
             for i in range(u.shape[0]):
                 for j in range(u.shape[1]):
@@ -152,7 +152,7 @@ def apply_b2mask_3D(T[:, :, :, :, ::1] u, int_t[:, :, ::1] mask):
             for m in range(mask.shape[2]):
                 if mask[k, l, m] == 0:
                     for i in range(u.shape[0]):
-                        for j in range(u.shape[2]):
+                        for j in range(u.shape[1]):
                             u[i, j, k, l, m] = 0
     return u
 
-- 
2.43.0


From 23b83be00534d98bfc638c3715a6c64a8f3c7976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:23 +0000
Subject: [PATCH 78/84] fix: Cython transforms of noncontiguous arrays

---
 shenfun/optimization/cython/transforms.pyx | 84 ++++++++++++++++++++--
 1 file changed, 79 insertions(+), 5 deletions(-)

diff --git a/shenfun/optimization/cython/transforms.pyx b/shenfun/optimization/cython/transforms.pyx
index 15b2e13..e52f2cc 100644
--- a/shenfun/optimization/cython/transforms.pyx
+++ b/shenfun/optimization/cython/transforms.pyx
@@ -133,6 +133,9 @@ ctypedef struct R0:
     int M
     int Mx
 
+cdef bint _noncontiguous(np.ndarray a, np.ndarray b):
+    return not (np.PyArray_IS_C_CONTIGUOUS(a) and np.PyArray_IS_C_CONTIGUOUS(b))
+
 cpdef np.ndarray restricted_product(L, np.ndarray input_array, np.ndarray output_array, double[::1] x, int i0, int i1, int a0, int axis, np.ndarray[double, ndim=2] a):
     cdef:
         int n = input_array.ndim
@@ -148,6 +151,14 @@ cpdef np.ndarray restricted_product(L, np.ndarray input_array, np.ndarray output
         R0 r0 = R0(&ax[0, 0],
                    &x[i0], &Lnm[0], &Ln[0], &Lnp[0],
                    M, ax.shape[0], ax.shape[1])
+
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        restricted_product(L, np.ascontiguousarray(input_array), out, x, i0, i1, a0, axis, a)
+        output_array[...] = out
+        return output_array
+
     sl = [slice(None)]*n
     sl[axis] = slice(i0, i1)
     input = input_array[tuple(sl)]
@@ -182,6 +193,13 @@ cpdef scalar_product(np.ndarray input_array, np.ndarray output_array, double[::1
         tuple shapeout = np.shape(output_array)
         S0 s0 = S0(&x[0], &w[0], &a[0, 0], output_array.shape[axis], a.shape[0], a.shape[1])
 
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        scalar_product(np.ascontiguousarray(input_array), out, x, w, axis, a)
+        output_array[...] = out
+        return
+
     if dtype == 'd':
         IterAllButAxis[double](_scalar_product_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shapein, shapeout, &s0)
     elif dtype == 'D':
@@ -206,8 +224,13 @@ cpdef evaluate_expansion_all(np.ndarray input_array, np.ndarray output_array, do
         tuple shapeout = np.shape(output_array)
         E0 e0 = E0(&x[0], &a[0, 0], output_array.shape[axis], a.shape[0], a.shape[1])
 
-    if not input_array.flags['C_CONTIGUOUS']:
-        input_array = input_array.copy()
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        evaluate_expansion_all(np.ascontiguousarray(input_array), out, x, axis, a)
+        output_array[...] = out
+        return
+
     if dtype == 'd':
         IterAllButAxis[double](_evaluate_expansion_all_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shapein, shapeout, &e0)
     elif dtype == 'D':
@@ -528,10 +551,11 @@ ctypedef struct DL:
 cpdef _leg2cheb(np.ndarray[T, ndim=1] ui, np.ndarray[T, ndim=1] uo, double[::1] a, int trans):
     cdef:
         DL d = DL(&a[0], trans)
-        int st = ui.strides[0]
-        int sz = <int>ui.itemsize
+        np.ndarray[T, ndim=1] vi = np.ascontiguousarray(ui)
+        np.ndarray[T, ndim=1] vo = np.ascontiguousarray(uo)
         int N = ui.shape[0]
-    _leg2cheb_ptr[T](&ui[0], &uo[0], st//sz, N, &d)
+    _leg2cheb_ptr[T](&vi[0], &vo[0], 1, N, &d)
+    uo[:] = vo
 
 ctypedef struct DI:
     double* a
@@ -553,6 +577,13 @@ cpdef np.ndarray cheb2leg(np.ndarray input_array, np.ndarray output_array, int a
         DI d = DI(&a[0], &dn[0])
         tuple shape = np.shape(input_array)
 
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        cheb2leg(np.ascontiguousarray(input_array), out, axis)
+        output_array[...] = out
+        return output_array
+
     k[0] = 1
     dn[:] = _Lambda((k[::2]-2)/2)/k[::2]
     a[:] = 1/(2*_Lambda(k)*k*(k+0.5))
@@ -575,6 +606,13 @@ cpdef np.ndarray leg2cheb(np.ndarray input_array, np.ndarray output_array, int a
         DL d = DL(&a[0], transpose)
         tuple shape = np.shape(input_array)
 
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        leg2cheb(np.ascontiguousarray(input_array), out, axis, transpose)
+        output_array[...] = out
+        return output_array
+
     output_array.fill(0)
     if dtype == 'd':
         IterAllButAxis[double](_leg2cheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d)
@@ -694,6 +732,14 @@ cpdef void FMMcheb(np.ndarray input_array, np.ndarray output_array, int axis, in
         int N = input_array.shape[axis]
         dtype = input_array.dtype.char
         tuple shape = np.shape(input_array)
+
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        FMMcheb(np.ascontiguousarray(input_array), out, axis, Nn, A, Nk, T, Th, ThT, D, Mmin, s, diags, trans)
+        output_array[...] = out
+        return
+
     if dtype == 'd':
         IterAllButAxis[double](_FMMcheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &dc)
     elif dtype == 'D':
@@ -894,6 +940,13 @@ cpdef void FMMdirect1(np.ndarray input_array, np.ndarray output_array, int axis,
         dtype = input_array.dtype.char
         tuple shape = np.shape(input_array)
 
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        FMMdirect1(np.ascontiguousarray(input_array), out, axis, a, n0, trans)
+        output_array[...] = out
+        return
+
     if dtype == 'd':
         IterAllButAxis[double](_FMMdirect1_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d1)
     elif dtype == 'D':
@@ -948,6 +1001,13 @@ cpdef void FMMdirect2(np.ndarray input_array, np.ndarray output_array, int axis,
         dtype = input_array.dtype.char
         tuple shape= np.shape(input_array)
 
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        FMMdirect2(np.ascontiguousarray(input_array), out, axis, a, h, Nd, n0, trans)
+        output_array[...] = out
+        return
+
     if dtype == 'd':
         IterAllButAxis[double](_FMMdirect2_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d2)
     elif dtype == 'D':
@@ -1011,6 +1071,13 @@ cpdef void FMMdirect3(np.ndarray input_array, np.ndarray output_array, int axis,
         D3 d3 = D3(&dn[0], &a[0], h, Nd, n0)
         tuple shape = np.shape(input_array)
 
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        FMMdirect3(np.ascontiguousarray(input_array), out, axis, dn, a, h, Nd, n0)
+        output_array[...] = out
+        return
+
     if dtype == 'd':
         IterAllButAxis[double](_FMMdirect3_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d3)
     elif dtype == 'D':
@@ -1090,6 +1157,13 @@ cpdef void FMMdirect4(np.ndarray input_array, np.ndarray output_array, int axis,
         D4 d4 = D4(&dn[0], &a[0], n0)
         tuple shape = np.shape(input_array)
 
+    if _noncontiguous(input_array, output_array):
+        # The loops below work on the buffers of contiguous arrays
+        out = np.ascontiguousarray(output_array)
+        FMMdirect4(np.ascontiguousarray(input_array), out, axis, dn, a, n0)
+        output_array[...] = out
+        return
+
     if dtype == 'd':
         IterAllButAxis[double](_FMMdirect4_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d4)
     elif dtype == 'D':
-- 
2.43.0


From 4c1af2b964a9897c21a49fadac74b0220447f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:23 +0000
Subject: [PATCH 79/84] fix: Python Legendre Chebyshev conversions and odd
 lengths

---
 shenfun/legendre/dlt.py                   | 67 +++++++++++++++--------
 shenfun/optimization/cython/leg2chebm.pyx |  2 +-
 2 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/shenfun/legendre/dlt.py b/shenfun/legendre/dlt.py
index da2d909..3684938 100644
--- a/shenfun/legendre/dlt.py
+++ b/shenfun/legendre/dlt.py
@@ -396,7 +396,7 @@ def leg2cheb(cl, cc=None, axis=0, transpose=False):
         cl = np.moveaxis(cl, axis, 0)
         cc = np.moveaxis(cc, axis, 0)
     N = cl.shape[0]
-    k = np.arange(N)
+    k = np.arange(N, dtype=float)
     a = Lambda(k)
     sl = [None]*cc.ndim
     ck = np.full(N, np.pi/2); ck[0] = np.pi
@@ -459,10 +459,12 @@ def cheb2leg(cc, cl=None, axis=0):
     N = cc.shape[0]
     k = np.arange(N, dtype=float)
     k[0] = 1
-    vn = cc*k
     a = 1/(2*Lambda(k)*k*(k+0.5))
-    k[0] = 0
     a[0] = 2/np.sqrt(np.pi)
+    sl = (slice(None),)+(None,)*(cc.ndim-1)
+    k, a = k[sl], a[sl]
+    vn = cc*k
+    k[0] = 0
     cl[:] = np.sqrt(np.pi)*a*vn
     for n in range(2, N, 2):
         dn = Lambda(np.array([(n-2)/2]))/n
@@ -734,6 +736,10 @@ def restricted_product(L, input_array, output_array, xi, i0, i1, a0, axis, a):
         Recurrence coefficients for the orthogonal polynomials
 
     """
+    if axis > 0:
+        input_array = np.moveaxis(input_array, axis, 0)
+        restricted_product(L, input_array, np.moveaxis(output_array, axis, 0), xi, i0, i1, a0, 0, a)
+        return output_array
     N = xi.shape[0]
     Lnm = L.evaluate_basis(xi[i0:i1], i=a0)
     Ln = L.evaluate_basis(xi[i0:i1], i=a0+1)
@@ -1063,7 +1069,7 @@ class FMMLeg2Cheb(FMMLevel):
             input_array[self.si[0]] *= 0.5
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array.fill(0)
-            FMMdirect1(input_array, self._output_array, self.axis, self.a, self.N//2, transpose)
+            FMMdirect1(input_array, self._output_array, self.axis, self.a, (self.N+1)//2, transpose)
         else:
             self.apply(input_array, self._output_array, transpose)
         if transpose is False:
@@ -1135,7 +1141,7 @@ class FMMCheb2Leg(FMMLevel):
             shape = input.shape
             dtype = input.dtype
         FMMLevel.__init__(self, N, domains=domains,
-                          diagonals=diagonals, levels=levels, maxs=maxs, l2c=False, use_direct=use_direct)
+                          levels=levels, maxs=maxs, l2c=False, use_direct=use_direct)
         k = np.arange(self.Nn, dtype='d')
         k[0] = 1
         self.dn = Lambda((k[::2]-2)/2)/k[::2]
@@ -1172,7 +1178,7 @@ class FMMCheb2Leg(FMMLevel):
 
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array.fill(0)
-            FMMdirect4(w0, self._output_array, self.axis, self.dn[:self.N//2], self.a[:self.N], self.N//2)
+            FMMdirect4(w0, self._output_array, self.axis, self.dn[:(self.N+1)//2], self.a[:self.N], (self.N+1)//2)
         else:
             self.apply(w0, self._output_array)
 
@@ -1189,35 +1195,46 @@ class FMMCheb2Leg(FMMLevel):
 
 @runtimeoptimizer
 def _cheb2leg(u, v, dn, a):
-    pass
+    N = u.shape[0]
+    vn = u*np.maximum(1, np.arange(N))
+    v[:] = np.sqrt(np.pi)*a[:N]*vn
+    for n in range(2, N, 2):
+        v[:(N-n)] -= dn[n//2]*a[n//2:(N-n//2)]*vn[n:]
+    v *= np.arange(N)+0.5
 
 @runtimeoptimizer
 def _leg2cheb(u, v, a, trans):
-    pass
+    leg2cheb(u, v, transpose=bool(trans))
 
 @runtimeoptimizer
 def FMMdirect1(u, v, axis, a, n0, trans):
-    N = u.shape[0]
+    u = np.moveaxis(u, axis, -1)
+    v = np.moveaxis(v, axis, -1)
+    N = u.shape[-1]
     if trans is False:
         for n in range(0, n0):
-            v[:(N-2*n)] += a[n]*a[n:(N-n)]*u[2*n:]
+            v[..., :(N-2*n)] += a[n]*a[n:(N-n)]*u[..., 2*n:]
     else:
         for n in range(0, n0):
-            v[2*n:] += a[n]*a[n:(N-n)]*u[:(N-2*n)]
+            v[..., 2*n:] += a[n]*a[n:(N-n)]*u[..., :(N-2*n)]
 
 @runtimeoptimizer
 def FMMdirect2(u, v, axis, a, h, Nb, n0, trans):
-    N = v.shape[0]
+    u = np.moveaxis(u, axis, -1)
+    v = np.moveaxis(v, axis, -1)
+    N = v.shape[-1]
     for k in range(Nb):
         i0 = k*h
         j0 = n0+i0
         for n in range(0, h, 2):
             a0 = i0+(n0+n)//2
             Nm = min(N-(j0+n), h-n)
+            if Nm <= 0:
+                break
             if trans is True:
-                v[j0+n:(j0+Nm)] += a[(n+n0)//2]*a[a0:a0+Nm]*u[i0:i0+Nm]
+                v[..., j0+n:(j0+n+Nm)] += a[(n+n0)//2]*a[a0:a0+Nm]*u[..., i0:i0+Nm]
             else:
-                v[i0:(i0+Nm)] += a[(n+n0)//2]*a[a0:a0+Nm]*u[j0+n:j0+n+Nm]
+                v[..., i0:(i0+Nm)] += a[(n+n0)//2]*a[a0:a0+Nm]*u[..., j0+n:j0+n+Nm]
 
 #from shenfun import optimization
 #FMMdirect2 = optimization.numba.transforms.FMMdirect2
@@ -1225,21 +1242,27 @@ def FMMdirect2(u, v, axis, a, h, Nb, n0, trans):
 
 @runtimeoptimizer
 def FMMdirect3(u, v, axis, dn, a, h, Nb, n0):
-    N = v.shape[0]
+    u = np.moveaxis(u, axis, -1)
+    v = np.moveaxis(v, axis, -1)
+    N = v.shape[-1]
     for k in range(Nb):
         i0 = k*h
         j0 = n0+i0
         for n in range(0, h, 2):
             a0 = i0+(n0+n)//2
             Nm = min(N-(j0+n), h-n)
-            v[i0:(i0+Nm)] -= dn[(n+n0)//2]*a[a0:a0+Nm]*u[j0+n:j0+n+Nm]
+            if Nm <= 0:
+                break
+            v[..., i0:(i0+Nm)] -= dn[(n+n0)//2]*a[a0:a0+Nm]*u[..., j0+n:j0+n+Nm]
 
 @runtimeoptimizer
 def FMMdirect4(u, v, axis, dn, a, n0):
-    N = u.shape[0]
+    u = np.moveaxis(u, axis, -1)
+    v = np.moveaxis(v, axis, -1)
+    N = u.shape[-1]
     v[:] += np.sqrt(np.pi)*a*u
     for n in range(1, n0):
-        v[:(N-2*n)] -= dn[n]*a[n:(N-n)]*u[2*n:]
+        v[..., :(N-2*n)] -= dn[n]*a[n:(N-n)]*u[..., 2*n:]
 
 @runtimeoptimizer
 def FMMcheb(input_array, output_array, axis, Nn, fk, Nk, T, Th, ThT, D, Mmin, s, diags, transpose):
@@ -1254,8 +1277,8 @@ def FMMcheb(input_array, output_array, axis, Nn, fk, Nk, T, Th, ThT, D, Mmin, s,
     wk = [None]*L
     ck = [None]*L
     for level in range(L):
-        wk[level] = np.zeros((get_number_of_blocks(level, D), D[level], Mmax))
-        ck[level] = np.zeros((get_number_of_blocks(level, D), D[level], Mmax))
+        wk[level] = np.zeros((get_number_of_blocks(level, D), D[level], Mmax), dtype=input_array.dtype)
+        ck[level] = np.zeros((get_number_of_blocks(level, D), D[level], Mmax), dtype=input_array.dtype)
     for sigma in (0, 1):
         cia[:] = 0
         coa[:] = 0
@@ -1306,7 +1329,7 @@ def FMMcheb(input_array, output_array, axis, Nn, fk, Nk, T, Th, ThT, D, Mmin, s,
                     for block in range(get_number_of_blocks(level, D)):
                         i0, j0 = get_ij(level, block, s, D, diags)
                         for p in range(D[level]):
-                            coa[i0+p*s:i0+(p+1)*s] = np.dot(T[sigma], ck[level][block, p])
+                            coa[i0+p*s:i0+(p+1)*s] = np.dot(T[sigma], ck[level][block, p, :M0])
 
         else:
             for level in range(L-1, -1, -1):
@@ -1346,7 +1369,7 @@ def FMMcheb(input_array, output_array, axis, Nn, fk, Nk, T, Th, ThT, D, Mmin, s,
                     for block in range(get_number_of_blocks(level, D)):
                         j0, i0 = get_ij(level, block, s, D, diags)
                         for p in range(D[level]):
-                            coa[i0+(p+1)*s:i0+(p+2)*s] = np.dot(T[sigma], ck[level][block, p])
+                            coa[i0+(p+1)*s:i0+(p+2)*s] = np.dot(T[sigma], ck[level][block, p, :M0])
 
         output_array[sigma::2] = coa[:N//2+(N%2)*(1-sigma)]
 
diff --git a/shenfun/optimization/cython/leg2chebm.pyx b/shenfun/optimization/cython/leg2chebm.pyx
index 7fc09f2..c5af204 100644
--- a/shenfun/optimization/cython/leg2chebm.pyx
+++ b/shenfun/optimization/cython/leg2chebm.pyx
@@ -233,7 +233,7 @@ cdef class Cheb2Leg(FMMLevel):
         w0[self.sn1] *= np.arange(1, self.N)[self.s0]
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array[...] = 0
-            FMMdirect4(w0, self._output_array, self.axis, self._dn[:self.N//2], self._a[:self.N], self.N//2)
+            FMMdirect4(w0, self._output_array, self.axis, self._dn[:(self.N+1)//2], self._a[:self.N], (self.N+1)//2)
         else:
             self.apply(w0, self._output_array)
         self._output_array *= (np.arange(self.N)+0.5)[self.s0]
-- 
2.43.0


From e28a74661895c26259268bfc52c3ac4250b961fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:23 +0000
Subject: [PATCH 80/84] fix: Numba masks of reduced rank and mismatching
 _leg2cheb

---
 shenfun/optimization/numba/__init__.py   | 37 +-----------------------
 shenfun/optimization/numba/transforms.py |  2 +-
 2 files changed, 2 insertions(+), 37 deletions(-)

diff --git a/shenfun/optimization/numba/__init__.py b/shenfun/optimization/numba/__init__.py
index 55d7abc..985feeb 100644
--- a/shenfun/optimization/numba/__init__.py
+++ b/shenfun/optimization/numba/__init__.py
@@ -122,7 +122,7 @@ def apply_mask(u_hat, mask):
             else:
                 u_hat *= mask
         else:
-            u_hat = apply_bxmask(u_hat, mask)
+            u_hat *= mask
     return u_hat
 
 @nb.jit(nopython=True, fastmath=True, cache=True)
@@ -196,38 +196,3 @@ def apply_bmask_4D(u, mask):
                         for i in range(u.shape[0]):
                             u[i, j, k, l, m] = 0
     return u
-
-
-@nb.jit(nopython=False, fastmath=True, cache=True)
-def apply_bxmask(u_hat, mask):
-    if mask is not None:
-        N = mask.shape
-        if len(N) == 1:
-            mask = np.broadcast_to(mask, u_hat.shape[-1])
-            for i in range(u_hat.shape[-1]):
-                if mask[i] == 0:
-                    u_hat[..., i] = 0
-        elif len(N) == 2:
-            mask = np.broadcast_to(mask, u_hat.shape[-2:])
-            for i in range(u_hat.shape[-2]):
-                for j in range(u_hat.shape[-1]):
-                    if mask[i, j] == 0:
-                        u_hat[..., i, j] = 0
-        elif len(N) == 3:
-            mask = np.broadcast_to(mask, u_hat.shape[-3:])
-            for i in range(u_hat.shape[-3]):
-                for j in range(u_hat.shape[-2]):
-                    for k in range(u_hat.shape[-1]):
-                        if mask[i, j, k] == 0:
-                            u_hat[..., i, j, k] = 0
-        elif len(N) == 4:
-            mask = np.broadcast_to(mask, u_hat.shape[-4:])
-            for i in range(u_hat.shape[-4]):
-                for j in range(u_hat.shape[-3]):
-                    for k in range(u_hat.shape[-2]):
-                        for l in range(u_hat.shape[-1]):
-                            if mask[i, j, k, l] == 0:
-                                u_hat[..., i, j, k, l] = 0
-        else:
-            u_hat *= mask
-    return u_hat
diff --git a/shenfun/optimization/numba/transforms.py b/shenfun/optimization/numba/transforms.py
index 9318788..2390c16 100644
--- a/shenfun/optimization/numba/transforms.py
+++ b/shenfun/optimization/numba/transforms.py
@@ -7,7 +7,7 @@ from scipy.special import gammaln
 warnings.simplefilter('ignore', category=nb.core.errors.NumbaPerformanceWarning)
 
 __all__ = ['scalar_product', 'evaluate_expansion_all', 'cheb2leg', 'leg2cheb',
-           'restricted_product', '_leg2cheb', 'FMMdirect1', 'FMMdirect2',
+           'restricted_product', 'FMMdirect1', 'FMMdirect2',
            'FMMdirect3', 'FMMdirect4']
 
 def NDim(func):
-- 
2.43.0


From 5cb4a9b801103d1059ec05fb2e86688f82956dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:12 +0000
Subject: [PATCH 81/84] fix: first checkpoint of a run keeps an earlier
 checkpoint until it is complete

---
 shenfun/io/__init__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/shenfun/io/__init__.py b/shenfun/io/__init__.py
index 3956dbb..aa55309 100644
--- a/shenfun/io/__init__.py
+++ b/shenfun/io/__init__.py
@@ -1,5 +1,6 @@
 import sys
 import os
+import shutil
 import numpy as np
 from mpi4py import MPI
 from mpi4py_fft.io import NCFile, HDF5File
@@ -73,17 +74,15 @@ class Checkpoint:
             self.f.close()
 
     def update(self, t, tstep):
-        if self.f is None:
-            self.open(mode='w')
-            self.f.attrs.create('tstep', 0)
-            self.f.attrs.create('t', 0.0)
-            self.close()
-
         kill = self.check_if_kill()
         if tstep % self.checkevery == 0 or kill:
-            if comm.Get_rank() == 0: # for safety
-                os.system(f'cp {self.filename}.chk.h5 {self.filename}.old.chk.h5')
-            self.open()
+            filename = self.filename+'.chk.h5'
+            if comm.Get_rank() == 0 and os.path.exists(filename): # for safety
+                shutil.copyfile(filename, self.filename+'.old.chk.h5')
+            comm.Barrier()
+            # A first checkpoint starts a new file, but only after any
+            # earlier checkpoint has been copied
+            self.open(mode='w' if self.f is None else 'r+')
             for key, val in self.data.items():
                 self.write(int(key), val)
             self.f.attrs['tstep'] = tstep
-- 
2.43.0


From 48ca6f111d0bef717af265fe969952b2516b3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:12 +0000
Subject: [PATCH 82/84] fix: integrators with complex, scalar and
 one-dimensional linear operators, BackwardEuler in 1D and with masks

---
 shenfun/utilities/integrators.py | 130 ++++++++++++++-----------------
 1 file changed, 57 insertions(+), 73 deletions(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 4a40408..ab92367 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -52,6 +52,15 @@ __all__ = ('IRK3', 'BackwardEuler', 'RK4', 'ETDRK4', 'ETD',
 
 #pylint: disable=unused-variable
 
+def contour_mean(f, x, z):
+    """Return the mean of f over the points x+z and x+conj(z)
+
+    The result is real for real x, where the two values are conjugates
+    """
+    if np.iscomplexobj(x):
+        return 0.5*(f(x+z)+f(x+np.conj(z)))
+    return f(x+z).real
+
 class IntegratorBase:
     """Abstract base class for integrators
 
@@ -94,6 +103,36 @@ class IntegratorBase:
     def NonlinearRHS(self, *args, **kwargs):
         return 0
 
+    def linear_operator(self):
+        """Return the diagonal of the linear operator, including the inverse
+        mass matrix
+
+        Returns
+        -------
+        number or array
+        """
+        u = TrialFunction(self.T)
+        v = TestFunction(self.T)
+        L = self.LinearRHS(u, **self.params)
+        if isinstance(L, Expr):
+            L = inner(v, L)
+            if isinstance(L, list) and isinstance(L[0], SpectralMatrix):
+                L = sum(L[1:], L[0])
+            elif not isinstance(L, SparseMatrix):
+                L = get_simplified_tpmatrices(L if isinstance(L, list) else [L])[0]
+        if isinstance(L, list):
+            assert self.T.tensor_rank == 1
+            assert L[0].isidentity()
+            L = L[0].scale
+            # Use only L[0] and let numpy broadcasting take care of the rest
+        elif isinstance(L, TPMatrix):
+            assert L.isidentity()
+            L = L.scale
+        elif isinstance(L, SparseMatrix):
+            L.simplify_diagonal_matrices()
+            L = L.scale
+        return L
+
     def setup(self, dt):
         """Set up solver"""
         pass
@@ -266,8 +305,8 @@ class BackwardEuler(IntegratorBase):
         M = inner(u, v)
 
         if self.T.dimensions == 1:
-            self.solver = la.Solve(mats)
-            self.rhs_mats = M
+            self.solver = la.Solver(mats)
+            self.rhs_mats = ScipyMatrix(M)
             return
 
         if self.T.tensor_rank == 0:
@@ -284,7 +323,7 @@ class BackwardEuler(IntegratorBase):
     def compute_rhs(self, u, u_hat, dU, dU1):
         dt = self.params['dt']
         dU = self.NonlinearRHS(u, u_hat, dU, **self.params)
-        if self.mask:
+        if self.mask is not None:
             dU.mask_nyquist(self.mask)
         w1 = dU*2*dt - dU1*dt
         dU1[:] = dU
@@ -301,7 +340,7 @@ class BackwardEuler(IntegratorBase):
             dU = self.compute_rhs(u, u_hat, self.dU, self.dU1)
             dU += self.rhs_mats.matvec(u_hat, self.w0)
             u_hat = self.solver(dU, u=u_hat)
-            if self.mask:
+            if self.mask is not None:
                 u_hat.mask_nyquist(self.mask)
             t += dt
             tstep += 1
@@ -341,32 +380,14 @@ class ETD(IntegratorBase):
     def setup(self, dt):
         """Set up ETD ODE solver"""
         self.params['dt'] = dt
-        u = TrialFunction(self.T)
-        v = TestFunction(self.T)
-        L = self.LinearRHS(u, **self.params)
-        if isinstance(L, Expr):
-            L = inner(v, L)
-            L = get_simplified_tpmatrices(L)[0]
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
-
+        L = self.linear_operator()
         L = np.atleast_1d(L)
         hL = L*dt
         self.ehL = np.exp(hL)
         M = 50
-        psi = self.psi = np.zeros(hL.shape, dtype=float)
+        psi = self.psi = np.zeros(hL.shape, dtype=complex if np.iscomplexobj(hL) else float)
         for k in range(1, M+1):
-            ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
-            psi += ((np.exp(ll)-1.)/ll).real
+            psi += contour_mean(lambda ll: (np.exp(ll)-1.)/ll, hL, np.exp(np.pi*1j*(k-0.5)/M))
         psi /= M
 
     def solve(self, u, u_hat, dt, trange):
@@ -434,40 +455,19 @@ class ETDRK4(IntegratorBase):
     def setup(self, dt):
         """Set up ETDRK4 ODE solver"""
         self.params['dt'] = dt
-        u = TrialFunction(self.T)
-        v = TestFunction(self.T)
-        L = self.LinearRHS(u, **self.params)
-        if isinstance(L, Expr):
-            L = inner(v, L)
-            if isinstance(L, list):
-                if isinstance(L[0], TPMatrix):
-                    L = get_simplified_tpmatrices(L)[0]
-                elif isinstance(L[0], SpectralMatrix):
-                    L = sum(L[1:], L[0])
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
+        L = self.linear_operator()
         L = np.atleast_1d(L)
         hL = L*dt
         self.ehL = np.exp(hL)
         self.ehL_h = np.exp(hL/2.)
         M = 50
-        psi = self.psi = np.zeros((4,) + hL.shape, dtype=float)
+        psi = self.psi = np.zeros((4,) + hL.shape, dtype=complex if np.iscomplexobj(hL) else float)
         for k in range(1, M+1):
-            ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[0] += ((np.exp(ll)-1.)/ll).real
-            psi[1] += ((np.exp(ll)-ll-1.)/ll**2).real
-            psi[2] += ((np.exp(ll)-0.5*ll**2-ll-1.)/ll**3).real
-            ll2 = hL/2.+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[3] += ((np.exp(ll2)-1.)/(ll2)).real
+            z = np.exp(np.pi*1j*(k-0.5)/M)
+            psi[0] += contour_mean(lambda ll: (np.exp(ll)-1.)/ll, hL, z)
+            psi[1] += contour_mean(lambda ll: (np.exp(ll)-ll-1.)/ll**2, hL, z)
+            psi[2] += contour_mean(lambda ll: (np.exp(ll)-0.5*ll**2-ll-1.)/ll**3, hL, z)
+            psi[3] += contour_mean(lambda ll: (np.exp(ll)-1.)/ll, hL/2., z)
 
         psi /= M
         a = [psi[0]-3*psi[1]+4*psi[2]]
@@ -566,23 +566,7 @@ class RK4(IntegratorBase):
             self.setup(dt)
         t, end_time = trange
         tstep = 0
-        ut = TrialFunction(self.T)
-        vt = TestFunction(self.T)
-        L = self.LinearRHS(ut, **self.params)
-        if isinstance(L, Expr):
-            L = inner(vt, L)
-            L = get_simplified_tpmatrices(L)[0]
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
+        L = self.linear_operator()
 
         while t < end_time-1e-8:
             t += dt
@@ -590,7 +574,7 @@ class RK4(IntegratorBase):
             self.U_hat0[:] = self.U_hat1[:] = u_hat
             for rk in range(4):
                 dU = self.NonlinearRHS(u, u_hat, self.dU, **self.params)
-                if isinstance(L, np.ndarray):
+                if np.any(L):
                     dU += L*u_hat
                 if rk < 3:
                     u_hat[:] = self.U_hat0 + self.b[rk]*dt*dU
@@ -640,9 +624,9 @@ class IMEXRK3:
         if solver is None:
             if v.dimensions == 1:
                 self._solver = la.Solver
-            elif len(T.get_nondiagonal_axes().ndim) == 1:
+            elif len(T.get_nondiagonal_axes()) == 1:
                 self._solver = la.SolverGeneric1ND
-            elif len(T.get_nondiagonal_axes().ndim) == 2:
+            elif len(T.get_nondiagonal_axes()) == 2:
                self._solver = la.SolverGeneric2ND
             else:
                 raise NotImplementedError
-- 
2.43.0


From 1677b23c3053926ad1df061c6722846ef4f92eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:05 +0000
Subject: [PATCH 83/84] fix: out-of-bounds accesses of compiled kernels for the
 smallest sizes, wrong quadrature points and too small arrays

---
 shenfun/la.py                           | 2 ++
 shenfun/legendre/fastgl/fastgl_wrap.pyx | 2 ++
 shenfun/optimization/cython/Matvec.pyx  | 3 ++-
 shenfun/optimization/cython/la.pyx      | 2 ++
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index f7e6e66..fa56e6a 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -251,6 +251,8 @@ class SparseMatrixSolver:
         """
         if u is None:
             u = b
+        if min(b.shape[axis], u.shape[axis]) < self.mat.shape[0]:
+            raise ValueError('Arrays are too small for a matrix of shape %s' % str(self.mat.shape))
         b = self.apply_bcs(b, u, axis=axis)
         b = self.apply_constraints(b, constraints, axis=axis)
         lu = self.perform_lu() # LU must be performed after constraints, because constraints modify the matrix
diff --git a/shenfun/legendre/fastgl/fastgl_wrap.pyx b/shenfun/legendre/fastgl/fastgl_wrap.pyx
index a174843..e5b4b71 100644
--- a/shenfun/legendre/fastgl/fastgl_wrap.pyx
+++ b/shenfun/legendre/fastgl/fastgl_wrap.pyx
@@ -16,6 +16,8 @@ def getGLPair(int N, int k):
     k : int
         The k'th point in the N-point quadrature rule
     """
+    if not 1 <= k <= N:
+        raise ValueError('Point k=%d is not one of the N=%d quadrature points' % (k, N))
     f = fastgl_wrap.GLPair(N, k)
     return tuple((f.x(), f.weight))
 
diff --git a/shenfun/optimization/cython/Matvec.pyx b/shenfun/optimization/cython/Matvec.pyx
index 2c7c9a9..1a59b27 100644
--- a/shenfun/optimization/cython/Matvec.pyx
+++ b/shenfun/optimization/cython/Matvec.pyx
@@ -217,7 +217,8 @@ cdef void ADD_matvec_ptr(T* const v,
 
     k = M-1
     b[k*st] = dd[k]*v[k*st]
-    b[(k-1)*st] = dd[k-1]*v[(k-1)*st]
+    if M > 1:
+        b[(k-1)*st] = dd[k-1]*v[(k-1)*st]
     for k in range(M-3, -1, -1):
         j = k+2
         p = -4*(k+1)*M_PI
diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index 1e45f32..34d73c2 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -707,6 +707,8 @@ cdef void Poisson_Solve_ADD_1D_ptr(double* d,
 
 def LU_Helmholtz(A, B, A_s, B_s, neumann, d0, d1, d2, L, axis):
     n = d0.ndim
+    if A.shape[0] < 6:
+        raise ValueError('Helmholtz solver requires at least 6 unknowns')
     if n == 1:
         LU_Helmholtz_1D(A, B, A_s.item(), B_s.item(), neumann, d0, d1, d2, L)
     elif n == 2:
-- 
2.43.0


From 89a8ec63d28a03450bc34fbb637af78fd32517c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:17 +0000
Subject: [PATCH 84/84] fix: solvers removed the boundary matrices from the
 list of matrices of the caller

---
 shenfun/chebyshev/la.py | 2 ++
 shenfun/la.py           | 4 ++++
 shenfun/matrixbase.py   | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index c3c327a..cd69f04 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -230,6 +230,8 @@ class Helmholtz:
     def __init__(self, *args):
         if len(args) == 1:
             args = args[0]
+
+        args = list(args)
         self.bc_mats = []
         if isinstance(args[-1], TPMatrix):
             args = get_simplified_tpmatrices(args)
diff --git a/shenfun/la.py b/shenfun/la.py
index fa56e6a..3d87627 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -35,6 +35,7 @@ def Solver(mats):
     bc_mats = []
     mat = mats
     if isinstance(mats, list):
+        mats = list(mats)
         bc_mats = extract_bc_matrices([mats])
         mat = sum(mats[1:], mats[0])
     if np.iscomplexobj(mat.scale) or np.any([np.iscomplexobj(d) for d in mat.values()]):
@@ -60,6 +61,7 @@ class SparseMatrixSolver:
         assert isinstance(mats, (SparseMatrix, list))
         self.bc_mats = []
         if isinstance(mats, list):
+            mats = list(mats)
             bc_mats = extract_bc_matrices([mats])
             mats = sum(mats[1:], mats[0])
             self.bc_mats = bc_mats
@@ -1106,6 +1108,7 @@ class Solver2D:
     """
 
     def __init__(self, tpmats):
+        tpmats = list(tpmats)
         bc_mats = extract_bc_matrices([tpmats])
         self.tpmats = tpmats
         self.bc_mats = bc_mats
@@ -1486,6 +1489,7 @@ class BlockMatrixSolver:
         self._lu = None
         if isinstance(mats, BlockMatrix):
             mats = mats.get_mats()
+        mats = list(mats)
         bc_mats = extract_bc_matrices([mats])
         assert len(mats) > 0
         self.mat = BlockMatrix(mats)
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 39ca321..60656cc 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -859,6 +859,7 @@ class ScipyMatrix(csr_matrix):
         assert isinstance(mats, (SparseMatrix, list))
         self.bc_mats = []
         if isinstance(mats, list):
+            mats = list(mats)
             bc_mats = extract_bc_matrices([mats])
             mats = sum(mats[1:], mats[0])
             self.bc_mats = bc_mats
@@ -920,6 +921,7 @@ def BlockMatrices(tpmats):
     """
     if isinstance(tpmats, BlockMatrix):
         tpmats = tpmats.get_mats()
+    tpmats = list(tpmats)
     bc_mats = extract_bc_matrices([tpmats])
     assert len(bc_mats) > 0, 'No boundary matrices - use BlockMatrix'
     return BlockMatrix(tpmats), BlockMatrix(bc_mats)
-- 
2.43.0

