"""Tensor product spaces described by JSON-able dictionaries, and an
independent reference: dense tensor contraction of one-dimensional bases."""
import os
import sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'checks'))
import ref
import spaces
from spaces import BCS, QUADS
from p01 import mk, minN, mesh_points, interp_weights, HEAVY

LIGHT = {'chebyshev': ['Orthogonal', 'ShenDirichlet', 'ShenNeumann', 'ShenBiharmonic', 'LowerDirichlet', 'UpperDirichlet', 'DirichletNeumann', 'Heinrichs'],
         'legendre': ['Orthogonal', 'ShenDirichlet', 'ShenNeumann', 'ShenBiharmonic', 'LowerDirichlet', 'NeumannDirichlet', 'ShenBiPolar', 'BeamFixedFree'],
         'chebyshevu': ['Orthogonal', 'CompactDirichlet', 'CompactNeumann'], 'jacobi': ['Orthogonal', 'CompactDirichlet'],
         'ultraspherical': ['Orthogonal', 'CompactDirichlet', 'CompactNeumann'], 'laguerre': ['Orthogonal', 'CompactDirichlet'],
         'hermite': ['Orthogonal'], 'fourier': ['R2C', 'C2C']}

# name -> (number of coordinates, position vector, kinds and domains per axis)
# kinds: P bounded polynomial, F periodic over (0, 2 pi)
COORDS = {
    'polar': ('r,theta', ['r*cos(theta)', 'r*sin(theta)'], [('P', [1, 2]), ('F', None)]),
    'polar0': ('r,theta', ['r*cos(theta)', 'r*sin(theta)'], [('P', [0, 1]), ('F', None)]),
    'polart': ('theta,r', ['r*cos(theta)', 'r*sin(theta)'], [('F', None), ('P', [0.5, 1.5])]),
    'polarpp': ('r,theta', ['r*cos(theta)', 'r*sin(theta)'], [('P', [1, 2]), ('P', [0, 1.5])]),
    'sphere': ('theta,phi', ['2*sin(theta)*cos(phi)', '2*sin(theta)*sin(phi)', '2*cos(theta)'], [('P', [0.3, 2.8]), ('F', None)]),
    'torus': ('s,t', ['(3+cos(s))*cos(t)', '(3+cos(s))*sin(t)', 'sin(s)'], [('F', None), ('F', None)]),
    'skew': ('x,y', ['x', 'y+x/2'], [('P', [-1, 1]), ('F', None)]),
    'skewff': ('x,y', ['x+y/3', 'y'], [('F', None), ('F', None)]),
    'skewpp': ('x,y', ['x', 'y+x/2'], [('P', [-1, 1]), ('P', [0, 2])]),
    'stretch': ('x,y', ['2*x', '3*y'], [('P', [0, 1]), ('F', None)]),
    'parabolic': ('x,y', ['x*y', '(x**2-y**2)/2'], [('P', [1, 2]), ('P', [0.5, 1])]),
    'quad': ('x,y', ['x*(1+y/4)', 'y'], [('P', [-1, 1]), ('P', [-1, 1])]),
    'curve': ('t', ['t', 't**2'], [('P', [0, 1])]),
    'circle': ('t', ['2*cos(t)', '2*sin(t)'], [('F', None)]),
    'helix': ('t', ['cos(t)', 'sin(t)', 't/2'], [('P', [0, 3])]),
    'line': ('t', ['3*t'], [('P', [-1, 1])]),
    'cylinder': ('r,theta,z', ['r*cos(theta)', 'r*sin(theta)', 'z'], [('P', [1, 2]), ('F', None), ('F', None)]),
    'cylinderp': ('r,theta,z', ['r*cos(theta)', 'r*sin(theta)', 'z'], [('P', [0, 1]), ('F', None), ('P', [-1, 1])]),
    'spherical': ('r,theta,phi', ['r*sin(theta)*cos(phi)', 'r*sin(theta)*sin(phi)', 'r*cos(theta)'],
                  [('P', [1, 2]), ('P', [0.4, 2.6]), ('F', None)]),
    'skew3': ('x,y,z', ['x+y/4', 'y', 'z+x/5'], [('F', None), ('P', [-1, 1]), ('F', None)]),
}
ASSUME = {'polar': 'r', 'polar0': 'r', 'polart': 'r', 'polarpp': 'r', 'sphere': 'sin(theta)', 'parabolic': 'x,y', 'curve': 't', 'cylinder': 'r', 'cylinderp': 'r',
          'spherical': 'r,sin(theta)', 'quad': '1+y/4'}


def rbase(rng, kind, last, light=True, N=None, fams=None, cls=None, inhom=.5, real=None, domain='rand', maxN=14):
    """one 1D description. kind: F, P (bounded polynomial), O (orthogonal), B (with conditions), E (any)"""
    if kind == 'F':
        c = ('R2C' if real else 'C2C')
        N = N or rng.randint(4, maxN)
        dom = rng.choice([None, None, [0, 1], [-1, 2.5]]) if domain == 'rand' else domain
        return mk(rng, 'fourier', c, N, '', dom, False)
    fam = rng.choice(fams or ['chebyshev', 'legendre', 'chebyshev', 'legendre', 'chebyshevu', 'jacobi', 'ultraspherical'])
    pool = LIGHT[fam]
    if kind == 'O':
        pool = ['Orthogonal']
    elif kind == 'B':
        pool = [c for c in pool if BCS[fam][c]]
    c = cls or rng.choice(pool)
    q = rng.choice([a for a in QUADS[fam] if (fam, a) != ('chebyshev', 'GU')])
    N = N or rng.randint(max(minN(fam, c), 5), max(minN(fam, c)+3, maxN))
    if fam in ('laguerre', 'hermite'):
        N = min(N, 14)
        dom = None
    else:
        dom = spaces.rdomain(rng) if domain == 'rand' else domain
    d = mk(rng, fam, c, N, q, dom, rng.random() < inhom)
    return d


def rspace(rng, kinds, coords=None, **kw):
    """kinds: string over F,P,O,B, one character per axis"""
    nd = len(kinds)
    nF = [i for i, k in enumerate(kinds) if k == 'F']
    real = kw.pop('dtype', None)
    dtype = real or rng.choice(['d', 'd', 'D'])
    bs = []
    r2c = None
    if dtype == 'd' and nF:
        r2c = rng.choice(nF) if rng.random() < .3 else nF[-1]
    for i, k in enumerate(kinds):
        dom = 'rand'
        if coords:
            dom = COORDS[coords][2][i][1]
        b = rbase(rng, k, i == nd-1, real=(i == r2c), domain=dom if coords else kw.get('domain', 'rand'),
                  **{a: v for a, v in kw.items() if a in ('fams', 'inhom', 'maxN', 'N')})
        bs.append(b)
    # at most one axis with inhomogeneous conditions unless asked for
    if not kw.get('two', False):
        seen = False
        for b in bs:
            if any(b['bcv']):
                if seen:
                    b['bcv'] = [0]*len(b['bcv'])
                seen = True
    for b in bs:
        if b['fam'] != 'fourier':
            b['dtype'] = dtype if not nF else 'd'
    d = {'bases': bs, 'dtype': dtype, 'coords': coords, 'axes': None}
    ax = [i for i in range(nd)]
    if nd > 1:
        # the real transform must be done first, i.e. come last in axes
        if r2c is not None:
            P = [i for i in ax if kinds[i] != 'F']
            Fs = [i for i in nF if i != r2c]
            # polynomial transforms are real on either side; any order with the r2c last amongst Fourier
            o = Fs+[r2c]
            rest = P[:]
            rng.shuffle(rest)
            out = o[:]
            for p in rest:
                out.insert(rng.randint(0, len(out)), p)
            d['axes'] = out
        else:
            rng.shuffle(ax)
            d['axes'] = ax
    return d


def build(d, comm=None, **kw):
    import shenfun as sf
    bs = [spaces.build(b) for b in d['bases']]
    return tensor(d, bs, comm, **kw)


def coords(d):
    import sympy as sp
    if not d.get('coords'):
        return None
    names, rv, _ = COORDS[d['coords']]
    names = names.split(',')
    # the package names the coordinates x, y, z
    psi = tuple(sp.Symbol(q, real=True, positive=True) if n == 'r' or d['coords'] in ('parabolic', 'curve') else sp.Symbol(q, real=True)
                for n, q in zip(names, 'xyz'))
    loc = dict(zip(names, psi))
    rv = tuple(sp.sympify(r, locals=loc) for r in rv)
    ass = ASSUME.get(d['coords'])
    if ass:
        a = True
        for t in ass.split(','):
            a = a & sp.Q.positive(sp.sympify(t, locals=loc))
        return (psi, rv, a)
    return (psi, rv)


def tensor(d, bs, comm=None, **kw):
    import shenfun as sf
    if comm is None:
        comm = sf.comm
    c = coords(d)
    if c:
        kw['coordinates'] = c
    if d.get('slab'):
        kw['slab'] = True
    return sf.TensorProductSpace(comm, bs, axes=tuple(d['axes']) if d.get('axes') else None, dtype=d['dtype'], **kw)


class RefND:
    def __init__(self, d, T):
        self.d = d
        self.T = T
        bases = T.bases if hasattr(T, 'bases') else [T]
        self.refs = [spaces.Ref(b, s) for b, s in zip(d['bases'], bases)]
        self.nd = len(self.refs)
        self.r2c = [i for i, b in enumerate(d['bases']) if b['cls'] == 'R2C']

    def vander(self, i, x, k=0, test=False):
        r = self.refs[i]
        V = r.test(x, k) if test else r.trial(x, k)
        if r.fam == 'fourier' and self.d['bases'][i]['cls'] == 'R2C' and not test:
            w = np.where(r.ks() == 0, 1., 2.)
            if r.N % 2 == 0:
                w[-1] = 1.
            V = V*w
        return V.astype(complex if np.iscomplexobj(V) else float)

    def grid(self, u, xs, ks=None):
        """values of the expansion u on the tensor grid of the 1D arrays xs"""
        ks = ks or [0]*self.nd
        u = np.array(u)
        for i in range(self.nd):
            V = self.vander(i, xs[i], ks[i])
            u = np.moveaxis(np.tensordot(V, u, axes=(1, i)), 0, i)
        return u.real if self.r2c else u

    def points(self, u, P, ks=None):
        """values at scattered points P[dim, n]"""
        ks = ks or [0]*self.nd
        n = P.shape[1]
        out = np.zeros(n, dtype=complex)
        Vs = [self.vander(i, P[i], ks[i]) for i in range(self.nd)]
        for q in range(n):
            a = np.array(u)
            for i in range(self.nd):
                a = np.tensordot(Vs[i][q], a, axes=(0, 0))
            out[q] = a
        return out.real if (self.r2c or not np.iscomplexobj(u)) and np.all([not np.iscomplexobj(V) for V in Vs]) or self.r2c else out

    def mags(self, u):
        """crude scale of the values"""
        return float(np.max(np.abs(u), initial=0))

    def quad(self, sizes=None):
        """the documented quadrature rule of every axis, from independent
        points and weights; in the true domain"""
        xs, ws = [], []
        for i, r in enumerate(self.refs):
            d = self.d['bases'][i]
            M = (sizes[i] if sizes else d['N'])
            if d['fam'] == 'fourier':
                X = 2*ref.PI*np.arange(M)/M
                W = np.full(M, 1./M)
            elif d['fam'] in ('laguerre', 'hermite'):
                X, W = ref.gauss(d['fam'], M)
            else:
                X = mesh_points(d, M)
                W = interp_weights(d, r, X)/float(r.df)
            xs.append(np.asarray(r.x(X)).astype(float))
            ws.append(np.asarray(W).astype(float))
        return xs, ws

    def unweighted(self, xs=None, M=40):
        """points and weights of plain integration over the domain"""
        X, W = [], []
        for i, r in enumerate(self.refs):
            d = self.d['bases'][i]
            if d['fam'] == 'fourier':
                X.append(np.asarray(r.x(2*ref.PI*np.arange(M)/M)).astype(float))
                a, b = r.domain()
                W.append(np.full(M, float(b-a)/M))
            else:
                x, w = ref.leggauss(M)
                X.append(np.asarray(r.x(x)).astype(float))
                W.append((w/r.df).astype(float))
        return X, W

    def sg(self, xs):
        """square root of the determinant of the metric on a tensor grid"""
        shape = [len(x) for x in xs]
        c = coords(self.d)
        if not c:
            return np.ones(shape)
        return metric(c, np.meshgrid(*xs, indexing='ij'))[1]

    def adjoint(self, f, xs, ws, ks=None, test=True):
        """sum_grid f conj(v_i) w"""
        ks = ks or [0]*self.nd
        f = np.array(f)
        for i in range(self.nd):
            V = self.vander(i, xs[i], ks[i], test=True)
            f = np.moveaxis(np.tensordot(np.conj(V).T*ws[i], f, axes=(1, i)), 0, i)
        return f


def jac(c):
    import sympy as sp
    psi, rv = c[0], c[1]
    return sp.Matrix([[sp.diff(r, p) for p in psi] for r in rv])


def metric(c, X):
    """numerical metric tensor g_ij and sqrt(det g) on a mesh"""
    import sympy as sp
    J = jac(c)
    psi = c[0]
    Jn = [[np.broadcast_to(np.asarray(sp.lambdify(psi, J[i, j], 'numpy')(*X), dtype=float), X[0].shape) for j in range(J.shape[1])] for i in range(J.shape[0])]
    n = len(psi)
    g = np.zeros((n, n)+X[0].shape)
    for a in range(n):
        for b in range(n):
            g[a, b] = sum(Jn[i][a]*Jn[i][b] for i in range(J.shape[0]))
    det = np.linalg.det(np.moveaxis(np.moveaxis(g, 0, -1), 0, -1))
    return g, np.sqrt(det), Jn


def rand_coeffs(T, r, rs, decay=True):
    """random coefficients with boundary dofs set; returns Function"""
    import shenfun as sf
    u = sf.Function(T)
    a = rs.standard_normal(u.shape)
    if np.iscomplexobj(np.array(u)):
        a = a+1j*rs.standard_normal(u.shape)
    if decay:
        for i, rr in enumerate(r.refs):
            n = u.shape[i]
            if rr.fam == 'fourier':
                k = np.abs(rr.ks())
            else:
                k = np.arange(n)
                S = rr.S
                w = np.ones(n)/(1.+k)
                if S is not None:
                    nr = np.sqrt(np.sum(S**2, axis=1))
                    w[:len(nr)] /= nr
                a = a*w.reshape([-1 if j == i else 1 for j in range(r.nd)])
                continue
            a = a/(1.+k).reshape([-1 if j == i else 1 for j in range(r.nd)])
    u[:] = a
    # zero what no expansion uses
    for i, rr in enumerate(r.refs):
        if rr.nbc:
            s = [slice(None)]*r.nd
            s[i] = slice(rr.N-rr.nbc, None)
            u[tuple(s)] = 0
    hermitian(u, r)
    if hasattr(u, 'set_boundary_dofs'):
        u.set_boundary_dofs()
    return u


def hermitian(u, r):
    """make coefficients those of a real field for r2c transforms (k=0 and
    Nyquist planes of the real axis) and drop Nyquist modes"""
    for i, rr in enumerate(r.refs):
        if rr.fam == 'fourier' and rr.N % 2 == 0:
            s = [slice(None)]*r.nd
            s[i] = rr.N//2
            u[tuple(s)] = 0
    if not r.r2c:
        return
    i = r.r2c[0]
    s = [slice(None)]*r.nd
    s[i] = 0
    p = np.array(u[tuple(s)])
    q = np.conj(p)
    oth = [j for j in range(r.nd) if j != i]
    for a, j in enumerate(oth):
        if r.refs[j].fam == 'fourier':
            q = np.roll(np.flip(q, a), 1, a)
    u[tuple(s)] = (p+q)/2
