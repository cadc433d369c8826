"""Runs under mpirun: every operation is executed on a one-process communicator
(the reference) and on the distributed space, and the local part is compared
with the slice of the reference.   argv: cases.json progress.jsonl"""
import os
import sys
import json
import time
import traceback
import faulthandler
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
import vh                   # noqa: E402
vh.use_repo()
import numpy as np          # noqa: E402
from mpi4py import MPI      # noqa: E402
import sympy as sp          # noqa: E402
import shenfun as sf        # noqa: E402
import nd                   # noqa: E402
import spaces               # noqa: E402

WORLD = MPI.COMM_WORLD
HANG = float(os.environ.get('P10_HANG', 40))
rank = WORLD.Get_rank()


class Skip(Exception):
    pass



def hermitian(T, G):
    """coefficients of real data satisfy u[-k] = conj(u[k]) on the self-conjugate planes of the real transform"""
    bases = (T.flatten()[0] if hasattr(T, 'spaces') else T).bases
    off = G.ndim-len(bases)
    for ax, b in enumerate(bases):
        if b.short_name() != 'R2C':
            continue
        planes = [0]+([b.N//2] if b.N % 2 == 0 else [])
        for p in planes:
            s = [slice(None)]*G.ndim
            s[off+ax] = p
            x = G[tuple(s)]
            y = x.conj()
            for a2, b2 in enumerate(bases):
                if a2 != ax and b2.family() == 'fourier':
                    i = off+a2-(a2 > ax)
                    y = np.take(y, (-np.arange(y.shape[i])) % y.shape[i], axis=i)
            G[tuple(s)] = (x+y)/2
    return G


class Env:
    """one execution (serial or distributed) of the operations of a case"""

    def __init__(self, case, comm, tag, tmp):
        self.case = case
        self.d = case['d']
        self.comm = comm
        self.tag = tag
        self.tmp = tmp
        self.cache = {}
        self.T = nd.build(self.d, comm=comm)
        self.ndim = self.T.dimensions

    def rs(self, k):
        return np.random.default_rng(self.case['s']+k)

    def V(self):
        if 'V' not in self.cache:
            self.cache['V'] = sf.VectorSpace(self.T)
        return self.cache['V']

    def Td(self):
        if 'Td' not in self.cache:
            self.cache['Td'] = self.T.get_dealiased(tuple(self.case['pf']))
        return self.cache['Td']

    def spec(self, T, k, real=True):
        """coefficients of random physical data restricted to the space, the same for any decomposition"""
        u = sf.Function(T)
        shp = T.global_shape(True)
        r = self.rs(k)
        G = r.normal(size=shp)
        if np.iscomplexobj(np.asarray(u)):
            G = G+1j*r.normal(size=shp)
        # boundary dofs are not free
        M = np.zeros(shp)
        if hasattr(T, 'spaces'):
            for i, t in enumerate(T.flatten()):
                M[(i,)+tuple(b.slice() for b in t.bases)] = 1
        else:
            M[tuple(b.slice() for b in T.bases)] = 1
        u[:] = hermitian(T, G*M)[T.local_slice(True)]
        if hasattr(u, 'set_boundary_dofs'):
            u.set_boundary_dofs()
        return u

    def phys(self, T, k):
        a = sf.Array(T)
        shp = T.global_shape(False)
        r = self.rs(k)
        G = r.normal(size=shp)
        if np.iscomplexobj(np.asarray(a)):
            G = G+1j*r.normal(size=shp)
        a[:] = G[T.local_slice(False)]
        return a


def S(T, u):
    return (np.array(u), T.local_slice(True), tuple(T.global_shape(True)))


def P(T, a):
    return (np.array(a), T.local_slice(False), tuple(T.global_shape(False)))


def G(x):
    return (np.atleast_1d(np.array(x)), None, None)


def along(T, i, x, spectral):
    x = np.asarray(x)
    if x.ndim == 1:
        sh = [1]*T.dimensions
        sh[i] = -1
        x = x.reshape(sh)
    n = T.shape(spectral)[i]
    if spectral and x.shape[i] < n and (T.bases[i].dim() > 1 or x.shape[i] == 0):
        # wavenumbers of a space with fewer functions than array entries
        x = np.pad(x, [(0, n-x.shape[i] if j == i else 0) for j in range(x.ndim)])
    return np.broadcast_to(x, T.shape(spectral))


def op_layout(E):
    T = E.T
    out = {}
    X = T.local_mesh(True)
    for i, x in enumerate(X):
        out['mesh%d' % i] = P(T, np.broadcast_to(x, T.shape(False)))
    X = T.local_mesh()
    for i, x in enumerate(X):
        out['meshs%d' % i] = P(T, along(T, i, x, False))
    for sc in (False, True):
        # (broadcast=True is not defined for spaces with fewer functions than array entries)
        K = T.local_wavenumbers(broadcast=all(b.dim() == b.shape(True) for b in T.bases), scaled=sc)
        for i, x in enumerate(K):
            out['k%d%s' % (i, sc)] = S(T, along(T, i, x, True))
    for el in (False, True):
        K = T.local_wavenumbers(eliminate_highest_freq=el)
        for i, x in enumerate(K):
            out['ks%d%s' % (i, el)] = S(T, along(T, i, x, True))
    for kind in ('uniform',):
        X = T.local_mesh(True, kind=kind)
        for i, x in enumerate(X):
            out['meshu%d' % i] = P(T, np.broadcast_to(x, T.shape(False)))
    C = T.local_cartesian_mesh()
    for i, x in enumerate(C):
        out['cart%d' % i] = P(T, np.broadcast_to(x, T.shape(False)))
    out['global_shape'] = G(T.global_shape(True)+T.global_shape(False))
    out['dim'] = G([T.dim()]+list(T.dims()))
    return out


def op_mask(E):
    T = E.T
    u = E.spec(T, 3)
    m = T.get_mask_nyquist()
    out = {}
    if m is not None:
        out['mask'] = S(T, np.broadcast_to(m, T.shape(True)))
    u = T.mask_nyquist(u, m)
    out['masked'] = S(T, u)
    return out


def op_backward(E):
    T = E.T
    u = E.spec(T, 1)
    a = T.backward(u, sf.Array(T))
    f = E.phys(T, 2)
    w = T.forward(f.copy(), sf.Function(T))
    z = T.scalar_product(f.copy(), sf.Function(T))
    out = {'backward': P(T, a), 'forward': S(T, w), 'scalar_product': S(T, z)}
    b = sf.Array(T)
    b = w.backward(b)
    out['back2'] = P(T, b)
    return out


def op_kinds(E):
    T = E.T
    out = {}
    for kind in ('vandermonde', 'recursive', 'fast'):
        u = E.spec(T, 1)
        a = T.backward(u, sf.Array(T), kind=kind)
        w = T.forward(E.phys(T, 2), sf.Function(T), kind=kind)
        z = T.scalar_product(E.phys(T, 4), sf.Function(T), kind=kind)
        out['backward'+kind] = P(T, a)
        out['forward'+kind] = S(T, w)
        out['sp'+kind] = S(T, z)
    return out


def op_meshes(E):
    T = E.T
    u = E.spec(T, 1)
    a = T.backward(u, mesh='uniform')
    return {'uniform': P(T, np.array(a)) if a.shape == T.shape(False) else G(0)}


def op_padded(E):
    T = E.T
    Td = E.Td()
    u = E.spec(T, 1)
    a = Td.backward(u, sf.Array(Td))
    f = E.phys(Td, 5)
    w = Td.forward(f.copy(), sf.Function(Td))
    z = Td.scalar_product(f.copy(), sf.Function(Td))
    out = {'backward': P(Td, a), 'forward': S(Td, w), 'scalar_product': S(Td, z), 'dshape': G(Td.global_shape(True)+Td.global_shape(False))}
    b = u.backward(padding_factor=tuple(E.case['pf']))
    out['func.backward'] = P(Td, b)
    c = sf.Function(T)
    c = Td.forward(a*a, c)
    out['square'] = S(Td, c)
    return out


def op_vector(E):
    V = E.V()
    u = E.spec(V, 1)
    a = V.backward(u, sf.Array(V))
    f = E.phys(V, 2)
    w = V.forward(f.copy(), sf.Function(V))
    z = V.scalar_product(f.copy(), sf.Function(V))
    return {'backward': P(V, a), 'forward': S(V, w), 'scalar_product': S(V, z)}


def op_vpadded(E):
    V = E.V()
    Vd = V.get_dealiased(tuple(E.case['pf']))
    u = E.spec(V, 1)
    a = Vd.backward(u, sf.Array(Vd))
    w = Vd.forward(E.phys(Vd, 2), sf.Function(Vd))
    out = {'backward': P(Vd, a), 'forward': S(Vd, w)}
    b = u.backward(padding_factor=tuple(E.case['pf']))
    out['func.backward'] = P(Vd, b)
    return out


def op_inner(E):
    T = E.T
    f = E.phys(T, 2)
    v = sf.TestFunction(T)
    X = sp.symbols('x,y,z,r,s', real=True)
    w = sf.inner(v, f)
    out = {'inner(v,f)': S(T, w)}
    w = sf.inner(sf.Dx(v, 0, 1), f)
    out['inner(Dv,f)'] = S(T, w)
    out['inner(1,f)'] = G(sf.inner(1, f))
    e = sum(X[i]*(i+1) for i in range(T.dimensions))+2
    fe = sf.Array(T, buffer=E.expr())
    out['buffer'] = P(T, fe)
    out['inner(v,expr)'] = S(T, sf.inner(v, fe))
    out['dx'] = G(sf.dx(f))
    out['dxw'] = G(sf.dx(f, weighted=True))
    return out


def expr(self):
    X = sp.symbols('x,y,z,r,s', real=True)
    e = 1
    c = nd.coords(self.d)
    S_ = c[0] if c else X
    for i, b in enumerate(self.d['bases']):
        if b['fam'] == 'fourier':
            e = e*(1+sp.cos(S_[i])/2)
        else:
            e = e*(1+S_[i]/3)
    return e


Env.expr = expr


def op_project(E):
    T = E.T
    u = E.spec(T, 1)
    out = {}
    TO = T.get_orthogonal()
    for i in range(T.dimensions):
        w = sf.project(sf.Dx(u, i, 1), TO)
        out['proj%d' % i] = S(TO, w)
    w = sf.project(sf.div(sf.grad(u)), TO)
    out['lap'] = S(TO, w)
    w = sf.project(E.expr(), T)
    out['expr'] = S(T, w)
    w = sf.Function(T, buffer=E.expr())
    out['buffer'] = S(T, w)
    return out


def op_curl(E):
    T = E.T
    V = E.V()
    TO = T.get_orthogonal()
    VO = sf.VectorSpace(TO)
    u = E.spec(T, 1)
    g = sf.project(sf.grad(u), VO)
    out = {'grad': S(VO, g)}
    w = E.spec(V, 3)
    out['div'] = S(TO, sf.project(sf.div(w), TO))
    c = sf.project(sf.curl(w), VO if T.dimensions == 3 else TO)
    out['curl'] = S(VO if T.dimensions == 3 else TO, c)
    return out


def op_matvec(E):
    T = E.T
    u, v = sf.TrialFunction(T), sf.TestFunction(T)
    A = sf.inner(v, -sf.div(sf.grad(u)))+sf_list(sf.inner(v, u))
    x = E.spec(T, 1)
    r = np.zeros_like(np.array(x))
    for a in A:
        z = sf.Function(T)
        z = a.matvec(x, z)
        r += np.asarray(z)
    return {'matvec': S(T, mask_dofs(T, r))}


def sf_list(a):
    return a if isinstance(a, list) else [a]


def mask_dofs(T, r):
    M = np.zeros(T.global_shape(True))
    M[tuple(b.slice() for b in T.bases)] = 1
    return r*M[T.local_slice(True)]


def op_solve(E):
    from shenfun import la
    T = E.T
    u, v = sf.TrialFunction(T), sf.TestFunction(T)
    A = sf_list(sf.inner(v, -sf.div(sf.grad(u))))+sf_list(sf.inner(v, 3*u))
    f = E.phys(T, 2)
    b = sf.inner(v, f)
    n = len(T.get_nondiagonal_axes())
    out = {}
    if n == 0:
        H = la.SolverDiagonal(A)
    elif n == 1:
        H = la.SolverGeneric1ND(list(A))
    elif n == 2 and T.dimensions == 3:
        H = la.SolverGeneric2ND(list(A))
    else:
        raise Skip
    w = sf.Function(T)
    w = H(b.copy(), w)
    out['solve'] = S(T, w)
    w2 = sf.Function(T)
    w2 = H(b.copy(), w2)
    out['again'] = S(T, w2)
    return out


def op_solvecon(E):
    from shenfun import la
    T = E.T
    n = len(T.get_nondiagonal_axes())
    if n not in (0, 1, 2) or (n == 2 and T.dimensions != 3):
        raise Skip
    # the singular problem: no boundary conditions
    T0 = T.get_orthogonal()
    for i in T0.get_nondiagonal_axes():
        if T0.bases[i].family() not in ('legendre',):
            raise Skip
    B = [sf.FunctionSpace(b.N, 'L', basis='ShenNeumann', domain=b.domain) if b.family() == 'legendre' else b.get_unplanned() for b in T.bases]
    T0 = sf.TensorProductSpace(E.comm, B, axes=tuple(E.d['axes']) if E.d.get('axes') else None, dtype=E.d['dtype'], slab=bool(E.d.get('slab')))
    u, v = sf.TrialFunction(T0), sf.TestFunction(T0)
    A = sf_list(sf.inner(sf.grad(v), sf.grad(u)))
    f = E.phys(T0, 2)
    b = sf.inner(v, f)
    sol = {0: la.SolverDiagonal, 1: la.SolverGeneric1ND, 2: la.SolverGeneric2ND}[n]
    H = sol(list(A))
    w = sf.Function(T0)
    w = H(b.copy(), w, constraints=((0, 0),))
    return {'solvecon': S(T0, w)}


def op_block(E):
    from shenfun import la
    T = E.T
    if len(T.get_nondiagonal_axes()) > 1:
        raise Skip
    W = sf.CompositeSpace([T, T])
    u, p = sf.TrialFunction(W)
    v, q = sf.TestFunction(W)
    A = []
    A += sf_list(sf.inner(v, -sf.div(sf.grad(u))))+sf_list(sf.inner(v, 3*u))
    A += sf_list(sf.inner(q, 5*p))+sf_list(sf.inner(sf.grad(q), sf.grad(p)))
    A += sf_list(sf.inner(v, .3*p))
    f = E.spec(W, 6)
    M = la.BlockMatrixSolver(list(A))
    w = sf.Function(W)
    w = M(f.copy(), w)
    out = {'block': S(W, w)}
    B = sf.BlockMatrix([a for a in A if not a.is_bc_matrix()])
    for sc in (False, True):
        c = sf.Function(W)
        c = B.matvec(f, c, use_scipy=sc)
        c = np.array(c)
        for i in range(2):
            c[i] = mask_dofs(T, c[i])
        out['blockmv%s' % sc] = S(W, c)
    return out


def op_eval(E):
    T = E.T
    u = E.spec(T, 1)
    r = E.rs(9)
    pts = []
    for b in T.bases:
        a, e = [float(sp.N(q)) for q in b.domain] if b.family() not in ('laguerre', 'hermite') else (0, 2)
        if b.family() == 'hermite':
            a, e = -1., 1.
        pts.append(a+(e-a)*r.random(7))
    pts = np.array(pts)
    out = {}
    for m in (0, 1, 2):
        try:
            z = T.eval(pts, u, method=m)
        except (NotImplementedError, AssertionError):
            continue
        out['eval%d' % m] = G(z)
    V = E.V()
    w = E.spec(V, 4)
    out['evalv'] = G(w.eval(pts) if hasattr(w, 'eval') else V.eval(pts, w))
    e = sf.grad(u)
    out['evalexpr'] = G(e.eval(pts))
    return out


def op_refine(E):
    T = E.T
    u = E.spec(T, 1)
    N = [int(n*1.5)+1 for n in T.global_shape()]
    w = u.refine(N)
    T2 = w.function_space()
    return {'refine': S(T2, w), 'back': P(T2, w.backward())}


def op_assign(E):
    T = E.T
    u = E.spec(T, 1)
    N = [int(n*1.5)+1 for n in T.global_shape()]
    T2 = T.get_refined(N)
    w = sf.Function(T2)
    w = u.assign(w)
    out = {'assign': S(T2, w)}
    return out


def op_convolve(E):
    T = E.T
    if len(T.get_nondiagonal_axes()) > 0:
        raise Skip
    u = E.spec(T, 1)
    w = E.spec(T, 2)
    Td = T.get_dealiased(1.5)
    c = sf.Function(T)
    c = Td.convolve(u, w, c)
    out = {'convolve': S(T, c)}
    C = sf.Convolve(Td) if hasattr(sf, 'Convolve') else __import__('shenfun.tensorproductspace', fromlist=['x']).Convolve(Td)
    ab = C(u, w)
    out['Convolve'] = S(C.newspace, ab)
    return out


def op_dot(E):
    T = E.T
    V = E.V()
    from shenfun.utilities import cross, outer
    a = E.phys(V, 1)
    b = E.phys(V, 2)
    n = T.dimensions
    c = sf.Array(V) if n == 3 else sf.Array(T)
    out = {}
    if n in (2, 3):
        c = cross(c, a, b)
        out['cross'] = P(V if n == 3 else T, c)
    if n in (2, 3):
        V2 = sf.TensorSpace(T)
        o = sf.Array(V2)
        o = outer(a, b, o)
        out['outer'] = P(V2, o)
        u = E.spec(V, 3)
        w = E.spec(V, 4)
        d = sf.utilities.dot(u, w)
        D = d.function_space()
        out['dot'] = S(D, d) if isinstance(d, sf.Function) else P(D, d)
    return out


def op_redistribute(E):
    T = E.T
    a = E.phys(T, 2)
    out = {}
    for ax in range(T.dimensions):
        b = a.redistribute(axis=ax)
        out['sum%d' % ax] = G(E.sum(b))
    g = a.get((slice(None),)+(0,)*(T.dimensions-1))
    return out


def _sum(self, a):
    return self.comm.allreduce(np.sum(np.asarray(a)))


Env.sum = _sum


def op_hdf5(E):
    import h5py
    T = E.T
    V = E.V()
    u = E.spec(T, 1)
    a = E.phys(T, 2)
    w = E.phys(V, 3)
    # the file layer of mpi4py-fft opens every file on COMM_WORLD
    if E.case['mode'] != 'world':
        raise Skip
    n = T.dimensions
    GA = dense(E, T, 2, False)
    sl1, sl2 = [slice(None)]*(n-1)+[1], [2]+[slice(None)]*(n-1)
    GV = dense(E, V, 3, False)
    out = {}
    plan = (('phys', T, {'a': [a], 'b': [(a, sl1)], 'c': [(a, sl2)]}, 'p', {'a': GA, 'b': GA[tuple(sl1)], 'c': GA[tuple(sl2)]}),
            ('spec', T, {'u': [u]}, 's', {}), ('vec', V, {'w': [w]}, 'p', {'w': GV}))
    for nm, sp_, dat, data_is, exp in plan:
        if E.tag.startswith('ref'):
            for k in exp:
                for step in (0, 3):
                    out['%s:%s:%d' % (nm, k, step)] = G(exp[k])
            out['%s:read' % nm] = P(sp_, w if nm == 'vec' else a) if data_is == 'p' else S(sp_, u)
            continue
        fn = os.path.join(E.tmp, 'dist-%d-%s' % (E.case['i'], nm))
        f = sf.ShenfunFile(fn, sp_, backend='hdf5', mode='w')
        for step in (0, 3):
            f.write(step, dat)
        f.close()
        E.comm.barrier()
        got = {}
        if E.comm.Get_rank() == 0:
            def visit(name, o):
                if isinstance(o, h5py.Dataset) and not name.split('/')[-2] == 'mesh':
                    got[name.split('/')[0]+':'+name.split('/')[-1]] = np.array(o)
            with h5py.File(fn+'.h5', 'r') as h:
                h.visititems(visit)
        got = E.comm.bcast(got, root=0)
        for k in sorted(got):
            out['%s:%s' % (nm, k)] = G(got[k])
        f = sf.ShenfunFile(fn, sp_, backend='hdf5', mode='r')
        z = sf.Array(sp_) if data_is == 'p' else sf.Function(sp_)
        f.read(z, list(dat)[0], step=3)
        out['%s:read' % nm] = P(sp_, z) if data_is == 'p' else S(sp_, z)
        f.close()
        E.comm.barrier()
        if E.comm.Get_rank() == 0:
            os.remove(fn+'.h5')
    return out


def dense(E, T, k, spectral):
    """the global array that Env.phys distributes"""
    shp = T.global_shape(spectral)
    r = E.rs(k)
    G_ = r.normal(size=shp)
    if np.iscomplexobj(np.asarray(sf.Array(T))):
        G_ = G_+1j*r.normal(size=shp)
    return G_


def op_bv(E):
    """boundary data that vary along the distributed axes"""
    T = E.T
    nn = T.get_nondiagonal_axes()
    if len(nn) != 1 or T.dimensions < 2:
        raise Skip
    X = sp.symbols('x,y,z,r,s', real=True)
    B = []
    g = 1
    for i, b in enumerate(T.bases):
        if i not in nn:
            L = float(sp.N(b.domain[1]-b.domain[0]))
            g = g*(1+sp.cos(2*sp.pi/L*(X[i]-b.domain[0]))+sp.sin(2*sp.pi/L*(X[i]-b.domain[0]))/2)
    for i, b in enumerate(T.bases):
        if i in nn:
            if b.family() not in ('chebyshev', 'legendre'):
                raise Skip
            B.append(sf.FunctionSpace(max(b.N, 6), b.family(), bc=(g, 2*g+1), domain=b.domain))
        else:
            B.append(b.get_unplanned())
    T1 = sf.TensorProductSpace(E.comm, B, axes=tuple(E.d['axes']) if E.d.get('axes') else None, dtype=E.d['dtype'], slab=bool(E.d.get('slab')))
    u = E.spec(T1, 1)
    out = {'dofs': S(T1, u)}
    a = u.backward()
    out['bv-backward'] = P(T1, a)
    w = a.forward()
    out['bv-forward'] = S(T1, w)
    return out


def op_homog(E):
    T = E.T
    H = T.get_homogeneous()
    u = E.spec(H, 1)
    out = {'homog': P(H, u.backward())}
    U = T.get_unplanned(tensorproductspace=True)
    w = E.spec(U, 1)
    out['unplanned'] = P(U, w.backward())
    return out


def op_misc(E):
    T = E.T
    u = E.spec(T, 1)
    out = {}
    if all(b.family() == 'fourier' for b in T.bases):
        from shenfun.fourier import energy_fourier
        out['energy'] = G(energy_fourier(u, T))
    U = E.spec(E.V(), 1)
    for i, c in enumerate(U):
        pass
    c0 = U[0]
    out['component'] = S(T, c0)
    V2 = sf.TensorSpace(T)
    W = E.spec(V2, 3)
    out['comp01'] = S(T, W[0, 1] if np.asarray(W).ndim == T.dimensions+2 else np.asarray(W)[1])
    return out


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


def main():
    cases = json.load(open(sys.argv[1]))
    log = open(sys.argv[2], 'a') if rank == 0 else None

    def say(**kw):
        if log:
            log.write(json.dumps(kw)+'\n')
            log.flush()
    tmp = os.path.dirname(sys.argv[2])
    for case in cases:
        np_ = WORLD.Get_size()
        if case['mode'] == 'split' and np_ >= 3:
            comm = WORLD.Split(color=int(rank >= np_-2) if np_ > 3 else int(rank == 0))
        else:
            comm = WORLD.Dup()
        say(ev='case', i=case['i'], op='build')
        try:
            R = Env(case, MPI.COMM_SELF, 'ref%d' % rank, tmp)
            rerr = ''
        except Exception as ex:
            rerr = repr(ex)[:200]
        try:
            if not rerr:
                D = Env(case, comm, 'dist%d' % WORLD.Get_rank() if comm.Get_size() == 1 else 'dist%s-%d' % (case['mode'], comm.bcast(rank, root=0)), tmp)
            derr = ''
        except Exception as ex:
            derr = traceback.format_exc(limit=-2)[-300:]
        if rerr:
            say(ev='skip', i=case['i'], op='build', why=rerr)
            continue
        derrs = [x for x in WORLD.allgather(derr) if x]
        if derrs:
            # mpi4py-fft refuses more processes than there are points along an axis
            say(ev='raises', i=case['i'], op='build', why=derrs[0], n=len(derrs))
            continue
        say(ev='layout', i=case['i'], dims=[c.Get_size() for c in D.T.subcomm], np=comm.Get_size())
        unal = [i for i in D.T.get_nondiagonal_axes() if D.T.forward.output_pencil.subcomm[i].Get_size() > 1]
        unal = any(WORLD.allgather(bool(unal)))
        for op in case['ops']:
            if unal and op in ('solve', 'solvecon', 'block', 'project', 'curl'):
                say(ev='noref', i=case['i'], op=op, why='nonperiodic axis distributed')
                continue
            say(ev='op', i=case['i'], op=op)
            faulthandler.dump_traceback_later(HANG-8, exit=False, file=sys.stderr)
            t0 = time.time()
            try:
                ref = OPS[op](R)
                rerr = ''
            except Skip:
                rerr = 'skip'
            except Exception as ex:
                rerr = repr(ex)[:150]
            if rerr:
                say(ev='noref', i=case['i'], op=op, why=rerr)
                continue
            try:
                got = OPS[op](D)
                derr = ''
            except Exception as ex:
                derr = traceback.format_exc(limit=-2)[-400:]
                print('p10-raised', rank, op, derr, file=sys.stderr, flush=True)
            derrs = [x for x in WORLD.allgather(derr) if x]
            if derrs:
                say(ev='raises', i=case['i'], op=op, why=derrs[0], n=len(derrs))
                if len(derrs) < np_:
                    break
                continue
            for k in ref:
                err, why, cov = 0., '', 0
                a, _, gs = ref[k]
                if k not in got:
                    err, why = 1e9, 'missing'
                else:
                    b, sl, gs2 = got[k]
                    r = a if sl is None else a[sl]
                    if sl is not None and tuple(gs) != tuple(gs2):
                        err, why = 1e9, 'global shape %s vs %s' % (gs, gs2)
                    elif r.shape != b.shape:
                        err, why = 1e9, 'shape %s vs %s' % (r.shape, b.shape)
                    elif b.size:
                        sc = max(float(np.abs(a).max()), 1e-14)
                        with np.errstate(all='ignore'):
                            err = float(np.abs(r-b).max())/sc
                        if not np.isfinite(err):
                            if np.all(np.isfinite(r)):
                                err, why = 1e9, 'not finite'
                            else:
                                err = 0.
                    cov = b.size if sl is not None else 0
                L = comm.allgather((err, why, cov))
                allL = WORLD.allgather((err, why))
                tot = sum(x[2] for x in L)
                m = max(allL)
                if k in got and got[k][1] is not None and tot != a.size:
                    m = (1e9, 'local parts cover %d of %d' % (tot, a.size))
                say(ev='cmp', i=case['i'], op=op, key=k, err=m[0], why=m[1], n=len(L))
            if 'P10_TIMES' in os.environ:
                say(ev='time', i=case['i'], op=op, t=round(time.time()-t0, 2))
        say(ev='done', i=case['i'])
        try:
            comm.Free()
        except Exception:
            pass
    say(ev='end')


if __name__ == '__main__':
    main()
