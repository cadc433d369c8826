"""P11: python, cython and numba implementations compute the same results."""
import numpy as np
import common  # noqa: F401
import vh
import nd
import shadow
from p12 import coeffs

RULE = ('every call dispatched by shenfun.optimization is executed in all modes on private copies and the results and modified arrays compared; '
        'programs run in one mode agree with the same program in another mode and with modes switched on the way')

BANDS = {'DiagMA': (0,), 'TDMA': (-2, 0, 2), 'TDMA_O': (-1, 0, 1), 'PDMA': (-4, -2, 0, 2, 4), 'FDMA': (-2, 0, 2, 4), 'TwoDMA': (0, 2),
         'ThreeDMA': (0, 2, 4), 'HeptaDMA': (-4, -2, 0, 2, 4, 6, 8)}


def cases(tier, rng):
    T = tier == 'thorough'
    out = []
    # one process per kernel compiles only its own numba specialisations
    for c in BANDS:
        for r in range(6 if T else 1):
            out.append({'kind': 'band', 'cls': c, 'n': 120 if T else 40, 'nb': True, 'all': T, 's': rng.randint(0, 10**6), 'cost': 12})
            out.append({'kind': 'band', 'cls': c, 'n': 300 if T else 120, 'nb': False, 's': rng.randint(0, 10**6), 'cost': 3})
    for k in ('cross2', 'cross3', 'outer2', 'outer3', 'mask'):
        for r in range(5 if T else 1):
            out.append({'kind': 'kern', 'k': k, 'n': 120 if T else 40, 's': rng.randint(0, 10**6), 'cost': 10})
    for k in ('leg2cheb', 'cheb2leg', 'restricted', 'expansion', 'chebval', 'fmm', 'haletownsend'):
        for r in range(6 if T else 1):
            out.append({'kind': 'l2c', 'k': k, 'n': 40 if T else 5 if k == 'fmm' else 14, 's': rng.randint(0, 10**6), 'cost': 12})
    for k in ('Helmholtz', 'HelmholtzN', 'Biharmonic', 'ADD'):
        for dim in (1, 2, 3):
            for r in range(8 if T else 1):
                out.append({'kind': 'cheb', 'k': k, 'dim': dim, 'n': 25 if T else 10, 'nb': True, 's': rng.randint(0, 10**6), 'cost': 10+4*dim})
    for i in range(120 if T else 24):
        out.append({'kind': 'program', 's': rng.randint(0, 10**6), 'nb': i % 3 == 0, 'cost': 12})
    return out


def run(case, mon):
    globals()[case['kind']](case, mon)


def layout(rs, shape, dt, how):
    """random array with a given memory layout"""
    nd_ = len(shape)
    if how == 'C':
        a = np.empty(shape, dt)
    elif how == 'F':
        a = np.empty(shape, dt, order='F')
    elif how == 'S':       # strided view of a larger array
        big = np.zeros([n+2 for n in shape], dt)
        a = big[tuple(slice(1, n+1) for n in shape)]
    else:                  # permuted axes
        p = rs.permutation(nd_)
        a = np.empty([shape[q] for q in p], dt).transpose(np.argsort(p))
    a[...] = rs.standard_normal(shape)
    if a.dtype.kind == 'c':
        a[...] += 1j*rs.standard_normal(shape)
    return a


def band(case, mon):
    import shenfun as sf
    from shenfun import la
    from shenfun.matrixbase import SparseMatrix
    rs = np.random.default_rng(case['s'])
    Cls = getattr(la, case['cls'])
    offs = BANDS[case['cls']]
    sigs = [('d', 1, 'C'), ('D', 2, 'C'), ('d', 2, 'C'), ('D', 3, 'C'), ('d', 3, 'C'), ('d', 2, 'S')]
    if case.get('all'):
        sigs = [(d, n, l) for d in 'dD' for n in (1, 2, 3, 4) for l in 'CFS']
    modes = shadow.MODES if case['nb'] else ('python', 'cython')
    with shadow.Shadow(mon, modes) as sh:
        for it in range(case['n']):
            N = int(rs.integers(max(5, max(offs)+1), 14))
            if rs.random() < .1:
                N = int(rs.integers(30, 70))
            d = {}
            for o in offs:
                v = rs.uniform(-1, 1, N-abs(o))
                d[o] = v+np.sign(v+.01)*len(offs) if o == 0 else v
            M = SparseMatrix(d, (N, N))
            if case['nb']:
                dt, ndim, lay = sigs[int(rs.integers(0, len(sigs)))]
            else:
                dt, ndim, lay = str(rs.choice(['d', 'D'])), int(rs.integers(1, 5)), str(rs.choice(['C', 'C', 'F', 'S', 'P']))
            ax = int(rs.integers(0, ndim))
            shape = [int(q) for q in rs.integers(1, 6, ndim)]
            shape[ax] = N+int(rs.choice([0, 0, 1, 2, 4]))
            b = layout(rs, shape, dt, lay)
            sol = Cls(M)
            b0 = np.array(b)
            u = layout(rs, shape, dt, lay) if rs.random() < .4 else b
            mode0 = sf.config['optimization']['mode']
            sf.config['optimization']['mode'] = 'cython' if ndim < 4 else 'python'
            try:
                u = sol(b, u, axis=ax)
            except Exception as e:
                k = shadow.refusal('cython', e)
                if k is None:
                    mon.fail('band solver raises', '%s %r' % (case['cls'], e))
                else:
                    mon.skip('refused '+k)
                continue
            finally:
                sf.config['optimization']['mode'] = mode0
            mon.event('solve')
            # the configured implementation solved the real system
            A = np.zeros((N, N))
            for o in offs:
                A += np.diag(d[o], o)
            x = np.moveaxis(np.asarray(u), ax, 0)[:N].reshape(N, -1)
            rhs = np.moveaxis(b0, ax, 0)[:N].reshape(N, -1)
            r = np.max(np.abs(A@x-rhs), initial=0)
            mon.check(r <= 1e-9*max(1, np.max(np.abs(rhs), initial=0))*N, 'residual:%s' % case['cls'], 'N=%d %s ndim %d axis %d %s residual %.1e' % (N, dt, ndim, ax, lay, r))


def kern(case, mon):
    import shenfun.utilities as ut
    rs = np.random.default_rng(case['s'])
    k = case['k']
    with shadow.Shadow(mon):
        for it in range(case['n']):
            dt = str(rs.choice(['d', 'D']))
            lay = str(rs.choice(['C', 'C', 'C', 'S']))
            if k != 'mask':
                dim = int(k[-1])
                shape = tuple(int(q) for q in rs.integers(1, 7, dim))
                a = layout(rs, (dim,)+shape, dt, lay)
                b = layout(rs, (dim,)+shape, dt, lay)
                if k.startswith('cross'):
                    c = layout(rs, shape if dim == 2 else (3,)+shape, dt, lay)
                    want = a[0]*b[1]-a[1]*b[0] if dim == 2 else np.cross(a, b, axis=0)
                    f = lambda: ut.cross(c, a, b)  # noqa: E731
                else:
                    c = layout(rs, (dim*dim,)+shape, dt, lay)
                    if rs.random() < .4:
                        b = a
                    want = np.array([a[i]*b[j] for i in range(dim) for j in range(dim)])
                    f = lambda: (ut.outer2D if dim == 2 else ut.outer3D)(a, b, c, a is b)  # noqa: E731
                try:
                    r = f()
                except Exception as e:
                    (mon.skip if shadow.refusal('', e) else lambda q: mon.fail(k+' raises', q))('refused %r' % e)
                    continue
                mon.check(np.allclose(c, want, 1e-12, 1e-12), 'value:'+k, '%s %s' % (dt, shape))
            else:
                dim = int(rs.integers(1, 5))
                shape = tuple(int(q) for q in rs.integers(1, 6, dim))
                m = (rs.random([n if rs.random() < .8 else 1 for n in shape]) < .6).astype(np.int64)
                lead = [(), (), (dim,), (dim, dim)][int(rs.integers(0, 4))]
                u = layout(rs, lead+shape, dt, lay if rs.random() < .2 else 'C')
                want = u*m
                try:
                    r = ut.apply_mask(u, m)
                except Exception as e:
                    (mon.skip if shadow.refusal('', e) else lambda q: mon.fail(k+' raises', q))('refused %r' % e)
                    continue
                mon.check(np.array_equal(r, want), 'value:mask', '%s %s mask %s' % (dt, lead+shape, m.shape))


def l2c(case, mon):
    import shenfun as sf
    import shenfun.optimization as so
    from shenfun.legendre import dlt
    rs = np.random.default_rng(case['s'])
    k = case['k']
    with shadow.Shadow(mon, tol=1e-8):
        for it in range(case['n']):
            ndim = int(rs.integers(1, 4))
            ax = int(rs.integers(0, ndim))
            dt = str(rs.choice(['d', 'D']))
            lay = str(rs.choice(['C', 'C', 'C', 'S', 'F']))
            shape = [int(q) for q in rs.integers(1, 5, ndim)]
            N = int(rs.integers(1, 40)) if rs.random() < .8 else int(rs.integers(40, 200))
            shape[ax] = N
            a = layout(rs, shape, dt, lay)
            det = '%s %s %s axis %d' % (dt, shape, lay, ax)
            try:
                if k == 'leg2cheb':
                    tr = bool(rs.random() < .4)
                    out = layout(rs, shape, dt, lay) if rs.random() < .5 else None
                    dlt.leg2cheb(a, out, ax, tr) if out is not None else dlt.leg2cheb(a, np.zeros_like(a), axis=ax, transpose=tr)
                elif k == 'cheb2leg':
                    dlt.cheb2leg(a, layout(rs, shape, dt, lay), ax)
                elif k == 'restricted':
                    restricted(rs, mon, dlt)
                elif k == 'expansion':
                    expansion(rs, mon)
                elif k == 'chebval':
                    x = rs.uniform(-1, 1, int(rs.integers(1, 9)))
                    c = layout(rs, [int(rs.integers(1, 9))], dt, 'C')
                    want = np.polynomial.chebyshev.chebval(x, c)
                    for m in ('cython', 'numba'):
                        f = getattr({'cython': so.cython, 'numba': so.numba}[m], 'chebval')
                        try:
                            got = f(x, c)
                        except Exception as e:
                            mon.event('refused:chebval:%s:%s' % (m, type(e).__name__))
                            continue
                        mon.seen('chebval', m, c.ndim, dt)
                        mon.check(np.shape(got) == want.shape and np.allclose(got, want, 1e-10, 1e-10), 'chebval:'+m, '%s c %s x %s' % (dt, c.shape, x.shape))
                elif k == 'fmm':
                    fmm(rs, mon, so, dlt)
                else:
                    haletownsend(rs, mon, dlt)
            except Exception as e:
                kk = shadow.refusal('', e)
                if kk is None:
                    mon.fail('l2c:%s raises:%s' % (k, type(e).__name__), '%s %s' % (str(e)[:150], det))
                else:
                    mon.skip('refused '+kk)


def restricted(rs, mon, dlt):
    import shenfun as sf
    fam, args = [('L', {}), ('C', {}), ('J', {'alpha': .3, 'beta': -.2})][int(rs.integers(0, 2))]
    N = int(rs.integers(6, 30))
    L = sf.FunctionSpace(N, fam, **args)
    ndim = int(rs.integers(1, 4))
    ax = int(rs.integers(0, ndim))
    i0 = int(rs.integers(0, N-2))
    i1 = int(rs.integers(i0+1, N+1))
    a0 = int(rs.integers(0, 5))
    shape = [int(q) for q in rs.integers(1, 4, ndim)]
    shape[ax] = N
    u = layout(rs, shape, str(rs.choice(['d', 'D'])), 'C')
    so = list(shape)
    so[ax] = int(rs.integers(1, N-a0-3)) if N-a0-3 > 1 else 1
    xi = L.mesh(bcast=False) if hasattr(L, 'mesh') else None
    xi = np.asarray(xi, float).ravel()
    a = L.get_recursion_matrix(N+3, N+3).diags('dia').data.copy() if hasattr(L, 'get_recursion_matrix') else None
    dlt.restricted_product(L, u, np.zeros(so, u.dtype), xi, i0, i1, a0, ax, a)


def expansion(rs, mon):
    """the recursive transform kernels of the cython and numba modules"""
    import importlib
    import shenfun as sf
    fam = ['L', 'C', 'U', 'J'][int(rs.integers(0, 4))]
    N = int(rs.integers(4, 24))
    L = sf.FunctionSpace(N, fam, **({'alpha': .5, 'beta': .25} if fam == 'J' else {}))
    ndim = int(rs.integers(1, 5))
    ax = int(rs.integers(0, ndim))
    shape = [int(q) for q in rs.integers(1, 4, ndim)]
    shape[ax] = N
    dt = str(rs.choice(['d', 'D']))
    x = np.asarray(L.mesh(bcast=False), float).ravel()
    w = np.asarray(L.points_and_weights(N)[1], float)
    a = L.get_recursion_matrix(N+3, N+3).diags('dia').data.copy()
    V = np.asarray(L.evaluate_basis_all(x=x) if hasattr(L, 'evaluate_basis_all') else L.vandermonde(x))
    u = layout(rs, shape, dt, 'C')
    res = {}
    for m in ('cython', 'numba'):
        mod = importlib.import_module('shenfun.optimization.%s.transforms' % m)
        for fn in ('evaluate_expansion_all', 'scalar_product'):
            o = np.zeros(shape, dt)
            try:
                if fn == 'scalar_product':
                    mod.scalar_product(u.copy(), o, x, w, ax, a)
                    want = np.moveaxis(np.tensordot(V.T*w, u, (1, ax)), 0, ax)
                else:
                    mod.evaluate_expansion_all(u.copy(), o, x, ax, a)
                    want = np.moveaxis(np.tensordot(V, u, (1, ax)), 0, ax)
            except Exception as e:
                kk = shadow.refusal(m, e)
                if kk is None:
                    mon.fail('recursive %s:%s raises' % (fn, m), '%r %s' % (e, shape))
                else:
                    mon.event('refused:%s:%s:%s' % (fn, m, kk))
                continue
            mon.seen(fn, m, ndim, dt, fam)
            mon.event('compared:'+fn)
            sc = np.max(np.abs(want), initial=0)
            e = np.max(np.abs(o-want), initial=0)
            mon.check(e <= 1e-9*max(sc, 1e-300), 'recursive %s:%s' % (fn, m), '%s N=%d %s axis %d %s err %.1e' % (fam, N, shape, ax, dt, e))




def fmm(rs, mon, so, dlt):
    """the multipole classes in all modes against the dense matrix"""
    import shenfun as sf
    N = int(rs.integers(2, 60)) if rs.random() < .4 else int(rs.integers(130, 450))
    ndim = int(rs.integers(1, 4)) if N < 300 else int(rs.integers(1, 3))
    ax = int(rs.integers(0, ndim))
    shape = [int(q) for q in rs.integers(1, 4, ndim)]
    shape[ax] = N
    dt = str(rs.choice(['d', 'D']))
    lay = str(rs.choice(['C', 'C', 'S', 'F']))
    u = layout(rs, shape, dt, lay)
    u /= 1+np.arange(N).reshape([-1 if i == ax else 1 for i in range(ndim)])
    M = l2c_matrix(N)
    big = N >= 130
    kw = {'levels': [None, 1, 2][int(rs.integers(0, 3))] if big else None, 'use_direct': -1 if big and rs.random() < .7 else 1000, 'maxs': int(rs.choice([20, 50, 100]))}
    dg = int(rs.choice([4, 8]))
    for mod, cls in ((so.cython, 'Leg2Cheb'), (so.cython, 'Cheb2Leg'), (dlt, 'FMMLeg2Cheb'), (dlt, 'FMMCheb2Leg')):
        l2c_ = 'Leg2Cheb' in cls
        for m in ('cython',) if mod is so.cython else ('python', 'cython', 'numba'):
            for tr in ((False, True) if l2c_ else (False,)):
                A = M.T if tr else M
                if l2c_:
                    want = np.moveaxis(np.tensordot(A, u, (1, ax)), 0, ax)
                else:
                    w = np.moveaxis(u, ax, 0)
                    want = np.moveaxis(np.linalg.solve(M, w.reshape(N, -1)).reshape(w.shape), 0, ax)
                old = sf.config['optimization']['mode']
                sf.config['optimization']['mode'] = m
                u0 = u.copy()
                try:
                    F = getattr(mod, cls)(u, axis=ax, **({'diagonals': dg} if mod is so.cython and big and kw['use_direct'] < 0 else {}), **kw)
                    for rep in range(2):
                        got = np.array(F(u, np.zeros(shape, dt), **({'transpose': tr} if l2c_ else {})))
                except Exception as e:
                    kk = shadow.refusal(m, e)
                    if kk is None:
                        mon.fail('fmm %s:%s raises' % (cls, m), '%r N=%d %s %s' % (e, N, shape, kw))
                    else:
                        mon.event('refused:%s:%s:%s' % (cls, m, kk))
                    continue
                finally:
                    sf.config['optimization']['mode'] = old
                mon.seen(cls, m, ndim, N > 128, tr, kw['use_direct'], lay)
                mon.event('compared:'+cls)
                mon.check(np.array_equal(u, u0), 'fmm %s:%s input changed' % (cls, m), '%s' % shape)
                e = np.max(np.abs(got-want))
                mon.check(e <= 1e-7*max(np.max(np.abs(want)), np.max(np.abs(u))), 'fmm %s:%s%s' % (cls, m, ':transpose' if tr else ''), 'N=%d %s %s%s axis %d diags %d %s err %.1e of %.1e' % (N, shape, dt, lay, ax, dg, kw, e, np.max(np.abs(want))))


_M = {}


def l2c_matrix(N):
    """dense Legendre -> Chebyshev matrix (Alpert and Rokhlin)"""
    if N not in _M:
        from scipy.special import gammaln
        z = np.arange(N)
        lam = np.exp(gammaln(z+.5)-gammaln(z+1))
        M = np.zeros((N, N))
        for i in range(N):
            j = np.arange(i, N, 2)
            M[i, j] = (2-(i == 0))/np.pi*lam[(j-i)//2]*lam[(j+i)//2]
        _M[N] = M
    return _M[N]


def haletownsend(rs, mon, dlt):
    import shenfun as sf
    N = int(rs.integers(200, 700))
    ndim = int(rs.integers(1, 3))
    ax = int(rs.integers(0, ndim))
    shape = [int(q) for q in rs.integers(1, 3, ndim)]
    shape[ax] = N
    u = layout(rs, shape, 'd', 'C')
    want = np.moveaxis(np.tensordot(l2c_matrix(N), u, (1, ax)), 0, ax)
    old = sf.config['optimization']['mode']
    for m in ('cython', 'numba'):
        sf.config['optimization']['mode'] = m
        try:
            got = np.array(dlt.Leg2chebHaleTownsend(u.copy(), axis=ax, Nmin=100)(u.copy(), np.zeros_like(u)))
        except Exception as e:
            kk = shadow.refusal(m, e)
            (mon.event('refused:HT:%s:%s' % (m, kk)) if kk else mon.fail('HaleTownsend:%s raises' % m, '%r N=%d %s axis %d' % (e, N, shape, ax)))
            continue
        finally:
            sf.config['optimization']['mode'] = old
        mon.seen('HT', m, ndim)
        mon.event('compared:HT')
        e = np.max(np.abs(got-want))
        mon.check(e <= 1e-7*np.max(np.abs(want)), 'HaleTownsend:'+m, 'N=%d %s axis %d err %.1e' % (N, shape, ax, e))


# ---- programs
def cheb(case, mon):
    """Chebyshev solvers with their own optimised kernels"""
    import shenfun as sf
    from shenfun import chebyshev
    rs = np.random.default_rng(case['s'])
    dim, k = case['dim'], case['k']
    modes = shadow.MODES if case['nb'] else ('python', 'cython')
    for it in range(case['n']):
        N = int(rs.integers(8, 25))
        if k == 'Biharmonic':
            N = int(rs.integers(7, 12))*2
        ax = int(rs.integers(0, dim))
        quad = str(rs.choice(['GC', 'GL']))
        bc = {'Helmholtz': (0, 0), 'ADD': (0, 0), 'HelmholtzN': {'left': {'N': 0}, 'right': {'N': 0}}, 'Biharmonic': (0, 0, 0, 0)}[k]
        if k == 'Helmholtz' and rs.random() < .4:
            bc = (float(rs.standard_normal()), float(rs.standard_normal()))
        S = sf.FunctionSpace(N, 'C', bc=bc, quad=quad)
        nF = dim-1
        bases = []
        for q in range(nF):
            bases.append(sf.FunctionSpace(int(rs.integers(3, 8))*2, 'F', dtype='d' if q == nF-1 and rs.random() < .7 else 'D'))
        real = nF == 0 or bases[-1].dtype.char in 'fd'
        bases.insert(ax, S)
        T = S if dim == 1 else sf.TensorProductSpace(sf.comm, bases, axes=tuple([ax]+[q for q in range(dim) if q != ax]), dtype='d' if real else 'D')
        u, v = sf.TrialFunction(T), sf.TestFunction(T)
        al = float(rs.uniform(1, 30))
        det = '%s dim %d axis %d N=%d %s bc %s' % (k, dim, ax, N, quad, bc)
        f = sf.Function(T)
        f[...] = layout(rs, f.shape, f.dtype.char, 'C')
        if dim > 1:
            f = sf.Function(T, buffer=T.forward(T.backward(f).copy(), sf.Function(T)))
        D = sf.div
        with shadow.Shadow(mon, modes, tol=1e-8):
            try:
                if k in ('Helmholtz', 'HelmholtzN'):
                    ms = [sf.inner(v, D(sf.grad(u))), sf.inner(v, -al*u)]
                    flat = [m for q in ms for m in (q if isinstance(q, list) else [q])]
                    H = chebyshev.la.Helmholtz(list(flat))
                elif k == 'ADD':
                    ms = sf.inner(v, D(sf.grad(u)))
                    if dim > 1:
                        ms = sf.inner(v, sf.Dx(u, ax, 2))
                    flat = ms if isinstance(ms, list) else [ms]
                    if dim > 1:
                        m1 = flat[0].mats[ax]
                    else:
                        m1 = flat[0]
                    if len(flat) > 1:
                        flat = flat[:1]
                    H0 = chebyshev.la.ADDSolver(m1)
                    H = lambda b, w: H0(b, w, axis=ax)  # noqa: E731
                else:
                    DD = D(sf.grad(D(sf.grad(u))))
                    ms = [sf.inner(v, DD), sf.inner(v, -al*D(sf.grad(u))), sf.inner(v, al*u)]
                    flat = [m for q in ms for m in (q if isinstance(q, list) else [q])]
                    H = chebyshev.la.Biharmonic(list(flat))
            except Exception as e:
                mon.fail('cheb %s:assembly raises' % k, '%r %s' % (e, det))
                continue
            for rep in range(2):
                b = sf.Function(T)
                b[...] = np.asarray(f)*(rep+1)
                w = sf.Function(T)
                try:
                    H(b, w)
                except Exception as e:
                    kk = shadow.refusal('', e)
                    (mon.skip('refused '+kk) if kk else mon.fail('cheb %s:solve raises' % k, '%r %s' % (e, det)))
                    break
                mon.event('program:'+k)
                if k != 'ADD' and rep == 0:
                    c = sf.Function(T)
                    try:
                        H.matvec(w, c)
                        mon.event('matvec:'+k)
                        inner = [slice(None)]*dim
                        inner[ax] = S.slice()
                        if k != 'HelmholtzN':
                            r = np.max(np.abs(np.asarray(c)[tuple(inner)]-np.asarray(f)[tuple(inner)]))
                            mon.check(r <= 1e-8*max(1, np.max(np.abs(f))), 'residual:cheb '+k, '%.1e %s' % (r, det))
                    except Exception as e:
                        mon.fail('cheb %s:matvec raises' % k, '%r %s' % (e, det))
                    if k == 'Helmholtz':
                        direct_matvec(mon, H, w, k, ax)


def direct_matvec(mon, H, w, k, ax):
    c = np.zeros(w.shape, w.dtype)
    try:
        f = H.Helmholtz_Neumann_matvec if k == 'HelmholtzN' else H.Helmholtz_matvec
        f(np.array(w), c, H.alfa, H.beta, H.A, H.B, ax)
    except Exception as e:
        if shadow.refusal('', e) is None:
            mon.fail('cheb %s:direct matvec raises' % k, '%r' % e)


def program(case, mon):
    """a time-stepping-like program in one mode against the same program with modes switched on the way"""
    import shenfun as sf
    rs = np.random.default_rng(case['s'])
    d = describe(rs)
    modes = ['python', 'cython']+(['numba'] if case['nb'] else [])
    old = sf.config['optimization']['mode']
    res = {}
    try:
        for m in modes+['switch', 'shadow']:
            r = np.random.default_rng(case['s']+1)
            sw = np.random.default_rng(case['s']+2)

            def tick():
                sf.config['optimization']['mode'] = str(sw.choice(modes)) if m == 'switch' else 'cython' if m == 'shadow' else m
            tick()
            try:
                if m == 'shadow':
                    with shadow.Shadow(mon, modes, tol=1e-8):
                        res[m] = evolve(sf, d, r, tick)
                else:
                    res[m] = evolve(sf, d, r, tick)
            except Exception as e:
                k = shadow.refusal(m, e)
                if k is None:
                    res[m] = e
                    mon.event('program raises %s %s' % (m, type(e).__name__))
                else:
                    mon.event('program refused %s %s' % (m, k))
    finally:
        sf.config['optimization']['mode'] = old
    good = [m for m in res if not isinstance(res[m], Exception)]
    for m in res:
        if isinstance(res[m], Exception) and good:
            mon.fail('program raises only in mode %s' % m, '%r %s' % (res[m], d))
    for m in good[1:]:
        for (n0, x), (n1, y) in zip(res[good[0]], res[m]):
            sc = max(float(np.max(np.abs(x), initial=0)), 1e-300)
            if not np.isfinite(sc):
                mon.event('nonfinite')
                continue
            e = float(np.max(np.abs(x-y), initial=0))
            mon.event('compared program step')
            mon.check(e <= 1e-7*sc, 'program:%s:%s' % (n0.split()[0], m if m in ('switch', 'shadow') else '%s vs %s' % (m, good[0])), '%s err %.1e of %.1e %s' % (n0, e, sc, d))
    mon.seen('program', d['fam'], d['dim'], d['bc'], len(good))


def describe(rs):
    fam = str(rs.choice(['C', 'L', 'U', 'C', 'L', 'J']))
    dim = int(rs.integers(1, 4))
    return {'fam': fam, 'dim': dim, 'N': int(rs.integers(8, 20)), 'bc': str(rs.choice(['D', 'N', 'B', 'none', 'DI'])), 'ax': int(rs.integers(0, dim)),
            'quad': {'C': ['GC', 'GL'], 'L': ['LG', 'GL'], 'U': ['GU', 'GC'], 'J': ['JG']}[fam][int(rs.integers(0, 1 if fam == 'J' else 2))],
            'nF': [int(rs.integers(2, 6))*2 for _ in range(dim-1)], 'real': bool(rs.random() < .7), 'kind': str(rs.choice(['vandermonde', 'recursive', 'fast', '']))}


def evolve(sf, d, rs, tick):
    out = []
    bc = {'D': (0, 0), 'N': {'left': {'N': 0}, 'right': {'N': 0}}, 'B': (0, 0, 0, 0), 'none': None, 'DI': (.5, -1.)}[d['bc']]
    kw = {'alpha': 0, 'beta': 0} if d['fam'] == 'J' else {}
    S = sf.FunctionSpace(d['N'], d['fam'], bc=bc, quad=d['quad'], **kw)
    dim = d['dim']
    if dim > 1:
        bases = [sf.FunctionSpace(n, 'F', dtype='d' if d['real'] and i == dim-2 else 'D') for i, n in enumerate(d['nF'])]
        bases.insert(d['ax'], S)
        T = sf.TensorProductSpace(sf.comm, bases, axes=tuple([d['ax']]+[q for q in range(dim) if q != d['ax']]), dtype='d' if d['real'] else 'D')
    else:
        T = S
    ua = sf.Array(T)
    ua[...] = layout(rs, ua.shape, ua.dtype.char, 'C')
    tick()
    uh = sf.Function(T, buffer=T.forward(ua, sf.Function(T), **({'kind': d['kind']} if d['kind'] in ('recursive', 'vandermonde') and dim == 1 else {})))
    out.append(('forward', np.array(uh)))
    tick()
    ub = T.backward(uh, sf.Array(T))
    out.append(('backward', np.array(ub)))
    u, v = sf.TrialFunction(T), sf.TestFunction(T)
    al = float(rs.uniform(1, 20))
    if d['bc'] == 'B':
        ms = [sf.inner(v, sf.div(sf.grad(sf.div(sf.grad(u))))), sf.inner(v, al*u)]
    else:
        ms = [sf.inner(v, sf.div(sf.grad(u))), sf.inner(v, -al*u)]
    flat = [m for q in ms for m in (q if isinstance(q, list) else [q])]
    tick()
    sol = sf.la.Solver(flat) if dim == 1 else sf.la.SolverGeneric1ND(flat)
    rhs = sf.inner(v, ub)
    for it in range(3):
        tick()
        b = sf.Function(T, buffer=rhs)
        w = sol(b, sf.Function(T))
        out.append(('solve %d' % it, np.array(w)))
        tick()
        wa = w.backward()
        tick()
        if dim > 1:
            V = sf.VectorSpace(T)
            g = sf.project(sf.grad(w), V) if d['bc'] == 'none' else None
            if g is not None:
                out.append(('grad %d' % it, np.array(g)))
        tick()
        rhs = sf.inner(v, sf.Array(T, buffer=np.asarray(wa)*np.asarray(wa)/(1+np.max(np.abs(np.asarray(wa)))**2)+np.asarray(ub)))
        out.append(('inner %d' % it, np.array(rhs)))
        pts = rs.uniform(-1, 1, (dim, 3))
        if dim < 4:
            tick()
            try:
                out.append(('eval %d' % it, np.array(w.eval(pts if dim > 1 else pts[0]))))
            except ValueError as e:
                if 'Buffer' not in str(e):
                    raise
    return out


if __name__ == '__main__':
    vh.main('P11', cases, run, RULE)
