"""P06 - curvilinear coordinate metrics obey the identities of tensor analysis."""
from common import vh, Skip
import numpy as np
import nd
import spaces

EXTRA = {
    'elliptic': ('u,v', ['2*cosh(u)*cos(v)', '2*sinh(u)*sin(v)'], [(.3, 1.2), (0.2, 1.3)], ''),
    'rotated': ('u,v', ['3*u/5-4*v/5', '4*u/5+3*v/5'], [(-1, 1), (-1, 1)], ''),
    'reflected': ('u,v', ['v', 'u'], [(-1, 1), (-1, 1)], ''),
    'monge': ('u,v', ['u', 'v', 'u**2*v/4+v**2/2'], [(-1, 1), (-1, 1)], ''),
    'ellipsoid': ('u,v', ['3*sin(u)*cos(v)', '2*sin(u)*sin(v)', 'cos(u)'], [(.3, 2.8), (0, 6)], 'sin(u)'),
    'cone': ('u,v', ['u*cos(v)', 'u*sin(v)', '2*u'], [(.3, 2), (0, 6)], 'u'),
    'parab3': ('u,v,w', ['u*v*cos(w)', 'u*v*sin(w)', '(u**2-v**2)/2'], [(.3, 1), (.4, 1.2), (0, 6)], 'u,v'),
    'oblate': ('u,v,w', ['cosh(u)*cos(v)*cos(w)', 'cosh(u)*cos(v)*sin(w)', 'sinh(u)*sin(v)'], [(.3, 1), (.2, 1.2), (0, 6)], 'cos(v),sinh(u),sin(v)'),
    'cubic': ('u,v', ['u+v**3/5', 'v+u*v/4'], [(.1, 1), (.1, 1)], ''),
    'shear3': ('u,v,w', ['u+v**2/4', 'v+w**2/4', 'w'], [(-1, 1), (-1, 1), (-1, 1)], ''),
    'logpolar': ('u,v', ['exp(u)*cos(v)', 'exp(u)*sin(v)'], [(-1, 1), (0, 6)], ''),
    'left': ('u,v,w', ['v', 'u', 'w*(2+u)'], [(-1, 1), (-1, 1), (-1, 1)], '2+u'),
    'spiral': ('u', ['u*cos(u)', 'u*sin(u)', 'u**2'], [(.5, 3)], 'u'),
    'graph': ('u', ['u', 'u**3/3+sin(u)'], [(-1, 1)], ''),
    'hyper4': ('u,v', ['u', 'v', 'u*v', 'u**2'], [(.2, 1), (.2, 1)], ''),
    'param': ('u,v', ['a*u*cos(v)', 'a*u*sin(v)'], [(.3, 2), (0, 6)], 'u'),
    'paramq': ('u,v', ['u+a*v', 'v+a*u**2/4'], [(-1, 1), (-1, 1)], ''),
    'paramt': ('u,v', ['(3+a*cos(u))*cos(v)', '(3+a*cos(u))*sin(v)', 'a*sin(u)'], [(0, 6), (0, 6)], '3+a*cos(u),3+cos(u)'),
}
GETTERS = ['b', 'bt', 'e', 'g', 'gt', 'gn', 'hi', 'det', 'deti', 'sg', 'sgi', 'ct', 'orth', 'cart']
COST = {'torus': 3, 'sphere': 2, 'quad': 5, 'ellipsoid': 10, 'oblate': 10, 'cubic': 10, 'monge': 10, 'shear3': 10, 'parab3': 6, 'paramt': 6}


def cases(tier, rng):
    th = tier == 'thorough'
    out = []
    for k in list(nd.COORDS)+list(EXTRA):
        for _ in range(6 if th else 3):
            out.append({'t': 'metric', 'c': k, 's': rng.randint(0, 10**6), 'cost': COST.get(k, 1), 'timeout': 200, 'slow_ok': True})
    for _ in range(60 if th else 16):
        out.append({'t': 'metric', 'c': 'random', 's': rng.randint(0, 10**6), 'cost': 4, 'timeout': 150, 'slow_ok': True})
    for k in nd.COORDS:
        for _ in range(4 if th else 2):
            kk = ''.join(a for a, _ in nd.COORDS[k][2])
            d = nd.rspace(rng, kk, k, maxN=8)
            out.append({'t': 'space', 'd': d, 'c': k, 's': rng.randint(0, 10**6), 'cost': 2})
    return out


def system(case):
    import sympy as sp
    k = case['c']
    rs = np.random.RandomState(case['s'])
    if k in nd.COORDS:
        c = nd.coords({'coords': k})
        dom = []
        for kind, d in nd.COORDS[k][2]:
            dom.append(d if d is not None else (0, 2*np.pi))
        return c, dom, rs
    if k == 'random':
        n = int(rs.randint(1, 4))
        m = n+int(rs.randint(0, 2)) if n < 3 else 3
        psi = tuple(sp.Symbol(q, real=True) for q in 'xyz'[:n])
        rv = []
        for a in range(m):
            e = psi[a] if a < n else 0
            for _ in range(2 if n < 3 else 1):
                t = sp.Rational(int(rs.randint(1, 4)), 8)*(-1)**int(rs.randint(2))
                i, j = rs.randint(n), rs.randint(n)
                e = e+t*(psi[i]*psi[j] if n < 3 or a == 0 else psi[i])
            rv.append(e)
        return (psi, tuple(rv)), [(-.6, .6)]*n, rs
    names, rv, dom, ass = EXTRA[k]
    names = names.split(',')
    psi = tuple(sp.Symbol(q, real=True) for q in 'xyz'[:len(names)])
    loc = dict(zip(names, psi))
    loc['a'] = sp.Symbol('a', real=True, positive=True)
    rv = tuple(sp.sympify(r, locals=loc) for r in rv)
    if ass:
        q = True
        for t in ass.split(','):
            q = q & sp.Q.positive(sp.sympify(t, locals=loc))
        return (psi, rv, q), dom, rs
    return (psi, rv), dom, rs


def get(C, what):
    import sympy as sp
    f = {'b': lambda: C.get_covariant_basis(), 'bt': lambda: C.get_contravariant_basis(), 'e': lambda: C.get_normal_basis(),
         'g': lambda: C.get_covariant_metric_tensor(), 'gt': lambda: C.get_contravariant_metric_tensor(), 'gn': lambda: C.get_normal_metric_tensor(),
         'hi': lambda: C.get_scaling_factors(), 'det': lambda: np.array(C.get_det_g()), 'deti': lambda: np.array(C.get_det_g(False)),
         'sg': lambda: np.array(C.get_sqrt_det_g()), 'sgi': lambda: np.array(C.get_sqrt_det_g(False)), 'ct': lambda: C.get_christoffel_second(),
         'orth': lambda: C.is_orthogonal, 'cart': lambda: C.is_cartesian}[what]
    return f()


def truth(psi, rv, X):
    """all quantities at the points X[n, npts] from the position vector"""
    import sympy as sp
    n, m = len(psi), len(rv)
    npt = X.shape[1]

    def ev(e):
        return np.broadcast_to(np.asarray(sp.lambdify(psi, e, 'numpy')(*X), dtype=float), (npt,))
    b = np.array([[ev(sp.diff(r, p)) for r in rv] for p in psi])
    db = np.array([[[ev(sp.diff(r, p, q)) for r in rv] for q in psi] for p in psi])    # db[i, j, a] = d_j b_i
    g = np.einsum('iap,jap->ijp', b, b)
    gt = np.moveaxis(np.linalg.inv(np.moveaxis(g, -1, 0)), 0, -1)
    bt = np.einsum('ijp,jap->iap', gt, b)
    h = np.sqrt(np.array([g[i, i] for i in range(n)]))
    e = b/h[:, None]
    det = np.linalg.det(np.moveaxis(g, -1, 0))
    ct = np.einsum('kap,ijap->kijp', bt, db)
    x = np.array([ev(r) for r in rv])
    return {'b': b, 'bt': bt, 'e': e, 'g': g, 'gt': gt, 'gn': np.einsum('iap,jap->ijp', e, e), 'hi': h, 'det': det, 'deti': 1/det, 'sg': np.sqrt(det),
            'sgi': 1/np.sqrt(det), 'ct': ct, 'x': x}


def numeric(psi, A, X):
    import sympy as sp
    A = np.array(A, dtype=object)
    out = np.zeros(A.shape+(X.shape[1],))
    for i in np.ndindex(*A.shape):
        f = sp.lambdify(psi, sp.sympify(A[i]), 'numpy')
        v = np.asarray(f(*X.astype(complex)))
        out[i] = np.broadcast_to(v.real, (X.shape[1],))
        if np.max(np.abs(v.imag), initial=0) > 1e-9:
            raise ValueError('complex valued')
    return out


def compare(mon, C, psi, T, X, lab, what, tag):
    if what in ('orth', 'cart'):
        got = get(C, what)
        n, m = len(T['g']), T['b'].shape[1]
        off = max([np.max(np.abs(T['g'][i, j])) for i in range(n) for j in range(n) if i != j] or [0])
        want = off < 1e-10
        if what == 'cart':
            want = want and n == m and np.max(np.abs(T['hi']-1)) < 1e-10
        mon.check(bool(got) == bool(want), '%s:%s%s' % (what, lab, tag), lambda: 'is_%s gives %s' % (what, got))
        mon.event('flags')
        return
    try:
        got = numeric(psi, get(C, what), X)
    except ValueError as e:
        mon.fail('%s:%s%s' % (what, lab, tag), 'complex valued')
        return
    want = T[what]
    if not mon.check(got.shape == want.shape, 'shape:%s:%s' % (what, lab), lambda: '%s %s' % (got.shape, want.shape)):
        return
    sc = np.max(np.abs(want))+np.max(np.abs(T['bt']))*np.max(np.abs(T['b']))
    mon.close(got, want, 1e-9, '%s:%s%s' % (what, lab, tag), '', scale=sc)
    mon.event('metric-values', got.size)


def run(case, mon):
    import sympy as sp
    import shenfun as sf
    from shenfun.coordinates import Coordinates
    if case['t'] == 'space':
        return run_space(case, mon)
    c, dom, rs = system(case)
    psi, rv = c[0], c[1]
    k = case['c']
    X = np.array([a+(b-a)*(.05+.9*rs.random_sample(6)) for a, b in dom])
    a = sp.Symbol('a', real=True, positive=True)
    par = any(r.has(a) for r in rv)
    order = list(GETTERS)
    rs.shuffle(order)
    if k == 'random':
        order = [o for o in order if o not in ('deti', 'sgi')]

    def fresh():
        return Coordinates(*c)
    val = sp.Rational(3, 4) if par else None
    rvn = [r.subs(a, val) for r in rv] if par else rv
    T = truth(psi, rvn, X)
    if np.min(np.abs(T['det'])) < 1e-8:
        raise Skip('singular map')
    if k == 'random' and np.min(np.linalg.svd(np.moveaxis(T['b'], -1, 0), compute_uv=False)) < .05:
        raise Skip('singular map')
    C = fresh()
    if par:
        # some quantities are computed before the parameter is given a value
        for w in order[:rs.randint(0, len(order))]:
            get(C, w)
        C.subs(a, val)
        mon.event('substitutions')
    for w in order:
        compare(mon, C, psi, T, X, k, w, ':subs' if par else '')
    # histories: repeated use, text output and other systems in between change nothing
    if not par and len(rv) < 4:
        C.latex_basis_vectors(kind=['normal', 'covariant', 'contravariant'][rs.randint(3)], replace=[(sp.sin, sp.cos)] if rs.randint(2) else None)
        str(C.coordinates)
        for w in [order[i] for i in rs.randint(0, len(order), 4)]:
            compare(mon, C, psi, T, X, k, w, ':after')
        mon.event('histories')
    mon.seen(k, tuple(order[:3]))


def run_space(case, mon):
    import sympy as sp
    import shenfun as sf
    d = case['d']
    rs = np.random.RandomState(case['s'])
    k = case['c']
    c = nd.coords(d)
    psi, rv = c[0], c[1]
    if len(d['bases']) == 1:
        import p04
        T = p04.buildc(d['bases'][0], c)
        ms = [(T, None)]
    else:
        T = nd.build(d)
        ms = [(T, None), (T.get_dealiased(), 'dealiased'), (T.get_orthogonal(), 'orthogonal'), (T.get_refined(2), 'refined'),
              (sf.VectorSpace(T), 'vector'), (T.get_testspace('G') if hasattr(T, 'get_testspace') and False else T, None)]
    for S, tag in ms:
        C = S.coors
        mon.check(not C.is_cartesian or k in (), 'coors-kept:%s:%s' % (k, tag), 'Cartesian')
        for kind in ('quadrature', 'uniform'):
            if len(d['bases']) == 1:
                xs = [np.asarray(S.mesh(kind=kind))]
                got = S.cartesian_mesh(kind=kind)
                got = [got] if isinstance(got, np.ndarray) else got
                cl = S.local_cartesian_mesh(kind=kind) if hasattr(S, 'local_cartesian_mesh') else None
            else:
                S0 = S[0] if tag == 'vector' else S
                xs = [np.asarray(x) for x in S0.mesh(kind=kind)]
                got = S0.cartesian_mesh(kind=kind)
                cl = S0.local_cartesian_mesh(kind=kind)
            for G in (got, cl):
                if G is None:
                    continue
                shp = np.broadcast_shapes(*[x.shape for x in xs])
                mon.check(len(G) == len(rv), 'mesh-length:%s' % k, str(len(G)))
                for q, r in zip(G, rv):
                    want = np.broadcast_to(np.asarray(sp.lambdify(psi, r)(*xs), dtype=float), shp)
                    q = np.asarray(q, dtype=float)
                    mon.close(np.broadcast_to(q, shp) if q.ndim else np.broadcast_to(q, shp), want, 1e-13, 'cartesian-mesh:%s:%s' % (k, kind), str(tag), scale=1+np.max(np.abs(want)))
                    mon.event('mesh-points', want.size)
    mon.seen('space', k, d['dtype'])


RULE = 'distinct (coordinate system, order in which the quantities were first requested) compared with numerical values from the position vector'
if __name__ == '__main__':
    vh.main('P06', cases, run, RULE)
