"""P05 - vector calculus operators equal their symbolic definitions."""
from common import vh, Skip
import numpy as np
import nd
import spaces

CART = {'P': ('PO',), 'F': ('F',)}
# chains: rank of the argument -> names of expressions
CH = {0: ['grad', 'lap', 'dx', 'dx2', 'curlgrad', 'gradlap', 'gradgrad', 'divsgrad', 'lin', 'bilap'],
      1: ['div', 'curl', 'curlcurl', 'graddiv', 'grad', 'divgrad', 'divcurl', 'lin', 'dxi', 'scal', 'ddiv'],
      2: ['div', 'divdiv']}


def cases(tier, rng):
    th = tier == 'thorough'
    out = []

    def one(t, kinds, coords, **k):
        mx = {1: 12, 2: 8, 3: 7}[len(kinds)]
        kk = kinds.replace('P', 'O')
        d = nd.rspace(rng, kk, coords, maxN=mx, dtype='d', fams=['chebyshev', 'legendre', 'chebyshevu', 'jacobi', 'ultraspherical'])
        for b in d['bases']:
            b['N'] = max(b['N'], 6)
        out.append(dict({'t': t, 'd': d, 's': rng.randint(0, 10**6), 'lab': (coords or 'cart')+':'+(kinds if not coords else ''),
                         'timeout': 300 if th else 120, 'slow_ok': True}, **k))

    for c in list(nd.COORDS):
        kk = ''.join(a for a, _ in nd.COORDS[c][2])
        n = len(kk)
        for bv in ('normal', 'covariant'):
            for rank in (0, 1, 2):
                if n == 1 and rank > 0:
                    continue
                for op in CH[rank]:
                    if n == 1 and op in ('curlgrad', 'gradgrad'):
                        continue
                    if c in ('sphere', 'torus') and op in ('curlcurl',):
                        continue       # curl of a vector tangent to a surface is a scalar
                    if n == 2 and op in ('divcurl', 'curlcurl'):
                        continue
                    if not th and op in ('bilap', 'gradlap', 'divsgrad', 'ddiv', 'divdiv', 'dx2', 'dxi') and rng.random() < .6:
                        continue
                    heavy = op in ('bilap', 'gradlap', 'divgrad', 'divdiv', 'gradgrad', 'curlcurl') and c in ('spherical', 'torus', 'sphere', 'quad', 'parabolic', 'cylinder', 'cylinderp', 'skew3')
                    if heavy and not th and op == 'bilap':
                        continue
                    if not th and n > 1 and rng.random() < (.75 if c == 'spherical' else .55 if heavy or op == 'lin' else .3):
                        continue
                    one('op', kk, c, rank=rank, op=op, bv=bv, heavy=heavy, cost=(30 if c == 'spherical' else 10) if heavy else 3 if n == 3 else 1)
    for kk in ('P', 'F', 'PP', 'FF', 'PF', 'FP', 'PPP', 'FFF', 'PFF', 'FPF', 'FFP', 'PPF', 'PFP'):
        n = len(kk)
        for rank in (0, 1, 2):
            if n == 1 and rank > 0:
                continue
            for op in CH[rank]+(['curl', 'divcurl'] if rank == 0 and n == 2 else []):
                if op in ('curlgrad', 'gradgrad') and n == 1 or op in ('divcurl', 'curlcurl') and n == 2 and rank == 1:
                    continue
                if not th and len(kk) == 3 and rng.random() < .5:
                    continue
                one('op', kk, None, rank=rank, op=op, bv='normal', cost=1)
    for kk in ('PP', 'FF', 'PFF', 'FFF', 'FFFF', 'PF'):
        for _ in range(4 if th else 2):
            d = nd.rspace(rng, kk, None, maxN=6, two=True)
            out.append({'t': 'arr', 'd': d, 's': rng.randint(0, 10**6), 'lab': kk, 'cost': 1})
    for c in nd.COORDS:
        kk = ''.join(a for a, _ in nd.COORDS[c][2])
        if len(kk) > 1:
            for bv in ('normal', 'covariant'):
                d = nd.rspace(rng, kk.replace('P', 'O'), c, maxN=8, dtype='d')
                for b in d['bases']:
                    # a node at the coordinate singularity carries no weight
                    b['quad'] = {'GL': {'chebyshev': 'GC', 'legendre': 'LG'}.get(b['fam'])}.get(b['quad'], b['quad']) or b['quad']
                out.append({'t': 'metric', 'd': d, 's': rng.randint(0, 10**6), 'lab': c, 'bv': bv, 'cost': 1})
    return out


def fields(d, rs, syms, n):
    import sympy as sp
    out = []
    for _ in range(n):
        f = 0
        for _ in range(2):
            t = sp.Rational(int(rs.randint(1, 9)), 4)*(-1)**int(rs.randint(2))
            for b, s in zip(d['bases'], syms):
                if b['fam'] == 'fourier':
                    dom = b['domain'] or [0, 2*np.pi]
                    w = 2*sp.pi/sp.nsimplify(dom[1]-dom[0]) if b['domain'] else sp.Integer(1)
                    k = int(rs.randint(0, 3))
                    t = t*(sp.cos(k*w*s) if rs.randint(2) else sp.sin(max(k, 1)*w*s))
                else:
                    t = t*(s**int(rs.randint(0, 4))+sp.Rational(int(rs.randint(-3, 4)), 2))
            f = f+t
        out.append(sp.sympify(f))
    return out


class Truth:
    """tensor calculus through Cartesian components of the embedding space"""

    def __init__(self, psi, rv, bv):
        import sympy as sp
        self.psi = psi
        self.n = len(psi)
        self.rv = [sp.sympify(r) for r in rv]
        self.m = len(rv)
        self.J = sp.Matrix([[sp.diff(r, p) for p in psi] for r in self.rv])
        g = self.J.T*self.J
        self.g = g
        gi = g.inv() if self.n > 1 else sp.Matrix([[1/g[0, 0]]])
        self.Jp = gi*self.J.T           # n x m
        self.sg = sp.sqrt(sp.factor(g.det()))
        self.h = [sp.sqrt(sp.simplify(g[i, i])) for i in range(self.n)] if bv == 'normal' else [sp.S(1)]*self.n
        # the arguments are positive everywhere in the domains used
        pos = lambda e: sp.sympify(e).replace(sp.Abs, lambda a: a)
        self.sg = pos(self.sg)
        self.h = [pos(q) for q in self.h]
        self.sign = 1
        self.sp = sp

    def cart(self, v):
        return [sum(self.J[a, i]/self.h[i]*v[i] for i in range(self.n)) for a in range(self.m)]

    def comp(self, W):
        return [sum(self.Jp[i, a]*W[a] for a in range(self.m))*self.h[i] for i in range(self.n)]

    def d(self, f, b):
        return sum(self.sp.diff(f, p)*self.Jp[j, b] for j, p in enumerate(self.psi))

    def grad0(self, f):
        return self.comp([self.d(f, b) for b in range(self.m)])

    def div1(self, v):
        W = self.cart(v)
        return sum(self.d(W[a], a) for a in range(self.m))

    def tcart(self, T):
        n, m = self.n, self.m
        return [[sum(self.J[a, i]/self.h[i]*self.J[b, j]/self.h[j]*T[i*n+j] for i in range(n) for j in range(n)) for b in range(m)] for a in range(m)]

    def tcomp(self, W):
        n, m = self.n, self.m
        return [sum(self.Jp[i, a]*self.Jp[j, b]*W[a][b] for a in range(m) for b in range(m))*self.h[i]*self.h[j] for i in range(n) for j in range(n)]

    def grad1(self, v):
        W = self.cart(v)
        return self.tcomp([[self.d(W[a], b) for b in range(self.m)] for a in range(self.m)])

    def div2(self, T):
        W = self.tcart(T)
        return self.comp([sum(self.d(W[a][b], b) for b in range(self.m)) for a in range(self.m)])

    def curl1(self, v):
        W = self.cart(v)
        cov = [sum(self.J[a, i]*W[a] for a in range(self.m)) for i in range(self.n)]
        sp = self.sp
        D = sp.diff
        p = self.psi
        if self.n == 2:
            return (D(cov[1], p[0])-D(cov[0], p[1]))/self.sg
        # through Cartesian components
        c = [self.d(W[2], 1)-self.d(W[1], 2), self.d(W[0], 2)-self.d(W[2], 0), self.d(W[1], 0)-self.d(W[0], 1)]
        return [self.sign*q for q in self.comp(c)]

    def curl0(self, f):
        D = self.sp.diff
        return [D(f, self.psi[1]), -D(f, self.psi[0])]


def apply(op, sf, u, T, psi, s0, rank, truth, f):
    """package expression and true components"""
    import sympy as sp
    g, dv, cu, Dx = sf.grad, sf.div, sf.curl, sf.Dx
    E = sf.forms.arguments.Expr
    t = truth
    if rank == 0:
        f = f[0]
        if op == 'grad':
            return g(u), t.grad0(f)
        if op == 'lap':
            return dv(g(u)), t.div1(t.grad0(f))
        if op == 'dx':
            i = int(s0[0] % t.n)
            return Dx(u, i, 1), sp.diff(f, psi[i])
        if op == 'dx2':
            i, j = int(s0[0] % t.n), int(s0[1] % t.n)
            k = 1+int(s0[2] % 3)
            return Dx(Dx(E(u)*psi[i], i, k), j, 1), sp.diff(f*psi[i], psi[i], k, psi[j])
        if op == 'curlgrad':
            return cu(g(u)), [sp.S(0)]*3 if t.n == 3 else sp.S(0)
        if op == 'gradlap':
            return g(dv(g(u))), t.grad0(t.div1(t.grad0(f)))
        if op == 'gradgrad':
            return g(g(u)), t.grad1(t.grad0(f))
        if op == 'bilap':
            return dv(g(dv(g(u)))), t.div1(t.grad0(t.div1(t.grad0(f))))
        if op == 'divsgrad':
            w = 2+psi[0]**2
            return dv(g(u)*w), t.div1([q*w for q in t.grad0(f)])
        if op == 'curl':
            return cu(u), t.curl0(f)
        if op == 'divcurl':
            return dv(cu(u)), sp.S(0)
        if op == 'lin':
            w = psi[-1]
            a = 3*E(u)-Dx(u, 0, 1)*w+(-E(u))*sp.Rational(1, 2)
            a += Dx(u, t.n-1, 2)
            a -= E(u)*psi[0]
            a *= 2
            return a, 2*(3*f-sp.diff(f, psi[0])*w-f/2+sp.diff(f, psi[-1], 2)-f*psi[0])
    elif rank == 1:
        if op == 'div':
            return dv(u), t.div1(f)
        if op == 'curl':
            return cu(u), t.curl1(f)
        if op == 'curlcurl':
            return cu(cu(u)), t.curl1(t.curl1(f))
        if op == 'graddiv':
            return g(dv(u)), t.grad0(t.div1(f))
        if op == 'grad':
            return g(u), t.grad1(f)
        if op == 'divgrad':
            return dv(g(u)), t.div2(t.grad1(f))
        if op == 'divcurl':
            return dv(cu(u)), sp.S(0)
        if op == 'ddiv':
            i = int(s0[0] % t.n)
            return Dx(dv(u), i, 1), sp.diff(t.div1(f), psi[i])
        if op == 'dxi':
            i, j = int(s0[0] % t.n), int(s0[1] % t.n)
            return Dx(E(u[i])*psi[j], j, 2), sp.diff(f[i]*psi[j], psi[j], 2)
        if op == 'lin':
            a = 2*E(u)-g(dv(u))*psi[0]
            a += E(u)*psi[-1]
            a -= -g(dv(u))
            gd = t.grad0(t.div1(f))
            return a, [2*p-q*psi[0]+p*psi[-1]+q for p, q in zip(f, gd)]
        if op == 'scal':
            tup = tuple(psi[i % t.n]+i for i in range(t.n))
            a = E(u)*tup
            return dv(a), t.div1([q*p for q, p in zip(f, tup)])
    else:
        if op == 'div':
            return dv(u), t.div2(f)
        if op == 'divdiv':
            return dv(dv(u)), t.div1(t.div2(f))
    raise Skip(op)


def fl(e, f):
    f = list(f)
    return [f[e.basis().offset()]] if e.tensor_rank == 0 and len(f) > 1 else f


def difft(f, s):
    import sympy as sp
    return sp.diff(f, *s) if s else f


def lamb(psi, e, X):
    import sympy as sp
    e = e if isinstance(e, (list, tuple)) else [e]
    f = sp.lambdify(psi, list(e), 'numpy', cse=True)
    v = f(*X)
    return np.array([np.broadcast_to(np.asarray(q, dtype=complex), X[0].shape) for q in v]).real


def absscale(psi, e, X, eps=1e-5):
    """size of the terms that cancel: values at the points and nearby"""
    return 0


def run(case, mon):
    import sympy as sp
    import shenfun as sf
    if case['t'] == 'arr':
        return run_arr(case, mon)
    if case['t'] == 'metric':
        return run_metric(case, mon)
    d = case['d']
    rs = np.random.RandomState(case['s'])
    n = len(d['bases'])
    c = nd.coords(d)
    sf.config['basisvectors'] = case['bv']
    bs = [spaces.build(b) for b in d['bases']]
    if n == 1:
        import p04
        T = p04.buildc(d['bases'][0], c) if c else bs[0]
        S0 = bs[0]
    else:
        T = nd.tensor(d, bs)
        S0 = nd.tensor(dict(d, coords=None), [spaces.build(b) for b in d['bases']]) if c else T
    rank = case['rank']
    V, V0 = T, S0
    if rank:
        V, V0 = [{1: sf.VectorSpace, 2: sf.TensorSpace}[rank](q) for q in (V, V0)]
    psi = T.coors.psi
    rv = c[1] if c else psi
    lab = case['lab'].split(':')[0]+':%d:%s' % (rank, case['op'])
    cl = '%s %s' % (case['bv'], [b['N'] for b in d['bases']])
    truth = Truth(psi, rv, case['bv'])
    f = fields(d, rs, psi, n**rank)
    P = []
    for b, s in zip(d['bases'], T.bases if n > 1 else [T]):
        a, e = [float(q) for q in s.domain]
        P.append(a+(e-a)*(0.1+.8*rs.random_sample(5)))
    P = np.array(P)
    if c and n == 3:
        det = float(np.linalg.det(np.array(truth.J.subs(dict(zip(psi, P[:, 0]))), dtype=float)))
        truth.sign = 1 if det > 0 else -1
    s0 = rs.randint(0, 100, 4)
    u = sf.Function(V)
    ex, want = apply(case['op'], sf, u, V, psi, s0, rank, truth, f)
    W = lamb(psi, want, P)
    # the magnitude of the individual terms of the expression
    got = ex.tosympy(basis=fl(ex, f), psi=psi)
    G = lamb(psi, got, P)
    sc = 0.
    for vec, ind, scl in zip(ex.terms(), ex.indices(), ex.scales()):
        for tm, k, q in zip(vec, ind, scl):
            b = sp.sympify(q)*difft(f[k], [psi[j] for j, l in enumerate(tm) for _ in range(l)])
            sc = max(sc, float(np.max(np.abs(lamb(psi, b, P)))))
    fs = 1e-3+np.max(np.abs(lamb(psi, f, P)))
    sc = max(sc, np.max(np.abs(W)), fs)
    mon.check(G.shape == W.shape, 'shape:'+lab, lambda: '%s %s' % (G.shape, W.shape))
    if G.shape == W.shape:
        mon.event('symbolic-values', G.size)
        mon.close(G, W, 1e-9, 'symbolic:'+lab, cl, scale=sc)
    mon.seen(lab, case['bv'], case['d']['coords'] or case['lab'])
    # test and trial functions give the same expression
    heavy = case.get('heavy')
    for cls in () if heavy else [(sf.TrialFunction, sf.TestFunction)[case['s'] % 2]]:
        v = cls(V)
        e2 = apply(case['op'], sf, v, V, psi, s0, rank, Null(n), f)[0]
        G2 = lamb(psi, e2.tosympy(basis=fl(e2, f), psi=psi), P)
        mon.event('argument-values', G2.size)
        if not mon.check(G2.shape == G.shape and np.allclose(G2, G, rtol=1e-12, atol=1e-12*sc), 'argument:'+lab,
                         lambda: '%s %s differs from Function' % (cl, cls.__name__)):
            break
    # evaluation of the expression of an actual function
    u0 = sf.Function(V0)
    xs = S0.mesh() if n > 1 else [S0.mesh()]
    a = sf.Array(V0)
    av = np.array(a).reshape((-1,)+a.shape[-n:]) if rank else np.array(a)[None]
    for i in range(len(f)):
        av[i] = lamb(psi, f[i], [np.broadcast_to(x, av[i].shape) for x in xs])[0]
    a[:] = av.reshape(a.shape)
    u0 = a.forward(u0)
    u[:] = np.array(u0)
    before = np.array(u).copy()
    es = [ex] if ex.num_components() == 1 else None
    if es is None:
        if ex.num_components() == n:
            es = [ex[i] for i in range(n)]
        elif ex.num_components() == n*n:
            es = [ex[i][j] for i in range(n) for j in range(n)]
        else:
            es = []
    dmax = max([int(np.sum(tm)) for vec in ex.terms() for tm in vec] or [0])
    # differentiation in spectral space amplifies rounding
    amp = 1.
    for b in d['bases']:
        dm = b['domain'] or [-1, 1]
        amp = max(amp, b['N']**2*2/abs(dm[1]-dm[0]))
    sc2 = sc+np.max(np.abs(np.array(a)))*amp**dmax*1e-3
    for i, e in enumerate(es):
        try:
            r = e.eval(P.copy() if n > 1 else P[0].copy())
        except NotImplementedError as ee:
            mon.skip('eval not implemented')
            break
        r = np.array(r)
        mon.event('eval-values', r.size)
        mon.close(r, W[i], 1e-9, 'eval:'+lab, '%s component %d' % (cl, i), scale=sc2)
    mon.check(np.array_equal(before, np.array(u)), 'operand:'+lab, 'function changed')
    if heavy:
        return
    # a second application gives the same (no state shared between expressions)
    ex2, _ = apply(case['op'], sf, u, V, psi, s0, rank, Null(n), f)
    G3 = lamb(psi, ex2.tosympy(basis=fl(ex2, f), psi=psi), P)
    mon.check(np.allclose(G3, G, rtol=1e-12, atol=1e-12*sc), 'again:'+lab, lambda: '%s second application differs' % cl)
    G4 = lamb(psi, ex.tosympy(basis=fl(ex, f), psi=psi), P)
    mon.check(np.array_equal(G4, G), 'alias:'+lab, lambda: '%s earlier expression changed' % cl)
    mon.event('repeats')


class Null:
    """stands in for Truth where only the package expression is wanted"""

    def __init__(self, n):
        self.n = n

    def __getattr__(self, name):
        return lambda *a: [0]*9 if name in ('grad0', 'grad1', 'div2', 'curl0', 'curl1') else 0


def run_arr(case, mon):
    """products of arrays: cross, outer, dot"""
    import shenfun as sf
    from shenfun.utilities import cross, outer, dot
    d = case['d']
    rs = np.random.RandomState(case['s'])
    T = nd.build(d)
    V = sf.VectorSpace(T)
    n = len(d['bases'])
    lab = case['lab']

    def rnd(a):
        q = rs.standard_normal(a.shape)
        if np.iscomplexobj(a):
            q = q+1j*rs.standard_normal(a.shape)
        a[:] = q
        return a
    for mode in ('', 'cython', 'numba'):
        sf.config['optimization']['mode'] = mode
        a, b = rnd(sf.Array(V)), rnd(sf.Array(V))
        A, B = np.array(a), np.array(b)
        if n in (2, 3):
            c = sf.Array(V if n == 3 else T)
            c[:] = 7
            r = cross(c, a, b)
            want = np.cross(A, B, axis=0) if n == 3 else A[0]*B[1]-A[1]*B[0]
            mon.close(np.array(c), want, 1e-13, 'cross:%s:%s' % (lab, mode), '', scale=10.)
            mon.check(r is c, 'cross-returns:'+lab, '')
            TT = sf.TensorSpace(T)
            for p, q in ((a, b), (a, a)):
                o = sf.Array(TT)
                o[:] = 9
                outer(p, q, o)
                P, Q = np.array(p), np.array(q)
                want = np.array([P[i]*Q[j] for i in range(n) for j in range(n)])
                mon.close(np.array(o).reshape(want.shape), want, 1e-13, 'outer:%s:%s%s' % (lab, mode, ':same' if p is q else ''), '', scale=10.)
                mon.event('products', want.size)
        dd = sf.Array(T)
        r = dot(a, b, output_array=dd)
        want = np.sum(A*B, axis=0)
        mon.close(np.array(r), want, 1e-13, 'dot:%s' % lab, '', scale=10.)
        if n in (2, 3):
            TT = sf.TensorSpace(T)
            t = rnd(sf.Array(TT))
            tA = np.array(t).reshape((n, n)+A.shape[1:])
            o = dot(t, b, output_array=sf.Array(V))
            mon.close(np.array(o), np.einsum('ij...,j...->i...', tA, B), 1e-13, 'dot21:%s' % lab, '', scale=10.)
            o = dot(a, t, output_array=sf.Array(V))
            mon.close(np.array(o), np.einsum('i...,ij...->j...', A, tA), 1e-13, 'dot12:%s' % lab, '', scale=10.)
        mon.event('products', want.size)
        mon.check(np.array_equal(A, np.array(a)) and np.array_equal(B, np.array(b)), 'operand:products:'+lab, '')
        mon.seen('products', lab, mode, d['dtype'])


def run_metric(case, mon):
    """dot products and Cartesian components of arrays in curvilinear coordinates"""
    import shenfun as sf
    from shenfun.utilities import dot
    d = case['d']
    sf.config['basisvectors'] = case['bv']
    rs = np.random.RandomState(case['s'])
    T = nd.build(d)
    V, TT = sf.VectorSpace(T), sf.TensorSpace(T)
    n = len(d['bases'])
    c = nd.coords(d)
    X = np.meshgrid(*[np.asarray(x).ravel() for x in T.mesh()], indexing='ij')
    g, sg, J = nd.metric(c, X)
    J = np.array([[J[a][i] for i in range(n)] for a in range(len(J))])
    h = np.sqrt(np.array([g[i, i] for i in range(n)])) if case['bv'] == 'normal' else np.ones((n,)+X[0].shape)
    B = J/h[None]                     # B[a, i] Cartesian components of basis vector i
    G = np.einsum('ai...,aj...->ij...', B, B)
    u, v, t = sf.Array(V), sf.Array(V), sf.Array(TT)
    for a in (u, v, t):
        a[:] = rs.standard_normal(a.shape)
    U, W = np.array(u), np.array(v)
    Q = np.array(t).reshape((n, n)+X[0].shape)
    lab = case['lab']
    r = dot(u, v, output_array=sf.Array(T))
    mon.close(np.array(r), np.einsum('i...,ij...,j...->...', U, G, W), 1e-12, 'dot:'+lab, case['bv'], scale=10*np.max(np.abs(G)))
    r = dot(t, v, output_array=sf.Array(V))
    mon.close(np.array(r), np.einsum('ij...,jk...,k...->i...', Q, G, W), 1e-12, 'dot21:'+lab, case['bv'], scale=10*np.max(np.abs(G)))
    r = dot(u, t, output_array=sf.Array(V))
    mon.close(np.array(r), np.einsum('i...,ij...,jk...->k...', U, G, Q), 1e-12, 'dot12:'+lab, case['bv'], scale=10*np.max(np.abs(G)))
    mon.event('products', 3*r.size)
    if case['bv'] == 'normal' and sf.config['basisvectors'] == 'normal' or True:
        r = np.array(u.get_cartesian_vector())
        mon.close(r, np.einsum('ai...,i...->a...', B, U), 1e-12, 'cartesian-vector:'+lab, case['bv'], scale=10*np.max(np.abs(B)))
        mon.event('cartesian-vectors', r.size)
    mon.check(np.array_equal(U, np.array(u)) and np.array_equal(W, np.array(v)), 'operand:dot:'+lab, '')
    # functions of low degree: the dealiased product is the product
    sm = [min(b['N'], 4) for b in d['bases']]
    uh, vh_ = sf.Function(V), sf.Function(V)
    r = nd.RefND(d, T)
    for q in (uh, vh_):
        a = np.zeros(q.shape, dtype=q.dtype)
        for i in range(n):
            f = nd.rand_coeffs(T, r, rs)
            a[i] = np.array(f)
        q[:] = a
    P, R = V.backward(uh, sf.Array(V)), V.backward(vh_, sf.Array(V))
    o = dot(uh, vh_, output_array=sf.Array(T))
    mon.close(np.array(o), np.einsum('i...,ij...,j...->...', np.array(P), G, np.array(R)), 1e-11, 'dot-functions:'+lab, case['bv'],
              scale=np.max(np.abs(G))*(1e-3+np.max(np.abs(np.array(P)))*np.max(np.abs(np.array(R)))))
    # dealiased: values on the padded mesh
    o = dot(uh, vh_)
    Tp = T.get_orthogonal().get_dealiased()
    Vp = V.get_dealiased()
    P, R = Vp.backward(uh, sf.Array(Vp)), Vp.backward(vh_, sf.Array(Vp))
    X = np.meshgrid(*[np.asarray(x).ravel() for x in Vp.mesh()[-n:]], indexing='ij')
    g, sg, J = nd.metric(c, X)
    J = np.array([[J[a][i] for i in range(n)] for a in range(len(J))])
    h = np.sqrt(np.array([g[i, i] for i in range(n)])) if case['bv'] == 'normal' else np.ones((n,)+X[0].shape)
    B = J/h[None]
    G = np.einsum('ai...,aj...->ij...', B, B)
    w = sf.Array(Tp)
    w[:] = np.einsum('i...,ij...,j...->...', np.array(P), G, np.array(R))
    w = Tp.forward(w, sf.Function(Tp))
    mon.close(np.array(o), np.array(w), 1e-10, 'dot-dealiased:'+lab, case['bv'],
              scale=np.max(np.abs(G))*(1e-3+np.max(np.abs(np.array(P)))*np.max(np.abs(np.array(R)))))
    mon.event('products', o.size)
    mon.seen('metric', lab, case['bv'])


RULE = ('distinct (operator chain, rank, coordinate system, basis vector convention) whose expression was compared with tensor calculus done '
        'in Cartesian components of the embedding space')
if __name__ == '__main__':
    vh.main('P05', cases, run, RULE)
