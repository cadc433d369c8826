"""P17: histories of public operations; operands stay intact, results do not depend on the history.

Every operation of a history is also executed alone, in a forked process that has done nothing else; the parent never executes operations."""
import importlib
import os
import pickle
import random
import traceback
import numpy as np
import common  # noqa: F401
import vh
import nd
import spaces

RULE = ('every live operand (arrays, coefficients, points, expressions, matrices, spaces) is bit-identical before and after every operation not documented as in-place; '
        'repeating an operation in one history gives the same results (bit-identical repeats are counted, 1e-12 is required: memory alignment moves the last bit); the result in a history equals the result of the operation executed alone in a fresh process (relative 1e-9)')

TOL = 1e-9


def mk1(rng):
    c = rng.random()
    if c < .15:
        return nd.rbase(rng, 'F', True, real=rng.random() < .5)
    fam = rng.choice(['chebyshev', 'legendre']*5+['chebyshevu']*2+['jacobi', 'ultraspherical', 'laguerre', 'hermite'])
    return nd.rbase(rng, 'E', True, fams=[fam], inhom=.5)


def variant(rng, b):
    """another space that shares most of what a cache could be keyed by"""
    b = dict(b)
    k = rng.choice(['domain', 'quad', 'bcv', 'N', 'cls', 'same', 'dtype'])
    if b['fam'] == 'fourier':
        if k == 'domain':
            b['domain'] = rng.choice([None, [0, 3], [-1, 2.5]])
        return b
    if k == 'domain' and b['fam'] not in ('laguerre', 'hermite'):
        b['domain'] = rng.choice([None, [0, 3], [-1, 2.5], [-2, -1]])
    elif k == 'quad' and b['fam'] in spaces.QUADS:
        b['quad'] = rng.choice([q for q in spaces.QUADS[b['fam']] if (b['fam'], q) != ('chebyshev', 'GU')])
    elif k == 'bcv':
        b['bcv'] = [rng.choice([0, 1, -2.5]) for _ in b['bcv']]
    elif k == 'N':
        b['N'] = b['N']+rng.choice([1, 2])
    elif k == 'cls':
        b['cls'] = rng.choice(nd.LIGHT[b['fam']])
        b['bcv'] = [rng.choice([0, 1.5]) for _ in range(spaces.nboundary(b))]
        b['N'] = max(b['N'], 9)
    return b


def rworld(rng, dim):
    ds = []
    if dim == 1:
        b = mk1(rng)
        b['N'] = max(b['N'], 7)
        ds.append({'bases': [b]})
        for _ in range(rng.choice([1, 2, 3])):
            ds.append({'bases': [variant(rng, rng.choice(ds)['bases'][0])]})
    else:
        kinds = rng.choice({2: ['FP', 'PF', 'FF', 'PP', 'FB', 'BF'], 3: ['FFP', 'FPF', 'PFF', 'FFF', 'FFB', 'FBF']}[dim])
        crd = rng.choice([None, None, 'polar', 'skew', 'stretch']) if dim == 2 and kinds in ('PF', 'BF') else None
        d = nd.rspace(rng, kinds, coords=crd, maxN=10 if dim == 2 else 6, inhom=.4, **({} if rng.random() < .15 else {'fams': ['chebyshev', 'legendre']}))
        ds.append(d)
        for _ in range(rng.choice([1, 1, 2])):
            e = {**d, 'bases': [dict(b) for b in d['bases']]}
            if rng.random() < .7:
                i = rng.randrange(dim)
                if not crd:
                    old = e['bases'][i]
                    e['bases'][i] = variant(rng, old)
                    if sum(any(b['bcv']) for b in e['bases']) > 1:
                        e['bases'][i]['bcv'] = [0]*len(e['bases'][i]['bcv'])
            ds.append(e)
    for d in ds:
        d['comp'] = rng.random() < .25
    return ds


OPS1 = ['vander', 'evalbasis', 'points', 'masses', 'recursive']
OPS = ['forward', 'forward', 'backward', 'backward', 'scalar', 'to_ortho', 'eval', 'refine', 'copy', 'dealias', 'dealiasdirect', 'nyquist', 'innerlin', 'innerlin2', 'bilinear', 'bilinear2',
       'matvec', 'solve', 'solve', 'dx', 'project', 'grad', 'arith', 'fnarith', 'buffer', 'homog', 'ortho', 'testspace', 'unplanned', 'mesh', 'wavenumbers', 'norm', 'fbackward', 'fpad',
       'refined', 'weights', 'measured', 'bcs', 'cartesian', 'mulfield', 'dims', 'adaptive', 'outer', 'solvelist', 'assembled', 'expreval', 'padforward', 'masksp']


def cases(tier, rng):
    T = tier == 'thorough'
    out = []
    for dim, n, L in ((1, 600 if T else 90, 60), (2, 500 if T else 70, 40), (3, 160 if T else 16, 26)):
        for _ in range(n):
            ds = rworld(rng, dim)
            s = rng.randint(0, 10**6)
            r = random.Random(s)
            pool = [(o, i) for o in OPS+(OPS1 if dim == 1 else []) for i in range(len(ds))]
            # a small set of operations in a long history with repeats
            sub = r.sample(pool, min(len(pool), 22 if T else 12))
            h = [r.choice(sub) for _ in range(L if T else L*2//3)]
            out.append({'dim': dim, 'ds': ds, 's': s, 'h': [list(q) for q in h], 'cost': {1: 6, 2: 14, 3: 20}[dim], 'slow_ok': 1})
    return out


class World:
    def __init__(self, case, only=None):
        import shenfun as sf
        self.sf = sf
        self.dim = case['dim']
        self.case = case
        self.T = {}
        self.lazy = {}
        for i in range(len(case['ds'])) if only is None else [only]:
            d = case['ds'][i]
            if self.dim == 1:
                T = spaces.build(d['bases'][0])
            else:
                T = nd.build(d)
            if d.get('comp') and not getattr(T, 'has_nonhomogeneous_bcs', False):
                T = sf.CompositeSpace([T, T]) if self.dim > 1 else sf.MixedFunctionSpace([T, T])
            self.T[i] = T

    def get(self, key, make):
        if key not in self.lazy:
            self.lazy[key] = make()
        return self.lazy[key]

    def rs(self, i, tag):
        return np.random.default_rng([self.case['s'], i, sum(map(ord, tag))])

    def scalar(self, i):
        T = self.T[i]
        return T.flatten()[0] if isinstance(T, (self.sf.CompositeSpace, self.sf.MixedFunctionSpace)) else T

    def u(self, i):
        def make():
            u = self.sf.Array(self.T[i])
            r = self.rs(i, 'u')
            u[...] = r.standard_normal(u.shape)
            return u
        return self.get(('u', i), make)

    def uh(self, i):
        def make():
            T = self.T[i]
            u = self.sf.Function(T)
            r = self.rs(i, 'u')
            a = np.array(T.forward(self.u(i).copy(), self.sf.Function(T)))
            u[...] = a
            u.set_boundary_dofs()
            return u
        return self.get(('uh', i), make)

    def pts(self, i):
        def make():
            r = self.rs(i, 'p')
            bs = self.scalar(i).bases if self.dim > 1 else [self.scalar(i)]
            P = []
            for b in bs:
                d = b.domain
                lo, hi = float(d[0]) if np.isfinite(float(d[0])) else -1., float(d[1]) if np.isfinite(float(d[1])) else 1.5
                P.append(r.uniform(lo, hi, 5))
            return np.array(P) if self.dim > 1 else P[0]
        return self.get(('p', i), make)

    def expr(self, i):
        sf = self.sf
        return self.get(('e', i), lambda: sf.div(sf.grad(self.uh(i))))

    def trial(self, i):
        sf = self.sf
        return self.get(('t', i), lambda: sf.div(sf.grad(sf.TrialFunction(self.scalar(i)))))

    def mats(self, i):
        sf = self.sf

        def make():
            S = self.scalar(i)
            A = sf.inner(sf.TestFunction(S), self.trial(i))
            B = sf.inner(sf.TestFunction(S), sf.TrialFunction(S))
            A = list(A) if isinstance(A, list) else [A]
            B = list(B) if isinstance(B, list) else [B]
            for b in B:
                b.scale = b.scale*(-3.)
            return A+B
        return self.get(('A', i), make)

    def snap(self):
        out = {}
        for k, v in self.lazy.items():
            if k[0] in ('u', 'uh', 'p'):
                out[k] = np.array(v).tobytes()
            elif k[0] in ('e', 't'):
                out[k] = repr([v.terms(), v.scales(), v.indices()])
            elif k[0] == 'A':
                o = [len(v)]
                for m in v:
                    o.append(matsnap(m))
                out[k] = repr(o)
        for i, T in self.T.items():
            S = self.scalar(i)
            o = [S.shape(False), S.shape(True), S.dim(), str(T.dtype), len(T.flatten()) if S is not T else 1]
            for b in (S.bases if self.dim > 1 else [S]):
                o += [b.N, tuple(float(q) for q in b.domain), b.padding_factor if not isinstance(b.padding_factor, (list, tuple, np.ndarray)) else tuple(b.padding_factor), b.quad, type(b).__name__, repr(b.bc.bcs if getattr(b, 'bc', None) is not None and b.bc else None),
                      str(b.slice()), str(b.dealias_direct)]
            out[('T', i)] = repr(o)
        return out


def matsnap(m):
    import shenfun as sf
    if hasattr(m, 'mats'):
        sc = np.array(m.scale)
        return (sc.tobytes(), sc.shape, [matsnap(q) for q in m.mats])
    return (repr(m.scale), np.array(m.diags('csr').toarray() if m.shape[0] else 0).tobytes())


def arr(x):
    x = np.array(x)
    return x


def ops(W, name, i):
    """returns list of arrays"""
    sf = W.sf
    T = W.T[i]
    S = W.scalar(i)
    comp = S is not T
    dim = W.dim
    F, A = sf.Function, sf.Array
    R = W.rs(i, name)
    if name == 'forward':
        u = W.u(i)
        return [T.forward(u, F(T))]
    if name == 'backward':
        return [T.backward(W.uh(i), A(T))]
    if name == 'scalar':
        return [T.scalar_product(W.u(i), F(T))]
    if name == 'fbackward':
        uh = W.uh(i)
        return [uh.backward(), uh.backward(kind='uniform') if dim == 1 and not comp and False else uh.backward()]
    if name == 'fpad':
        return [W.uh(i).backward(padding_factor=1.5), W.uh(i).backward(padding_factor=[1.5]*dim if dim > 1 else 2.0)]
    if name == 'to_ortho':
        return [W.uh(i).to_ortho()]
    if name == 'eval':
        P = W.pts(i)
        if comp:
            return [W.uh(i)[0].copy()]
        return [T.eval(P, W.uh(i)), W.uh(i).eval(P)]
    if name == 'refine':
        N = [b+3 for b in S.global_shape()] if dim > 1 else S.N+3
        return [W.uh(i).refine(N)]
    if name == 'refined':
        N = [b+2 for b in S.global_shape()] if dim > 1 else S.N+2
        Q = S.get_refined(N)
        v = Q.forward(np.ones(Q.shape(False))*1.0, F(Q)) if not S.family() == 'x' else 0
        return [v]
    if name == 'copy':
        a = W.uh(i).copy()
        a *= 2
        b = W.u(i).copy()
        b += 1
        return [a, b]
    if name == 'dealias':
        P = T.get_dealiased(1.5 if dim == 1 else [1.5]*dim)
        v = P.backward(W.uh(i), A(P))
        return [v, P.forward(v.copy(), F(P))]
    if name == 'dealiasdirect':
        P = T.get_dealiased(1, True)
        return [P.forward(W.u(i), F(P))]
    if name == 'padforward':
        P = T.get_dealiased(2 if dim == 1 else [2]*dim)
        a = A(P)
        a[...] = R.standard_normal(a.shape)
        b = a.copy()
        o = P.forward(a, F(P))
        if not np.array_equal(np.array(a), np.array(b)):
            raise Mutated('input of forward of the padded space')
        return [o]
    if name == 'nyquist':
        v = W.uh(i).copy()
        return [T.get_mask_nyquist() if T.get_mask_nyquist() is not None else 0, v.mask_nyquist(T.get_mask_nyquist())]
    if name == 'masksp':
        return [T.mask_nyquist(W.uh(i).copy())] if hasattr(T, 'mask_nyquist') and not comp else [0]
    if name == 'innerlin':
        return [sf.inner(sf.TestFunction(T), W.u(i))]
    if name == 'innerlin2':
        if comp:
            return [sf.inner(sf.grad(sf.TestFunction(S)), sf.grad(F(S, buffer=np.array(W.uh(i)[0]))))]
        return [sf.inner(sf.TestFunction(T), W.expr(i))]
    if name == 'expreval':
        P = W.pts(i)
        if comp:
            return [0]
        return [(2*W.uh(i)+W.uh(i)).eval(P) if hasattr(2*W.uh(i)+W.uh(i), 'eval') else 0, sf.Dx(W.uh(i), 0, 1).eval(P)]
    if name == 'bilinear':
        out = []
        for m in W.mats(i):
            out += dense(m)
        return out
    if name == 'bilinear2':
        t, v = sf.TrialFunction(S), sf.TestFunction(S)
        q = sf.inner(sf.grad(v), sf.grad(t))
        out = []
        for m in (q if isinstance(q, list) else [q]):
            out += dense(m)
        return out
    if name == 'matvec':
        x = np.array(W.uh(i)[0]) if comp else W.uh(i)
        f = F(S)
        f[...] = x
        return [m.matvec(f, F(S)) for m in W.mats(i)]
    if name in ('solve', 'solvelist'):
        from shenfun.la import Solver, SolverGeneric1ND, Solver2D
        M = list(W.mats(i)) if name == 'solve' else W.mats(i)
        b = F(S)
        b[...] = R.standard_normal(b.shape)
        b0 = np.array(b)
        np_ = sum(1 for q in (S.bases if dim > 1 else [S]) if q.family() != 'fourier')
        if dim == 1:
            s = Solver(M)
        elif np_ <= 1:
            s = SolverGeneric1ND(M)
        elif dim == 2:
            s = Solver2D(M)
        else:
            return [0]
        o = s(b, F(S))
        if not np.array_equal(np.array(b), b0):
            raise Mutated('right hand side of '+type(s).__name__)
        o2 = s(b, F(S))
        if not np.array_equal(np.array(o), np.array(o2), equal_nan=True):
            raise Repeat('second solve of '+type(s).__name__)
        return [o]
    if name == 'dx':
        if comp:
            return [0]
        return [sf.project(sf.Dx(W.uh(i), dim-1, 1), S.get_orthogonal())]
    if name == 'project':
        if comp:
            return [0]
        return [sf.project(W.uh(i), S.get_orthogonal()), sf.project(W.expr(i), S.get_orthogonal()) if dim < 3 else 0]
    if name == 'grad':
        if comp or dim == 1:
            return [0]
        V = sf.VectorSpace(S.get_orthogonal())
        return [sf.project(sf.grad(W.uh(i)), V)]
    if name == 'arith':
        e = W.trial(i)
        a = 2*e
        b = -e
        E = sf.forms.arguments.Expr
        c = e+E(sf.TrialFunction(S))
        d = e-2*E(sf.TrialFunction(S))
        e2 = sf.forms.arguments.Expr(sf.TrialFunction(S))
        e2 *= 3
        s = [str((q.terms(), q.scales(), q.indices())) for q in (a, b, c, d, e2)]
        return [np.frombuffer(''.join(s).encode(), dtype='u1').astype(float)]
    if name == 'fnarith':
        a, b = W.uh(i), W.uh(i)
        c = a+2*b
        d = a*b
        f = -a
        if comp:
            x = a[0]*1.0
            return [np.array(c) if isinstance(c, np.ndarray) else 0, np.array(x)]
        return [q for q in (c, d, f) if isinstance(q, np.ndarray)] or [0]
    if name == 'buffer':
        import sympy
        x = sympy.Symbol('x', real=True)
        if comp or S.coors.is_cartesian is False:
            return [0]
        return [A(S, buffer=sympy.sin(x)), F(S, buffer=sympy.cos(x))]
    if name == 'homog':
        H = S.get_homogeneous()
        return [H.forward(np.array(W.u(i)[0]) if comp else W.u(i), F(H))]
    if name == 'ortho':
        H = S.get_orthogonal()
        return [H.forward(np.array(W.u(i)[0]) if comp else W.u(i), F(H))]
    if name == 'testspace':
        H = S.get_testspace('G')
        a = S.get_testspace('PG')
        return [H.scalar_product(np.array(W.u(i)[0]) if comp else W.u(i), F(H)), np.array(a.shape(False))]
    if name == 'unplanned':
        if dim > 1:
            return [0]
        H = S.get_unplanned()
        q = S.get_unplanned(True) if False else H
        return [np.array(q.shape(False))]
    if name == 'mesh':
        m = T.mesh() if not comp else S.mesh()
        return [np.array(q) for q in (m if isinstance(m, (list, tuple)) else [m])]+([np.array(q) for q in S.local_mesh(True)] if dim > 1 else [])
    if name == 'cartesian':
        m = S.cartesian_mesh()
        return [np.array(q) for q in (m if isinstance(m, (list, tuple)) else [m])]
    if name == 'wavenumbers':
        if dim == 1:
            return [np.array(S.wavenumbers(scaled=s)) if S.family() == 'fourier' else np.array(S.wavenumbers()) for s in (False, True)]
        return [np.array(q) for s in (False, True) for q in S.local_wavenumbers(scaled=s)]
    if name == 'norm':
        return [np.array(sf.inner(1, W.u(i)))]
    if name == 'weights':
        bs = S.bases if dim > 1 else [S]
        return [np.array(b.get_measured_weights(b.N, measure=2 if b.family() == 'fourier' else 3)) for b in bs]
    if name == 'measured':
        bs = S.bases if dim > 1 else [S]
        out = []
        for b in bs:
            x, w = b.points_and_weights(map_true_domain=True)
            out += [np.array(x), np.array(w)]
        return out
    if name == 'bcs':
        v = W.uh(i).copy()
        v.set_boundary_dofs()
        v.set_boundary_dofs()
        return [v]
    if name == 'mulfield':
        w = W.u(i)*W.u(i)
        return [w, T.forward(w, F(T))]
    if name == 'dims':
        return [np.array(T.shape(True)), np.array(T.dim()), np.array(S.dims())]
    if name == 'adaptive':
        if dim > 1 or comp:
            return [0]
        return [np.array([S.get_adaptive(fun=None).N if False else S.N])]
    if name == 'outer':
        if dim == 1 or comp:
            return [0]
        V = sf.VectorSpace(S)
        a = A(V)
        a[...] = R.standard_normal(a.shape)
        b = a.copy()
        c = sf.utilities.outer(a, a, A(sf.CompositeSpace([V]*dim)) if False else None) if False else np.array(sf.utilities.cross(np.zeros_like(a) if dim == 3 else np.zeros_like(a[0]), a, a))
        if not np.array_equal(a, b):
            raise Mutated('cross')
        return [c]
    if name == 'assembled':
        M = W.mats(i)[0]
        B = sf.BlockMatrix(list(W.mats(i)))
        x = F(S)
        x[...] = np.array(W.uh(i)[0]) if comp else W.uh(i)
        return [B.matvec(x, F(S))]
    if name == 'vander':
        x = S.points_and_weights()[0]
        V = S.vandermonde(x)
        return [V, S.evaluate_basis_derivative_all(x, k=1), S.evaluate_basis_all(x)]
    if name == 'evalbasis':
        x = np.array(S.points_and_weights()[0])
        return [S.evaluate_basis(x, i=2), S.evaluate_basis_derivative(x, i=2, k=1)]
    if name == 'points':
        return [np.array(q) for q in S.points_and_weights()]+[np.array(q) for q in S.points_and_weights(S.N+2)]
    if name == 'masses':
        m = S.get_mass_matrix() if hasattr(S, 'get_mass_matrix') else None
        B = sf.inner(sf.TestFunction(S), sf.TrialFunction(S))
        return [q for b in (B if isinstance(B, list) else [B]) for q in dense(b)]
    if name == 'recursive':
        if comp:
            return [0]
        k = ['vandermonde', 'recursive'][int(R.integers(2))] if S.family() != 'fourier' else 'fast'
        return [T.forward(W.u(i), F(T), kind=k), T.backward(W.uh(i), A(T), kind=k)]
    raise ValueError(name)


def dense(m):
    if hasattr(m, 'mats'):
        return [np.array(m.scale, dtype=complex)]+[x for q in m.mats for x in dense(q)]
    return [m.diags('csr').toarray()]


class Mutated(Exception):
    pass


class Repeat(Exception):
    pass


def perform(W, name, i):
    try:
        with np.errstate(all='ignore'):
            r = ops(W, name, i)
        r = [np.array(q) for q in r]
        return ('ok', [q if q.dtype.kind in 'biufc' else np.frombuffer(repr(q.tolist()).encode(), dtype='u1') for q in r])
    except (Mutated, Repeat) as e:
        return (type(e).__name__, str(e))
    except Exception as e:
        return ('exc', '%s: %s' % (type(e).__name__, str(e)[:200]), traceback.format_exc()[-700:])


def child(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = f()
            except Exception as e:
                out = ('world', '%s: %s' % (type(e).__name__, str(e)[:300]), traceback.format_exc()[-900:])
            with os.fdopen(w, 'wb') as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('died', '', '')


def history(case):
    W = World(case)
    log = []
    first = {}
    for k, (name, i) in enumerate(case['h']):
        before = W.snap()
        r = perform(W, name, i)
        after = W.snap()
        ch = [q for q in before if before[q] != after.get(q)]
        e = {'n': name, 'i': i, 'changed': [(q, before[q][:150] if isinstance(before[q], str) else '', after[q][:150] if isinstance(after[q], str) else '') for q in ch]}
        if (name, i) in first:
            a = first[(name, i)]
            if a[0] == r[0] == 'ok':
                e['same'] = len(a[1]) == len(r[1]) and all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc') for x, y in zip(a[1], r[1]))
                e['err'] = relerr(a[1], r[1])
            else:
                e['same'] = a[0] == r[0] and (a[0] == 'ok' or a[1] == r[1])
                e['err'] = (0 if e['same'] else np.inf)
            e['r'] = r if not e['same'] else r[0]
        else:
            first[(name, i)] = r
            e['r'] = r
        log.append(e)
    return ('log', log)


def relerr(a, b):
    if len(a) != len(b):
        return np.inf
    m = 0.
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return np.inf
        if x.size == 0:
            continue
        nx, ny = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(nx, ny):
            return np.inf
        x, y = np.where(nx, x, 0), np.where(ny, y, 0)
        s = max(np.abs(x).max(), np.abs(y).max())
        if s > 0:
            m = max(m, float(np.abs(x-y).max()/s))
    return m


def run(case, mon):
    import shenfun, shenfun.la, shenfun.chebyshev.la, scipy.sparse.linalg  # noqa: F401,E401  imports only
    for d in case['ds']:
        for b in d['bases']:
            importlib.import_module('shenfun.%s.matrices' % b['fam'])
    out = child(lambda: history(case))
    if out[0] != 'log':
        if out[0] == 'died':
            mon.fail('crash', 'history ended the process')
        else:
            mon.skip('world: '+out[1])
            if os.environ.get('DBG'):
                print(out[2], file=__import__('sys').stderr)
        return
    base = {}
    labels = ['+'.join(spaces.label(b) for b in d['bases']) for d in case['ds']]
    seen = set()
    for k, e in enumerate(out[1]):
        key = (e['n'], e['i'])
        name = e['n']
        mon.event('operation:'+name)
        prev = [tuple(q) for q in case['h'][:k+1]]
        for q, b, a in e['changed']:
            mon.fail('operand changed:%s:%s' % (name, q[0]), '%s on %s changed %s of %s: %s -> %s' % (name, labels[e['i']], q[0], labels[q[1]], b, a))
        mon.check(not e['changed'], 'operands', '')
        r = e['r']
        st = r if isinstance(r, str) else r[0]
        if st in ('Mutated', 'Repeat') and not isinstance(r, str):
            mon.fail('%s:%s' % (st.lower(), name), '%s on %s: %s' % (name, labels[e['i']], r[1]))
            continue
        if 'same' in e:
            mon.event('repeat')
            if e['same']:
                mon.event('bit-identical repeat')
            mon.check(e['same'] or e['err'] <= 1e-12, 'repeat:'+name, '%s on %s differs by %.3g from its first execution after %s; now %s' % (
                name, labels[e['i']], e['err'], prev, '' if st == 'ok' else r))
            continue
        if st == 'exc':
            mon.event('exception:'+name+':'+r[1].split(':')[0])
        # alone, in a process that has done nothing else
        b = child(lambda: ('alone', perform(World(case, e['i']), name, e['i'])))
        if b[0] != 'alone':
            mon.fail('alone:'+name, 'no result alone: %s' % (b,))
            continue
        b = b[1]
        mon.event('isolated execution')
        if st == 'exc' or b[0] == 'exc':
            mon.check(st == b[0] and r[1] == b[1], 'history:'+name, '%s on %s: in the history %s, alone %s; history %s' % (
                name, labels[e['i']], r[1:] if st == 'exc' else 'a result', b[1:] if b[0] == 'exc' else b[0], prev))
            continue
        if b[0] != 'ok':
            continue
        err = relerr(r[1], b[1])
        mon.check(err <= TOL, 'history:'+name, '%s on %s differs by %.3g from the same operation executed alone; history %s' % (name, labels[e['i']], err, prev))
    mon.seen(case['dim'], tuple(labels), len(set(map(tuple, case['h']))))
    for (a, b) in zip(case['h'], case['h'][1:]):
        mon.seen('pair', a[0], b[0])


if __name__ == '__main__':
    vh.main('P17', cases, run, RULE)
