"""P09: matrix algebra behaves like dense matrix algebra over any history.

A pool of live matrices is taken through a random history of operations.
Every object has a dense mirror that goes through the same history; after every
operation the monitor compares *all* live objects with their mirrors, so that a
side effect on any operand (or on an object sharing state with an operand) is
seen at the operation that caused it.
"""
import copy
import common  # noqa: F401
import vh
import numpy as np
import nd
import spaces

RULE = 'online oracle: after every operation of a random history all live matrices equal their dense mirrors (content, products with arrays, solutions)'


def cases(tier, rng):
    T = tier == 'thorough'
    out = []
    for _ in range(4000 if T else 160):
        out.append({'t': 'sparse', 's': rng.randint(0, 10**7), 'n': rng.choice([2, 3, 4, 5, 6, 8, 11, 12]), 'rect': rng.random() < .2,
                    'ops': rng.choice([12, 20, 30]), 'cpx': rng.random() < .3, 'cost': .3})
    for _ in range(2500 if T else 90):
        fam = rng.choice(list(spaces.FAMS if hasattr(spaces, 'FAMS') else ['chebyshev', 'legendre', 'chebyshevu', 'jacobi', 'ultraspherical', 'laguerre', 'hermite', 'fourier']))
        out.append({'t': 'spectral', 'fam': fam, 'N': rng.choice([7, 8, 9, 12, 16, 21]), 's': rng.randint(0, 10**7), 'ops': rng.choice([10, 18, 26]), 'cost': .6})
    for _ in range(1200 if T else 60):
        kinds = rng.choice(['FB', 'BF', 'BB', 'FF', 'FFB', 'BFB', 'FBF'])
        out.append({'t': 'tp', 'd': nd.rspace(rng, kinds, inhom=0, maxN=8 if len(kinds) == 2 else 6, fams=[rng.choice(['legendre', 'chebyshev'])]),
                    's': rng.randint(0, 10**7), 'ops': rng.choice([10, 18]), 'cost': 1})
    for _ in range(800 if T else 40):
        kinds = rng.choice(['FB', 'BF', 'BB', 'FF', 'B', 'B', 'FFB'])
        out.append({'t': 'block', 'd': nd.rspace(rng, kinds, inhom=0, maxN=8 if len(kinds) < 3 else 6, fams=[rng.choice(['legendre', 'chebyshev'])]),
                    's': rng.randint(0, 10**7), 'ops': rng.choice([8, 14]), 'cost': 1.5})
    return out


def run(case, mon):
    vh.use_repo()
    import shenfun as sf
    rs = np.random.default_rng(case['s'])
    globals()['run_'+case['t']](case, mon, sf, rs)


TOL = 1e-12


class Pool:
    """live matrices with mirrors"""

    def __init__(self, mon, dense, pid, maxn=7):
        self.o = []
        self.mon = mon
        self.dense = dense
        self.pid = pid
        self.hist = []
        self.maxn = maxn

    def add(self, A, M, mag, tag):
        if any(x[0] is A for x in self.o):
            return
        if len(self.o) >= self.maxn:
            self.o.pop(0)
        self.o.append([A, M, mag, tag])

    def pick(self, rs, f=None):
        c = [x for x in self.o if f is None or f(x)]
        return c[rs.integers(len(c))] if c else None

    def verify(self, op):
        """all live objects against their mirrors after `op`"""
        for x in self.o:
            A, M, mag, tag = x
            try:
                got = self.dense(A)
            except Exception as ex:
                self.mon.fail('%s:%s:raises' % (self.pid, op), '%s tag=%s hist=%s' % (repr(ex)[:200], tag, self.hist[-12:]))
                return False
            if not self.mon.close(got, M, TOL, '%s:%s' % (self.pid, op), 'object made by %s, history %s' % (tag, self.hist[-14:]),
                                  scale=max(mag, 1e-300)):
                return False
        return True


def fmt(rs):
    return rs.choice(['csr', 'csc', 'dia', 'python'])


def rscale(rs, cpx):
    r = rs.random()
    if r < .12:
        return 1+float(rs.choice([3e-9, -6e-9]))      # nearly one
    if r < .2:
        return float(rs.choice([1e-7, 3e5, 1e-17, 2e-16]))
    if r < .3:
        return int(rs.choice([-3, -1, 2, 5]))
    if cpx and r < .5:
        return complex(rs.normal(), rs.normal())
    v = float(np.round(rs.normal()*2, 3))
    return v if abs(v) > .1 else 1.5


def rdiags(rs, shape, cpx, kind):
    N, M = shape
    if kind == 'tri':
        keys = [-2, 0, 2]
    elif kind == 'tri1':
        keys = [-1, 0, 1]
    elif kind == 'up':
        keys = [0, 2]
    elif kind == 'up3':
        keys = [0, 2, 4]
    elif kind == 'diag':
        keys = [0]
    elif kind == 'penta':
        keys = [-4, -2, 0, 2, 4]
    elif kind == 'fdma':
        keys = [-2, 0, 2, 4]
    else:
        allk = list(range(-N+1, M))
        keys = [int(k) for k in rs.choice(allk, size=min(len(allk), rs.integers(1, 6)), replace=False)]
    d = {}
    for k in keys:
        n = min(N+k, M) if k < 0 else min(N, M-k)
        if n <= 0:
            continue
        if rs.random() < .25:
            v = float(np.round(rs.normal(), 3))
            if k == 0:
                v = v+(4 if v >= 0 else -4)
        else:
            v = rs.normal(size=n)
            if k == 0:
                v = v+np.where(v >= 0, 4, -4)
            if cpx and rs.random() < .3:
                v = v+1j*rs.normal(size=n)
        d[k] = v
    if not d:
        d = {0: 1.}
    return d


def todense(d, shape, scale=1):
    A = np.zeros(shape, dtype=complex)
    N, M = shape
    for k, v in d.items():
        n = min(N+k, M) if k < 0 else min(N, M-k)
        v = np.broadcast_to(np.asarray(v), (n,)) if np.ndim(v) == 0 else v
        for i in range(n):
            r, c = (i-k, i) if k < 0 else (i, i+k)
            A[r, c] = v[i]
    return A*scale


def nopivot(K):
    U = K.copy()
    n = len(U)
    m = np.abs(K).max()
    for i in range(n):
        if abs(U[i, i]) < 1e-3*m or np.abs(U).max() > 1e3*m:
            return False
        U[i+1:] -= np.outer(U[i+1:, i]/U[i, i], U[i])
    return True


def sdense(A):
    return A.diags('csr').toarray().astype(complex)


def histories(case, mon, sf, rs, pool, fresh, cpx, square=True):
    """random history for one dimensional matrices"""
    from shenfun.matrixbase import SparseMatrix, Identity
    P = pool.pid
    mag = lambda *m: max(float(np.abs(x).max(initial=0)) for x in m)
    for step in range(case['ops']):
        op = str(rs.choice(['new', 'add', 'add', 'sub', 'mul', 'rmul', 'div', 'neg', 'iadd', 'iadd', 'isub', 'imul', 'copy', 'copy2', 'inc', 'matvec', 'matvec', 'mulv',
                            'solve', 'solve', 'solvecon', 'divv', 'prod', 'set', 'del', 'simp', 'clean', 'sum', 'diags', 'deep', 'eq']))
        x = pool.pick(rs)
        A, M, mg, tag = x
        y = pool.pick(rs)
        B, MB, mgb, tagb = y
        cl = type(A).__name__ if type(A) in (SparseMatrix, Identity) else 'Spectral'
        op0 = op
        pool.hist.append(op)
        mon.event('op:'+op)
        mon.seen('op', P, op, cl, type(B).__name__ if op in ('add', 'sub', 'iadd', 'isub') else '')
        C = None
        try:
            if op == 'new':
                C, MC = fresh(rs)
                pool.add(C, MC, mag(MC), 'new')
            elif op == 'add':
                pool.add(A+B, M+MB, max(mag(M, MB), mg*1e-3, mgb*1e-3), '%s+%s' % (cl, type(B).__name__))
            elif op == 'sub':
                pool.add(A-B, M-MB, max(mag(M, MB), mg*1e-3, mgb*1e-3), '%s-%s' % (cl, type(B).__name__))
            elif op == 'sum':
                z = pool.pick(rs)
                pool.add(sum([B, z[0]], A), M+MB+z[1], max(mag(M, MB, z[1]), 1e-3*max(mg, mgb, z[2])), 'sum')
            elif op in ('mul', 'rmul'):
                c = rscale(rs, cpx)
                pool.add(A*c if op == 'mul' else c*A, M*c, mg*abs(c), op)
            elif op == 'div':
                c = rscale(rs, cpx)
                if abs(c) <= 1e-8:
                    continue
                pool.add(A/c, M/c, mg/abs(c), op)
            elif op == 'neg':
                pool.add(-A, -M, mg, op)
            elif op in ('iadd', 'isub'):
                old = A
                if A is B:
                    continue
                if op == 'iadd':
                    A += B
                    MC = M+MB
                else:
                    A -= B
                    MC = M-MB
                if A is None:
                    mon.fail('%s:%s:None' % (P, op), tag)
                    return
                nmg = max(mag(M, MB), mg*1e-3, mgb*1e-3)
                if A is old:
                    x[1], x[2] = MC, nmg
                    x[3] = tag+op
                else:
                    pool.add(A, MC, nmg, op)
            elif op == 'imul':
                c = rscale(rs, cpx)
                old = A
                A *= c
                if A is old:
                    x[1], x[2] = M*c, mg*abs(c)
                else:
                    pool.add(A, M*c, mg*abs(c), op)
            elif op == 'copy':
                pool.add(A.copy(), M.copy(), mg, op)
            elif op == 'deep':
                pool.add(copy.deepcopy(A), M.copy(), mg, op)
            elif op == 'copy2':
                pool.add(copy.copy(A), M.copy(), mg, op)
            elif op == 'inc':
                if isinstance(A, Identity):
                    continue
                A.incorporate_scale()
            elif op == 'simp':
                if isinstance(A, Identity) or not A.isdiagonal() or np.ndim(A[0]) > 0:
                    continue
                A.simplify_diagonal_matrices()
            elif op == 'clean':
                if rs.random() < .5 and type(A) is SparseMatrix:
                    # exact zeros may be removed, nothing else
                    k0 = set(k for k, v in A.items() if np.all(np.asarray(v) == 0))
                    A.clean_diagonals(1e-15)
            elif op in ('set', 'del'):
                if type(A) is not SparseMatrix:
                    continue
                keys = list(A.keys())
                if not keys:
                    continue
                k = keys[rs.integers(len(keys))]
                if op == 'del':
                    if len(keys) == 1:
                        continue
                    sub = todense({k: A[k]}, A.shape, A.scale)
                    del A[k]
                    x[1] = M-sub
                    x[2] = max(mag(M), 1e-3*mg)
                else:
                    if A.scale == 0:
                        continue
                    v = rs.normal(size=np.shape(A[k]))+(4 if k == 0 else 0)
                    sub = todense({k: v-A[k]}, A.shape, A.scale)
                    A[k] = v
                    x[1] = M+sub
                    x[2] = max(mag(M, x[1]), 1e-3*mg)
            elif op == 'eq':
                if type(A) is SparseMatrix and not A == A.copy():
                    mon.fail('%s:eq' % P, '%s not equal to its copy %s' % (cl, tag))
                mon.event('oracle')
                if A.shape == B.shape and type(A) is SparseMatrix and type(B) is SparseMatrix and A.scale == B.scale and A.scale == 1:
                    d = np.linalg.norm(M-MB)
                    if d > 1e-3:
                        mon.check(not (A == B), '%s:eq' % P, 'different matrices compare equal %s %s' % (tag, tagb))
            elif op == 'diags':
                f = str(rs.choice(['csr', 'csc', 'dia', 'lil', 'coo']))
                S = A.diags(f)
                mon.close(S.toarray(), M, TOL, '%s:diags:%s' % (P, f), tag, scale=max(mg, 1e-300))
                U = A.diags(f, False)
                if np.ndim(A.scale) == 0:
                    mon.close(U.toarray()*A.scale, M, TOL, '%s:diags:unscaled' % P, tag, scale=max(mg, 1e-300))
                # the returned scipy matrix is the user's: changing it must not change the matrix
                if f in ('csr', 'csc') and S.nnz:
                    S.data[:] = 17.
            elif op in ('matvec', 'mulv'):
                n = max(A.shape)
                ncol = pool.ncol(A)
                axis = int(rs.integers(0, 2)) if op == 'matvec' and rs.random() < .5 else 0
                dt = complex if rs.random() < .5 else float
                nn = max(n, ncol)
                shp = (nn,) if rs.random() < .5 and axis == 0 else ((nn, 3) if axis == 0 else (3, nn))
                v = rs.normal(size=shp).astype(dt)
                if dt is complex:
                    v = v+1j*rs.normal(size=shp)
                v0 = v.copy()
                vs = np.moveaxis(v, axis, 0)[pool.cols(A)]
                ref = np.tensordot(M, vs, (1, 0))
                iscpx = np.abs(M.imag).max() > 0 or np.iscomplexobj(A.scale) or any(np.iscomplexobj(q) for q in A.values())
                if op == 'matvec':
                    c = np.full(shp, 7., dtype=complex if (iscpx or dt is complex) else float)
                    f = fmt(rs)
                    f = None if rs.random() < .3 else str(f)
                    if f == 'python' and iscpx and dt is float:
                        c = c.astype(complex)
                    c = A.matvec(v, c, format=f, axis=axis)
                    lab = str(f)
                else:
                    c = A*v
                    lab = 'mul'
                    if c is None:
                        mon.fail('%s:mulv' % P, 'None')
                        continue
                got = np.moveaxis(np.asarray(c), axis, 0)[:A.shape[0]]
                mon.close(got, ref, 1e-12, '%s:%s:%s' % (P, op, lab), '%s dtype=%s matrix complex=%s shape=%s axis=%d hist=%s' % (tag, dt.__name__, iscpx, shp, axis, pool.hist[-10:]),
                          scale=max(mg*np.abs(vs).sum(0).max(), 1e-300))
                mon.check(np.array_equal(v, v0), '%s:%s:operand' % (P, op), tag)
            elif op in ('solve', 'divv', 'solvecon'):
                if A.shape[0] != A.shape[1] or not square:
                    continue
                K = M
                cn = np.linalg.cond(K) if np.abs(K).max() > 0 else np.inf
                if not cn < 1e5:
                    continue
                # banded solvers do not pivot: judge only matrices that allow it
                if not nopivot(K):
                    continue
                if pool.spec and type(A) is not SparseMatrix and op == 'solvecon':
                    continue
                n = A.shape[0]
                iscpx = np.abs(M.imag).max() > 0 or np.iscomplexobj(A.scale) or any(np.iscomplexobj(q) for q in A.values())
                if iscpx and any(np.iscomplexobj(v) for v in A.values()) and rs.random() < .7:
                    pass
                dt = complex if rs.random() < .5 or (iscpx and op != 'divv') else float
                b = np.zeros(pool.full(A), dtype=dt)
                b[:n] = rs.normal(size=n)
                if dt is complex:
                    b[:n] += 1j*rs.normal(size=n)
                b0 = b.copy()
                con = ()
                if op == 'solvecon':
                    row = int(rs.integers(0, n))
                    con = ((row, float(rs.normal())),)
                    K = K.copy()
                    K[row] = 0
                    K[row, row] = 1
                    cn = np.linalg.cond(K)
                    if not cn < 1e5 or not nopivot(K):
                        continue
                if op == 'divv':
                    u = A/b
                else:
                    u = np.zeros_like(b)
                    u = A.solve(b, u, constraints=con)
                f = b0[:n].astype(complex)
                for r, val in con:
                    f[r] = val
                ref = np.linalg.solve(K, f)
                mon.close(np.asarray(u)[:n], ref, 1e-12*max(cn, 10), '%s:%s:%s' % (P, op, cl), '%s keys=%s scale=%s con=%s dt=%s hist=%s' % (tag, list(A.keys()), A.scale, con, dt.__name__, pool.hist[-10:]))
                if not con:
                    mon.check(np.array_equal(b, b0), '%s:%s:operand' % (P, op), tag)
            elif op == 'prod':
                if A.shape[1] != B.shape[0]:
                    continue
                got = A*B
                mon.close(got.toarray(), M @ MB, TOL, '%s:prod' % P, tag, scale=max(mg*mgb*A.shape[1], 1e-300))
        except AssertionError as ex:
            if op == 'solvecon' and 'Can only fix first row' in str(ex):
                continue    # documented limitation of the banded solvers
            mon.fail('%s:%s:raises' % (P, op), 'AssertionError %s %s %s hist=%s' % (ex, tag, tagb, pool.hist[-10:]))
            return
        except Exception as ex:
            mon.fail('%s:%s:raises' % (P, op0), '%s %s/%s keys=%s scale=%s hist=%s' % (repr(ex)[:200], tag, tagb, list(A.keys()) if A is not None else '', getattr(A, 'scale', ''), pool.hist[-10:]))
            return
        if not pool.verify('after-'+op):
            return


def run_sparse(case, mon, sf, rs):
    from shenfun.matrixbase import SparseMatrix, Identity
    N = case['n']
    shape = (N, N+int(rs.integers(-1, 3))) if case['rect'] else (N, N)
    if shape[1] < 2:
        shape = (N, N)
    cpx = case['cpx']
    square = shape[0] == shape[1]
    kinds = ['tri', 'tri1', 'up', 'up3', 'diag', 'penta', 'fdma', 'rand', 'rand', 'rand']

    def fresh(rs):
        if rs.random() < .12 and square:
            c = rscale(rs, False)
            return Identity(shape, c), np.eye(N)*complex(c)
        kind = str(rs.choice(kinds))
        if N < 6 and kind in ('penta', 'fdma', 'up3'):
            kind = 'rand'
        d = rdiags(rs, shape, cpx, kind)
        sc = rscale(rs, cpx) if rs.random() < .5 else 1
        return SparseMatrix(d, shape, sc), todense(d, shape, sc)
    pool = Pool(mon, sdense, 'sparse')
    pool.ncol = lambda A: A.shape[1]
    pool.cols = lambda A: slice(0, A.shape[1])
    pool.full = lambda A: A.shape[0]
    pool.spec = False
    for _ in range(3):
        A, M = fresh(rs)
        pool.add(A, M, float(np.abs(M).max()), 'new')
    histories(case, mon, sf, rs, pool, fresh, cpx, square)


PAIRS = [(0, 0), (0, 1), (1, 1), (0, 2), (2, 0), (1, 0), (2, 2), (0, 3), (0, 4)]


def run_spectral(case, mon, sf, rs):
    from shenfun.matrixbase import SparseMatrix, SpectralMatrix, Identity
    import random
    fam = case['fam']
    rng = random.Random(case['s'])
    from nd import rbase
    for _ in range(20):
        desc = rbase(rng, 'F' if fam == 'fourier' else 'P' if fam == 'hermite' else 'B', True, fams=None if fam == 'fourier' else [fam], inhom=0, N=case['N'])
        if fam == 'fourier' or desc['fam'] == fam:
            break
    V = spaces.build(desc)
    kmax = V.slice().stop-V.slice().start
    lab = spaces.label(desc)

    def fresh(rs):
        from shenfun.spectralbase import inner_product
        for _ in range(8):
            a, b = PAIRS[rs.integers(len(PAIRS))]
            try:
                A = inner_product((V, a), (V, b))
            except (AssertionError, NotImplementedError):
                continue
            if isinstance(A, SpectralMatrix):
                c = rscale(rs, False) if rs.random() < .4 else 1
                try:
                    M = sdense(A)
                except ValueError:
                    continue    # space too small for its banded mass matrix
                if c != 1:
                    A *= c
                if M.shape == (kmax, kmax):
                    return A, M*c
        return SparseMatrix({0: 1.}, (kmax, kmax)), np.eye(kmax, dtype=complex)
    pool = Pool(mon, sdense, 'spectral')
    pool.ncol = lambda A: V.shape(True) if not isinstance(V.shape(True), tuple) else V.shape(True)[0]
    pool.cols = lambda A: (V.slice() if isinstance(A, SpectralMatrix) else slice(0, A.shape[1]))
    pool.full = lambda A: pool.ncol(A)
    pool.spec = True
    for _ in range(3):
        A, M = fresh(rs)
        pool.add(A, M, float(np.abs(M).max()), '%s %s' % (lab, A.get_key() if isinstance(A, SpectralMatrix) else ''))
    histories(case, mon, sf, rs, pool, fresh, np.any([np.abs(x[1].imag).max() > 0 for x in pool.o]) and False)


def run_tp(case, mon, sf, rs):
    from shenfun.matrixbase import TPMatrix, get_simplified_tpmatrices
    T = nd.build(case['d'])
    u, v = sf.TrialFunction(T), sf.TestFunction(T)
    n = T.dimensions
    e = [[(1 if i == j else 0) for j in range(n)] for i in range(n)]
    shp = T.shape(True)
    dt = T.forward.output_array.dtype
    probes = []
    sl = tuple(b.slice() for b in T.bases)
    for _ in range(2):
        p = np.zeros(shp, dtype=dt)
        q = rs.normal(size=p[sl].shape)
        p[sl] = q if dt.char in 'fdg' else q+1j*rs.normal(size=q.shape)
        probes.append(p)
    probes[1][sl] = np.linspace(.5, 1.5, probes[1][sl].size).reshape(probes[1][sl].shape)
    dc = dt.char in 'FDG'
    lab = 'x'.join(spaces.label(b) for b in case['d']['bases'])

    def action(A):
        out = []
        for p in probes:
            c = np.zeros(shp, dtype=dt)
            c = A.matvec(p, c)
            out.append(np.array(c[sl]))
        return np.array(out)

    def kron(A):
        K = np.ones((1, 1))
        for m in A.mats:
            K = np.kron(K, m.diags('csr').toarray())
        K = K*np.atleast_1d(A.scale).item()
        return np.array([(K @ p[sl].ravel()).reshape(p[sl].shape) for p in probes])

    def fresh(rs):
        for _ in range(6):
            i, j = rs.integers(0, n, 2)
            k = rs.integers(3)
            sc = 1 if rs.random() < .5 else float(np.round(rs.normal()*2, 3))
            if not dc and k == 2:
                k = 0
            if k == 0:
                A = sf.inner(v, sc*u)
            elif k == 1:
                A = sf.inner(sf.Dx(v, int(i), 1), sc*sf.Dx(u, int(i), 1))
            else:
                A = sf.inner(v, sc*sf.Dx(u, int(i), 1))
            A = A if isinstance(A, list) else [A]
            A = A[0]
            if isinstance(A, TPMatrix):
                return A, kron(A)
        raise vh.Skip('no TPMatrix')
    pool = Pool(mon, action, 'tp', maxn=8)
    for _ in range(3):
        A, M = fresh(rs)
        pool.add(A, M, float(np.abs(M).max()), 'new '+lab)
    mg1 = lambda *m: max(float(np.abs(x).max(initial=0)) for x in m)
    simp = set()
    for step in range(case['ops']):
        op = str(rs.choice(['new', 'mul', 'rmul', 'mulm', 'div', 'neg', 'add', 'sub', 'iadd', 'isub', 'imul', 'imularr', 'copy', 'deep', 'copy2', 'simp', 'simplist', 'solve', 'diags', 'block', 'simplify', 'mulv', 'eq']))
        x = pool.pick(rs)
        A, M, mg, tag = x
        pool.hist.append(op)
        mon.event('op:'+op)
        mon.seen('tp', op, ''.join('F' if b['fam'] == 'fourier' else 'B' for b in case['d']['bases']), A._issimplified, np.ndim(A.scale))
        c = float(np.round(rs.normal()*2+.1, 3))
        mates = [y for y in pool.o if y is not x and y[0].global_index == A.global_index and y[0]._issimplified == A._issimplified and y[0] == A]
        try:
            if op == 'new':
                B, MB = fresh(rs)
                pool.add(B, MB, mg1(MB), 'new')
            elif op in ('mul', 'rmul'):
                pool.add(A*c if op == 'mul' else c*A, M*c, mg*abs(c), op) if not A._issimplified else None
            elif op == 'div':
                if A._issimplified:
                    continue
                pool.add(A/c, M/c, mg/abs(c), op)
            elif op == 'neg':
                if A._issimplified:
                    continue
                pool.add(-A, -M, mg, op)
            elif op in ('add', 'sub', 'iadd', 'isub'):
                if A._issimplified:
                    continue
                if not mates:
                    # make a mate, sharing what the library shares
                    B = A*c
                    y = [B, M*c, mg*abs(c), 'mate']
                    pool.o.append(y)
                else:
                    y = mates[rs.integers(len(mates))]
                B, MB, mb, _ = y
                m = max(mg, mb)
                if op == 'add':
                    pool.add(A+B, M+MB, m, op)
                elif op == 'sub':
                    pool.add(A-B, M-MB, m, op)
                else:
                    old = A
                    if op == 'iadd':
                        A += B
                        MC = M+MB
                    else:
                        A -= B
                        MC = M-MB
                    if A is old:
                        x[1], x[2] = MC, m
                    else:
                        pool.add(A, MC, m, op)
            elif op == 'imul':
                old = A
                A *= c
                if A is old:
                    x[1], x[2] = M*c, mg*abs(c)
                else:
                    pool.add(A, M*c, mg*abs(c), op)
            elif op == 'imularr':
                continue
            elif op in ('copy', 'deep', 'copy2'):
                if A._issimplified:
                    continue
                B = A.copy() if op == 'copy' else copy.deepcopy(A) if op == 'deep' else copy.copy(A)
                pool.add(B, M.copy(), mg, op)
            elif op == 'simp':
                B = A.get_simplified()
                pool.add(B, M.copy(), mg, op)
            elif op == 'simplist':
                ys = [y for y in pool.o if y[0].global_index == A.global_index][:4]
                L = get_simplified_tpmatrices([y[0] for y in ys])
                got = sum(action(t) for t in L)
                mon.close(got, sum(y[1] for y in ys), TOL, 'tp:simplist', lab, scale=max(sum(y[2] for y in ys), 1e-300))
            elif op == 'simplify':
                if rs.random() < .5:
                    A.simplify_diagonal_matrices()
            elif op == 'block':
                if n > 1 and not A._issimplified:
                    ys = [y for y in pool.o if y[0].global_index == A.global_index and not y[0]._issimplified][:4]
                    Bm = sf.BlockMatrix([y[0] for y in ys])
                    for k, p in enumerate(probes):
                        w = sf.Function(T)
                        w[:] = p
                        z = sf.Function(T)
                        try:
                            z = Bm.matvec(w, z, use_scipy=bool(rs.random() < .5))
                        except AssertionError:
                            break
                        mon.close(np.asarray(z)[sl], sum(y[1][k] for y in ys), TOL, 'tp:block', lab, scale=max(sum(y[2] for y in ys), 1e-300))
            elif op == 'diags':
                if A._issimplified or T.dimensions != len(A.mats) or np.size(A.scale) > 1:
                    continue
                D = A.diags(str(rs.choice(['csr', 'csc'])))
                got = np.array([(D @ p[sl].ravel()).reshape(p[sl].shape) for p in probes])
                mon.close(got, M, TOL, 'tp:diags', lab, scale=max(mg, 1e-300))
            elif op == 'mulv':
                z = A*probes[0]
                mon.close(z[sl], M[0], TOL, 'tp:mulv', lab, scale=max(mg, 1e-300))
            elif op == 'eq':
                pass
            elif op == 'solve':
                if n != 2 or len(A.naxes) > 1:
                    pass
                b = np.zeros(shp, dtype=dt)
                b[:] = probes[0]
                w = sf.Function(T)
                try:
                    w = A.solve(sf.Function(T, buffer=b), w)
                except Exception:
                    # singular or not supported: only side effects are judged here (P08 decides solutions)
                    pass
            pn = [p.copy() for p in probes]
        except AssertionError as ex:
            mon.fail('tp:%s:raises' % op, 'AssertionError %s %s hist=%s' % (ex, lab, pool.hist[-10:]))
            return
        except vh.Skip:
            raise
        except Exception as ex:
            mon.fail('tp:%s:raises' % op, '%s %s hist=%s' % (repr(ex)[:200], lab, pool.hist[-10:]))
            return
        if not pool.verify('after-'+op):
            return


def run_block(case, mon, sf, rs):
    d = case['d']
    if len(d['bases']) == 1:
        V = spaces.build(d['bases'][0])
        W = sf.MixedFunctionSpace([V, V])
        n = 1
    else:
        V = nd.build(d)
        n = V.dimensions
        W = sf.CompositeSpace([V, V])
    u, p = sf.TrialFunction(W)
    v, q = sf.TestFunction(W)
    lab = 'x'.join(spaces.label(b) for b in d['bases'])
    X = [sf.Function(W) for _ in range(2)]
    bases = V.bases if n > 1 else [V]
    sl = (slice(None),)+tuple(b.slice() for b in bases)
    dc = X[0].dtype.char in 'FDG'
    for x in X:
        x[sl] = rs.normal(size=x[sl].shape)+(1j*rs.normal(size=x[sl].shape) if dc else 0)
    Dx = sf.Dx

    def term(rs):
        c = float(np.round(rs.normal()*2+.1, 3))
        i = int(rs.integers(0, n))
        k = rs.integers(6)
        if k == 0:
            A = sf.inner(v, c*u)
        elif k == 1:
            A = sf.inner(v, c*p)
        elif k == 2:
            A = sf.inner(Dx(q, i, 1), c*Dx(p, i, 1))
        elif k == 3:
            A = sf.inner(q, c*u)
        elif k == 4:
            A = sf.inner(Dx(v, i, 1), c*Dx(u, i, 1))
        else:
            A = sf.inner(q, c*Dx(u, i, 1)) if dc or V is None or all(b.family() != 'fourier' for b in bases) else sf.inner(q, c*p)
        return A if isinstance(A, list) else [A]

    def tact(ts):
        """action of a list of terms, from the terms one by one before any block is made"""
        out = []
        for x in X:
            r = np.zeros(np.asarray(x).shape, dtype=x.dtype)
            for t in ts:
                gi = t.global_index
                z = np.zeros_like(np.asarray(x)[0])
                z = t.matvec(np.array(x)[gi[1]], z)
                r[gi[0]] += z
            out.append(r[sl])
        return np.array(out)

    def action(A, us=None):
        out = []
        for k, x in enumerate(X):
            z = sf.Function(W)
            z[:] = 3.
            z = A.matvec(x, z, use_scipy=us) if us is not None else A.matvec(x, z)
            out.append(np.array(z)[sl])
        return np.array(out)

    full = []
    pool = Pool(mon, action, 'block', maxn=6)
    terms = []
    mg1 = lambda m: float(np.abs(m).max())

    def newterms(rs):
        L = []
        for _ in range(rs.integers(1, 4)):
            L += term(rs)
        return L
    base = []
    # every block row needs a matrix for assembly: start from the identity system
    for a, b in ((v, u), (q, p)):
        t = sf.inner(a, b)
        base += t if isinstance(t, list) else [t]
    for t in base:
        terms.append([t, tact([t])])
    for _ in range(3):
        for t in newterms(rs):
            terms.append([t, tact([t])])
    A = sf.BlockMatrix([t[0] for t in terms[:len(base)]])
    pool.add(A, sum(t[1] for t in terms[:len(base)]), mg1(sum(np.abs(t[1]) for t in terms)), 'base')
    for step in range(case['ops']):
        op = str(rs.choice(['new', 'add', 'iadd', 'iaddlist', 'scipy', 'noscipy', 'solve', 'diags', 'terms']))
        pool.hist.append(op)
        mon.event('op:'+op)
        mon.seen('block', op, len(d['bases']), ''.join('F' if b['fam'] == 'fourier' else 'B' for b in d['bases']))
        x = pool.pick(rs)
        A, M, mg, tag = x
        y = pool.pick(rs)
        try:
            if op == 'new':
                k = [int(i) for i in rs.choice(len(terms), size=min(len(terms), 3), replace=False)]
                ts = terms[:len(base)]+[terms[i] for i in k if i >= len(base)]
                B = sf.BlockMatrix([t[0] for t in ts])
                pool.add(B, sum(t[1] for t in ts), mg1(sum(np.abs(t[1]) for t in ts)), 'new')
            elif op == 'add':
                pool.add(A+y[0], M+y[1], mg+y[2], op)
            elif op == 'iadd':
                if y is x:
                    continue
                old = A
                A += y[0]
                if A is None:
                    mon.fail('block:iadd:None', lab)
                    return
                if A is old:
                    x[1], x[2] = M+y[1], mg+y[2]
                else:
                    pool.add(A, M+y[1], mg+y[2], op)
            elif op == 'iaddlist':
                t = terms[int(rs.integers(len(terms)))]
                L = [t[0]]
                old = A
                A += L
                if A is old:
                    x[1], x[2] = M+t[1], mg+mg1(t[1])
                else:
                    pool.add(A, M+t[1], mg+mg1(t[1]), op)
            elif op in ('scipy', 'noscipy'):
                got = action(A, op == 'scipy')
                mon.close(got, M, TOL, 'block:'+op, lab+' hist=%s' % pool.hist[-8:], scale=max(mg, 1e-300))
            elif op == 'diags':
                A.diags((0,)*max(0, n-1), 'csr') if n == 1 else None
            elif op == 'terms':
                for t in terms:
                    if not mon.close(tact([t[0]]), t[1], TOL, 'block:terms-changed', lab+' hist=%s' % pool.hist[-8:], scale=max(mg1(t[1]), 1e-300)):
                        return
            elif op == 'solve':
                b = sf.Function(W)
                b[sl] = np.array(M[0])
                b0 = np.array(b)
                w = sf.Function(W)
                with np.errstate(all='ignore'):
                    try:
                        w = A.solve(b, w)
                    except RuntimeError as ex:
                        if 'singular' in str(ex):
                            continue
                        raise
                w = np.asarray(w)
                if not np.all(np.isfinite(w)) or np.abs(w).max() > 1e6*np.abs(np.asarray(X[0])).max():
                    continue
                # residual with the mirror: A was verified to act as M, so check A w = b by the terms
                z = sf.Function(W)
                ww = sf.Function(W)
                ww[:] = w
                z = A.matvec(ww, z, use_scipy=False)
                mon.close(np.asarray(z)[sl], b0[sl], 1e-8, 'block:solve', lab+' hist=%s' % pool.hist[-8:],
                          scale=max(np.abs(b0).max(), mg*np.abs(w).max(), 1e-300))
        except Exception as ex:
            mon.fail('block:%s:raises' % op, '%s %s hist=%s' % (repr(ex)[:200], lab, pool.hist[-10:]))
            return
        if not pool.verify('after-'+op):
            return


if __name__ == '__main__':
    vh.main('P09', cases, run, RULE, assumptions=['numpy dense arithmetic is the reference', 'multidimensional matrices are compared through their action on two probe vectors'])
