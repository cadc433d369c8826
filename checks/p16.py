"""P16: every compiled kernel under AddressSanitizer and UndefinedBehaviorSanitizer, with freshly allocated memory poisoned by NaN."""
import importlib
import os
import subprocess
import sys
import numpy as np
import common  # noqa: F401
import vh
import shadow

RULE = ('no report of AddressSanitizer or UndefinedBehaviorSanitizer (both built into every extension compiled from the current sources) in workloads of all other checks, '
        'direct kernel calls and degenerate sizes; no crash or hang; results carry no NaN of poisoned uninitialised memory')
SRC = {'p01': (70, 389), 'p07': (70, 370), 'p08': (24, 223), 'p09': (16, 200), 'p12': (24, 149), 'p13': (30, 191), 'p11': (40, 200), 'p19': (20, 100), 'p06': (6, 40), 'p20': (5, 30)}


def cases(tier, rng):
    T = tier == 'thorough'
    out = []
    for src, (nq, nt) in SRC.items():
        try:
            m = importlib.import_module(src)
        except ModuleNotFoundError:
            continue
        cs = m.cases(tier if src == 'p11' else 'quick', rng)
        if src == 'p11':
            for c in cs:
                c['nb'] = False
                c['n'] = min(c.get('n', 1), 12)
        cs = [c for c in cs if 'Phi6' not in repr(c)]  # slow symbolic construction
        rng.shuffle(cs)
        cs.sort(key=lambda c: c.get('cost', 1) > 25)
        for c in cs[:nt if T else nq]:
            out.append({'kind': 'reuse', 'src': src, 'c': c, 'cost': c.get('cost', 1)*2})
    for i in range(120 if T else 60):
        out.append({'kind': 'degenerate', 's': rng.randint(0, 10**6), 'n': 25, 'cost': 8})
    for i in range(20 if T else 4):
        out.append({'kind': 'gl', 's': rng.randint(0, 10**6), 'cost': 4})
    for i in range(60 if T else 12):
        out.append({'kind': 'abuse', 's': rng.randint(0, 10**6), 'n': 30, 'cost': 8})
    return out


class Quiet(vh.Monitor):
    """keeps what was observed; only NaN findings count here"""

    def __init__(self, mon):
        super().__init__()
        self.mon = mon

    def fail(self, mech, msg='', **kw):
        if 'nan' in str(msg).lower():
            self.mon.fail('poison:'+mech, msg)
        else:
            self.mon.event('verdict of the other check')

    def check(self, ok, mech, msg='', **kw):
        self.mon.event('oracle')
        if not ok:
            self.fail(mech, msg)
        return ok


def run(case, mon):
    if 'libasan' not in open('/proc/self/maps').read():
        mon.fail('sanitizer not active', '')
    shadow.MODES = ('cython',)
    globals()[case['kind']](case, mon)


def reuse(case, mon):
    m = importlib.import_module(case['src'])
    q = Quiet(mon)
    try:
        m.run(case['c'], q)
    except vh.Skip:
        pass
    except Exception as e:
        mon.event('exception:'+type(e).__name__)
    mon.event('sanitized case:'+case['src'])
    mon.event('sanitized oracle evaluations', max(1, q.ev.get('oracle', 0)))
    for k in q.keys:
        mon.seen(case['src'], k)
    mon.check(True, 'clean', '')


def attempt(mon, what, f, *a, **k):
    try:
        with np.errstate(all='ignore'):
            r = f(*a, **k)
        mon.event('result:'+what)
        return r
    except MemoryError:
        raise
    except Exception as e:
        mon.event('exception:%s:%s' % (what, type(e).__name__))
        return None


def degenerate(case, mon):
    """the smallest sizes of everything"""
    import shenfun as sf
    import spaces
    rs = np.random.default_rng(case['s'])
    for it in range(case['n']):
        fam = str(rs.choice(list(spaces.BCS)))
        cls = str(rs.choice(list(spaces.BCS[fam])))
        N = int(rs.choice([1, 2, 3, 4, 5, 6, 7]))
        q = str(rs.choice(spaces.QUADS[fam])) if fam in spaces.QUADS else ''
        d = {'fam': fam, 'cls': cls, 'N': N, 'quad': q, 'domain': None, 'bcv': [0]*spaces.nboundary({'fam': fam, 'cls': cls}), 'pf': float(rs.choice([1, 1, 1.5, 2])),
             'dtype': str(rs.choice(['d', 'D']))}
        S = attempt(mon, 'space', spaces.build, d)
        if S is None:
            continue
        dim = int(rs.integers(1, 4))
        T = S
        if dim > 1:
            bs = [sf.FunctionSpace(int(rs.integers(1, 5)), 'F', dtype='D') for _ in range(dim-1)]
            ax = int(rs.integers(0, dim))
            bs.insert(ax, S)
            T = attempt(mon, 'tensor', sf.TensorProductSpace, sf.comm, bs, axes=tuple([ax]+[i for i in range(dim) if i != ax]), dtype='D' if fam != 'fourier' or cls == 'C2C' else 'd')
            if T is None:
                continue
        u = attempt(mon, 'array', sf.Array, T)
        if u is None:
            continue
        u[...] = rs.standard_normal(u.shape)
        uh = attempt(mon, 'forward', lambda: T.forward(u, sf.Function(T)))
        if dim == 1:
            for k in ('vandermonde', 'recursive', 'fast'):
                attempt(mon, 'forward '+k, lambda: T.forward(u, sf.Function(T), kind=k))
                attempt(mon, 'backward '+k, lambda: T.backward(sf.Function(T), sf.Array(T), kind=k))
        if uh is None:
            uh = sf.Function(T)
        ub = attempt(mon, 'backward', lambda: T.backward(uh, sf.Array(T)))
        attempt(mon, 'scalar', lambda: T.scalar_product(u, sf.Function(T)))
        for n in (0, 1, 2):
            P = rs.uniform(-1, 1, (dim, n)) if dim > 1 else rs.uniform(-1, 1, n)
            for m in (0, 1, 2):
                attempt(mon, 'eval', lambda: T.eval(P, uh, method=m) if dim > 1 else T.eval(P, uh))
        v, t = sf.TestFunction(T), sf.TrialFunction(T)
        A = attempt(mon, 'assemble', sf.inner, v, sf.div(sf.grad(t)) if rs.random() < .5 else t)
        if A is not None:
            A = A if isinstance(A, list) else [A]
            for a in A:
                for fmt in (None, 'csr', 'dia', 'python', 'self', 'cython'):
                    attempt(mon, 'matvec', lambda: a.matvec(uh, sf.Function(T), **({'format': fmt} if fmt and dim == 1 else {})))
            sol = attempt(mon, 'solver', sf.la.Solver if dim == 1 else sf.la.SolverGeneric1ND, list(A))
            if sol is not None:
                attempt(mon, 'solve', lambda: sol(uh, sf.Function(T)))
        if dim == 1 and fam == 'chebyshev':
            for c in (sf.chebyshev.la.Helmholtz, sf.chebyshev.la.Biharmonic):
                ms = attempt(mon, 'matrices', lambda: [a for e in (sf.div(sf.grad(t)), t) for b in [sf.inner(v, e)] for a in (b if isinstance(b, list) else [b])])
                if ms:
                    h = attempt(mon, c.__name__, c, list(ms))
                    if h is not None:
                        attempt(mon, c.__name__+' solve', lambda: h(uh, sf.Function(T)))
        attempt(mon, 'refine', lambda: uh.refine(int(rs.integers(1, 12)) if dim == 1 else [int(q) for q in rs.integers(1, 12, dim)]))
        attempt(mon, 'mask', lambda: uh.mask_nyquist(T.get_mask_nyquist()))
        attempt(mon, 'padded', lambda: uh.backward(padding_factor=1.5))
        mon.event('degenerate space')
        mon.seen(fam, cls, N, dim)
    mon.check(True, 'clean', '')


def gl(case, mon):
    from shenfun.legendre import fastgl
    from shenfun.legendre.dlt import Leg2Cheb, Cheb2Leg, DLT, FMMLeg2Cheb, FMMCheb2Leg
    rs = np.random.default_rng(case['s'])
    for it in range(60):
        N = int(rs.choice([0, 1, 2, 3, 99, 100, 101, 102, 200, int(rs.integers(0, 5000))]))
        x = attempt(mon, 'leggauss', fastgl.leggauss, N)
        if x is not None and N:
            mon.check(np.all(np.isfinite(x[0])) and np.all(np.isfinite(x[1])), 'poison:leggauss', 'nan N=%d' % N)
        for k in (0, 1, N, N+1, -1, 10**6, int(rs.integers(-5, 300))):
            attempt(mon, 'getGLPair', fastgl.getGLPair, N, k)
            attempt(mon, 'getGLPair', fastgl.getGLPair, -N, k)
    for it in range(20):
        n = int(rs.choice([0, 1, 2, 3, 4, 5, int(rs.integers(1, 120))]))
        for c in (Leg2Cheb, Cheb2Leg, DLT, FMMLeg2Cheb, FMMCheb2Leg):
            o = attempt(mon, c.__name__, lambda: c(np.zeros(n)) if c is not DLT else c(n))
            if o is not None:
                x = rs.standard_normal(n)
                attempt(mon, c.__name__+' call', lambda: o(x) if c is not DLT else o(x, np.zeros(n)))
    mon.seen('gl', case['s'])
    mon.check(True, 'clean', '')


def abuse(case, mon):
    """odd but legal arguments: other dtypes, layouts, empty and repeated points, reused outputs, wrong shapes"""
    import shenfun as sf
    rs = np.random.default_rng(case['s'])
    for it in range(case['n']):
        dim = int(rs.integers(1, 4))
        fams = [str(rs.choice(['F', 'C', 'L', 'U'])) for _ in range(dim)]
        N = [int(q) for q in rs.integers(3, 11, dim)]
        real = rs.random() < .5 and 'F' in fams
        last = max([i for i, f in enumerate(fams) if f == 'F'], default=-1)
        bs = [sf.FunctionSpace(n, f, **({'dtype': 'd' if real and i == last else 'D'} if f == 'F' else {'bc': (0, 0)} if rs.random() < .5 and n > 3 else {})) for i, (n, f) in enumerate(zip(N, fams))]
        order = [i for i in range(dim) if fams[i] != 'F']+[i for i in range(dim) if fams[i] == 'F' and i != last]+([last] if last >= 0 else [])
        T = bs[0] if dim == 1 else attempt(mon, 'tensor', sf.TensorProductSpace, sf.comm, bs, axes=tuple(order), dtype='d' if real or 'F' not in fams else 'D')
        if T is None:
            continue
        u = sf.Array(T)
        uh = sf.Function(T)
        uh[...] = rs.standard_normal(uh.shape)
        for shp in (u.shape, tuple(n+1 for n in u.shape), tuple(max(1, n-1) for n in u.shape), u.shape[::-1]):
            for dt in ('f', 'd', 'D', 'i', '>f8'):
                a = np.zeros(shp, dt)
                attempt(mon, 'forward odd', lambda: T.forward(a, np.zeros_like(uh)))
                b = np.asfortranarray(np.zeros(shp, dt))
                attempt(mon, 'backward odd', lambda: T.backward(b, np.zeros(u.shape, u.dtype)))
                attempt(mon, 'scalar odd', lambda: T.scalar_product(a[::-1], np.zeros_like(uh)))
        for n in (0, 1, 3):
            P = rs.uniform(-3, 3, (dim, n)) if dim > 1 else rs.uniform(-3, 3, n)
            for PP in (P, P.astype('f'), np.asfortranarray(P), P[..., ::-1], P.tolist(), np.full_like(P, np.nan), np.full_like(P, 1e300)):
                for m in (0, 1, 2):
                    attempt(mon, 'eval odd', lambda: T.eval(PP, uh, method=m) if dim > 1 else T.eval(PP, uh))
        A = attempt(mon, 'assemble', sf.inner, sf.TestFunction(T), sf.TrialFunction(T))
        if A is not None:
            A = A if isinstance(A, list) else [A]
            for x in (np.zeros(uh.shape, 'f'), np.zeros([n+1 for n in uh.shape]), np.zeros([max(1, n-2) for n in uh.shape]), np.asfortranarray(np.zeros(uh.shape)), np.zeros(uh.shape, 'D')[..., ::-1]):
                attempt(mon, 'matvec odd', lambda: A[0].matvec(x, np.zeros_like(x)))
                s = attempt(mon, 'solver', sf.la.Solver if dim == 1 else sf.la.SolverGeneric1ND, list(A))
                if s is not None:
                    attempt(mon, 'solve odd', lambda: s(x, np.zeros_like(x)))
        mon.event('odd arguments')
        mon.seen(dim, tuple(fams))
    mon.check(True, 'clean', '')


def env(extdir):
    lib = [subprocess.run(['gcc', '-print-file-name=%s' % n], capture_output=True, text=True).stdout.strip() for n in ('libasan.so', 'libubsan.so', 'libstdc++.so')]
    return {'LD_PRELOAD': ' '.join(os.path.realpath(q) for q in lib),
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=16777216:malloc_fill_byte=255:detect_stack_use_after_return=0:detect_odr_violation=0',
            'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1'}


if __name__ == '__main__':
    vh.main('P16', cases, run, RULE, sanitize='asan-ubsan', env=env)
