"""Shadow execution of every call dispatched by shenfun.optimization.

While ``Shadow`` is active each call through ``runtimeoptimizer`` runs in all
three modes on private copies of its arrays (memory layout and aliasing kept);
the results and the arrays they changed are compared, and the configured mode
then runs on the real arguments.  Nested dispatches follow the outer mode."""
import numpy as np
import vh

MODES = ('python', 'cython', 'numba')


def root(a):
    base = np.ndarray.base.__get__       # Function overloads base
    while isinstance(base(a), np.ndarray):
        a = base(a)
    return a


class Copier:
    """copies arrays by copying the buffers they are views into"""

    def __init__(self):
        self.roots = {}
        self.arrays = []      # (path, array copy)

    def __call__(self, o, path=''):
        if isinstance(o, np.ndarray) and o.dtype.kind in 'fciub':
            p = np.asarray(o)
            r = root(p)
            lo, hi = np.lib.array_utils.byte_bounds(r)
            if id(r) not in self.roots:
                buf = np.empty(hi-lo+64, np.uint8)
                off = (-buf.ctypes.data+lo) % 64     # same alignment
                mem = buf[off:off+hi-lo]
                src = (np.ctypeslib.ctypes.c_uint8*(hi-lo)).from_address(lo)
                mem[:] = np.frombuffer(src, np.uint8)
                self.roots[id(r)] = (mem, lo, r)
            mem, lo, _ = self.roots[id(r)]
            start = p.__array_interface__['data'][0]-lo
            c = np.ndarray(p.shape, p.dtype, buffer=mem, offset=start, strides=p.strides) if p.size else np.array(p)
            c.flags.writeable = p.flags.writeable
            self.arrays.append((path, c))
            return c
        if type(o) in (list, tuple):
            return type(o)(self(q, '%s[%d]' % (path, i)) for i, q in enumerate(o))
        return o


class Shadow:
    def __init__(self, mon, modes=MODES, tol=1e-9, only=None, verbose=False):
        self.mon, self.modes, self.tol, self.only = mon, modes, tol, only
        self.depth = 0
        self.origin = {}       # id(dispatched function) -> python function

    def __enter__(self):
        import shenfun.optimization as so
        import shenfun.la as la
        self.so, self.la = so, la
        self.saved = so.runtimeoptimizer.__call__, la.optimizer
        sh = self

        def call(ro, *a, **k):
            return sh.call(ro.func, a, k)

        def opt(func, wrap=True):
            f = self.saved[1](func, wrap)
            sh.origin[id(f)] = (func, f)
            return f
        so.runtimeoptimizer.__call__ = call
        la.optimizer = opt
        return self

    def __exit__(self, *a):
        self.so.runtimeoptimizer.__call__, self.la.optimizer = self.saved

    def runmode(self, mode, func, a, k):
        cfg = self.so.config['optimization']
        old = cfg['mode']
        cfg['mode'] = mode
        try:
            return self.so.optimizer(func, False)(*a, **k)
        finally:
            cfg['mode'] = old

    def remap(self, mode, x):
        """functions handed over as arguments follow the mode as well"""
        if callable(x) and id(x) in self.origin:
            cfg = self.so.config['optimization']
            old = cfg['mode']
            cfg['mode'] = mode
            try:
                return self.so.optimizer(self.origin[id(x)][0], False)
            finally:
                cfg['mode'] = old
        return x

    def call(self, func, a, k):
        cfg = self.so.config['optimization']
        if self.depth or (self.only and func.__qualname__ not in self.only):
            return self.so.optimizer(func)(*a, **k)
        self.depth += 1
        try:
            name = func.__qualname__
            res = {}
            impl = {}
            for m in self.modes:
                cfg0 = cfg['mode']
                cfg['mode'] = m
                f = self.so.optimizer(func, False)
                cfg['mode'] = cfg0
                if f is func and m != 'python':
                    continue           # no separate implementation
                impl[m] = f
                cp = Copier()
                aa = [self.remap(m, cp(q, 'arg%d' % i)) for i, q in enumerate(a)]
                kk = {n: cp(q, n) for n, q in k.items()}
                try:
                    with np.errstate(all='ignore'):
                        out = self.runmode(m, func, aa, kk)
                except Exception as e:
                    res[m] = e
                    continue
                res[m] = (out, cp)
            self.compare(name, a, k, res)
            return self.so.optimizer(func)(*a, **k)
        finally:
            self.depth -= 1

    def compare(self, name, a, k, res):
        mon = self.mon
        lay = ','.join('%s%s%s' % (np.dtype(q.dtype).char, tuple(q.shape), 'C' if q.flags.c_contiguous else 'F' if q.flags.f_contiguous else 'S')
                       if isinstance(q, np.ndarray) else str(q)[:20] if np.isscalar(q) or q is None else '.' for q in list(a)+list(k.values()))[:160]
        ok = {}
        for m, r in res.items():
            if isinstance(r, Exception):
                kind = refusal(m, r)
                if kind:
                    mon.event('refused:%s:%s:%s' % (name, m, kind))
                else:
                    ok[m] = r
            else:
                ok[m] = r
        good = [m for m in ok if not isinstance(ok[m], Exception)]
        for m in ok:
            if isinstance(ok[m], Exception) and good:
                mon.fail('raises:%s:%s' % (name, m), '%s: %s [%s]' % (type(ok[m]).__name__, str(ok[m])[:100], lay))
        if len(good) < 2:
            mon.event('single:'+name)
            return
        ref = good[0]
        nd = max([q.ndim for q in a if isinstance(q, np.ndarray)], default=0)
        for m in good[1:]:
            mon.event('compared:'+name)
            mon.seen(name, m, nd, lay.split(',')[0][:1], 'C' if 'C' in lay else 'S')
            (o0, c0), (o1, c1) = ok[ref], ok[m]
            pairs = [(p, x, y) for (p, x), (_, y) in zip(c0.arrays, c1.arrays)]
            if isinstance(o0, np.ndarray) and isinstance(o1, np.ndarray):
                pairs.append(('result', o0, o1))
            elif isinstance(o0, np.ndarray) != isinstance(o1, np.ndarray) and name in RETURNS:
                mon.fail('%s:%s vs %s:result' % (name, m, ref), 'one returns no array [%s]' % lay)
            for p, x, y in pairs:
                x, y = np.asarray(x), np.asarray(y)
                if x.shape != y.shape:
                    mon.fail('%s:%s vs %s:shape' % (name, m, ref), '%s %s %s [%s]' % (p, x.shape, y.shape, lay))
                    continue
                if x.size == 0 or x.dtype.kind in 'bui':
                    mon.check(np.array_equal(x, y), '%s:%s vs %s' % (name, m, ref), '%s [%s]' % (p, lay))
                    continue
                fx, fy = np.isfinite(x), np.isfinite(y)
                if not fx.all():
                    mon.event('nonfinite reference:'+name)
                    continue
                sc = float(np.max(np.abs(x)))
                err = float(np.max(np.abs(x-y))) if fy.all() else np.inf
                mon.check(err <= self.tol*max(sc, 1e-300), '%s:%s vs %s' % (name, m, ref), '%s err %.2e of %.2e [%s]' % (p, err, sc, lay))


RETURNS = ('leg2cheb', 'cheb2leg', 'restricted_product', 'cross2D', 'cross3D', 'apply_mask')


def refusal(mode, e):
    """reason when the implementation explicitly refuses the operation"""
    s = str(e)
    if isinstance(e, NotImplementedError):
        return 'NotImplemented'
    if isinstance(e, AssertionError):
        return 'assert'
    if isinstance(e, ValueError) and ('Buffer dtype' in s or 'buffer' in s.lower() or 'not C' in s or 'contiguous' in s):
        return 'buffer'
    if isinstance(e, TypeError) and 'No matching signature' in s:
        return 'dtype'
    if isinstance(e, ModuleNotFoundError) and 'shenfun.optimization' in s:
        return 'no implementation'
    if type(e).__name__ == 'TypingError':
        return 'typing'
    return None
