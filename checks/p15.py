"""P15: time integrators against an accurate solution of the same semi-discrete system."""
import numpy as np
import common  # noqa: F401
import vh

RULE = ('the observed order of every integrator on random linear, nonlinear, dispersive, reactive and forced problems is at least that of its scheme, measured against '
        'a tightly controlled adaptive solution of the same semi-discrete system; exponential integrators are exact for linear problems; integration over pieces, '
        'update hooks, repeated and interleaved use are compared step by step')
ORDER = {'RK4': 4, 'ETDRK4': 4, 'ETD': 1, 'BackwardEuler': 1, 'IRK3': 3, 'IMEXRK3': 3, 'IMEXRK011': 1, 'IMEXRK111': 1, 'IMEXRK222': 2, 'IMEXRK443': 3}


def cases(tier, rng):
    T = tier == 'thorough'
    out = []
    for rep in range(10 if T else 2):
        for m in ('RK4', 'ETDRK4', 'ETD'):
            for sp in ('F', 'F', 'FF', 'FF', 'FFF', 'VFF'):
                for k in ('order', 'linear', 'hist') if rep % 2 == 0 else ('order', 'linear'):
                    out.append({'kind': k, 'm': m, 'sp': sp, 's': rng.randint(0, 10**6), 'cost': 4})
        for m in ('IRK3', 'BackwardEuler', 'IMEXRK3', 'IMEXRK111', 'IMEXRK222', 'IMEXRK443', 'IMEXRK011'):
            for sp in ('P', 'P', 'FP', 'PF', 'F', 'PP', 'FPF', 'VFP', 'I', 'FI'):
                if m.startswith('IMEX') and sp in ('PP', 'VFP', 'F', 'FF') or m == 'IMEXRK011' and len(sp) > 1:
                    continue
                out.append({'kind': 'order', 'm': m, 'sp': sp, 's': rng.randint(0, 10**6), 'cost': 6})
                if rep % 2 == 0:
                    out.append({'kind': 'hist', 'm': m, 'sp': sp, 's': rng.randint(0, 10**6), 'cost': 3})
    return out


class Prob:
    """a random problem u_t = L u + N(u) on a random space"""

    def __init__(self, case, lin=None):
        import shenfun as sf
        self.sf = sf
        rs = self.rs = np.random.default_rng(case['s'])
        self.case = case
        self.m = case['m']
        sp = case['sp'].replace('V', '')
        vec = 'V' in case['sp']
        self.fou = 'P' not in sp and 'I' not in sp
        self.tiny = False
        self.real = bool(rs.random() < .6)
        bs = []
        nF = sp.count('F')
        mx = {1: 17, 2: 9, 3: 7}[len(sp)]
        r2c = -1
        if self.real and nF:
            r2c = max(i for i, c in enumerate(sp) if c == 'F')
        self.fam = ''
        for i, c in enumerate(sp):
            if c == 'F':
                N = int(rs.integers(5, mx))
                bs.append(sf.FunctionSpace(N, 'F', dtype='d' if i == r2c else 'D', **({'domain': (0, float(rs.choice([1, 3])))} if rs.random() < .3 else {})))
            else:
                f = str(rs.choice(['C', 'L', 'L', 'C', 'J' if len(sp) == 1 else 'L']))
                dom = (float(rs.choice([-1, 0])), float(rs.choice([1, 2])))
                a, b = (0, 0) if c == 'P' else rs.standard_normal(2)
                bc = [{'left': {'D': float(a)}, 'right': {'D': float(b)}}, {'left': {'N': float(a)}, 'right': {'D': float(b)}} if f != 'J' else (float(a), float(b)),
                      {'left': {'D': float(a)}, 'right': {'N': float(b)}} if f != 'J' else (float(a), float(b))][int(rs.integers(0, 3)) if len(sp) == 1 else 0]
                bs.append(sf.FunctionSpace(int(rs.integers(7, 12 if len(sp) == 1 else 10)), f, bc=bc, domain=dom, **({'dtype': 'd'} if nF or self.real else {'dtype': 'D'})))
                self.fam += f+c
        self.bs = bs
        if len(sp) == 1:
            T = bs[0]
        else:
            ax = [i for i, c in enumerate(sp) if c != 'F']+[i for i, c in enumerate(sp) if c == 'F' and i != r2c]+([r2c] if r2c >= 0 else [])
            T = sf.TensorProductSpace(sf.comm, bs, axes=tuple(ax), dtype='d' if self.real else 'D', **({'slab': True} if len(sp) == 3 else {}))
        self.T0 = T
        self.T = sf.VectorSpace(T) if vec else T
        self.vec, self.dim = vec, len(sp)
        # operator
        nu = float(rs.uniform(.2, 1))
        r = float(rs.uniform(-1, 1))
        kinds = ['diff', 'diff', 'react']
        if self.m in ('IRK3', 'IMEXRK3') and rs.random() < .4:
            lin = ['diff']
            nu *= 1e-9
            self.tiny = True
        if self.fou:
            kinds += ['adv', 'disp', 'mix', 'mix']
        elif self.dim == 1:
            kinds += ['adv']
        if not self.real and self.fou:
            kinds += ['schroed', 'schroed']
        if lin:
            kinds = lin
        self.kind = str(rs.choice(kinds))
        c = float(rs.uniform(-1, 1))
        d = int(rs.integers(0, self.dim))

        def L(u):
            E = u if isinstance(u, sf.Expr) else sf.Expr(u)
            if vec:
                return {'diff': lambda: nu*sf.div(sf.grad(u)), 'react': lambda: nu*sf.div(sf.grad(u))+r*E}.get(self.kind, lambda: nu*sf.div(sf.grad(u)))()
            D = sf.div(sf.grad(u))
            return {'diff': lambda: nu*D, 'react': lambda: nu*D+r*E, 'adv': lambda: nu*D+c*sf.Dx(u, d, 1), 'disp': lambda: -1*sf.Dx(u, d, 3),
                    'mix': lambda: .3*nu*D+c*sf.Dx(u, d, 1)+.1*sf.Dx(u, d, 3), 'schroed': lambda: 1j*nu*D}[self.kind]()
        self.L = L
        self.nl = str(rs.choice(['square', 'cubic', 'none', 'square', 'cubic']))
        self.amp = float(rs.uniform(.5, 2))
        self.timed = not self.fou and self.m in ('IRK3',) and rs.random() < .4
        self.lab = '%s %s %s dim %d %s L=%s N=%s%s' % (self.m, case['sp'], self.fam, self.dim, 'real' if self.real else 'complex', self.kind, self.nl, ' forced' if self.timed else '')
        v = sf.TestFunction(self.T)
        self.v = v
        self.nonzero = 'I' in sp
        u = sf.TrialFunction(self.T)
        if self.nonzero:
            H = self.T.get_homogeneous()
            u = sf.TrialFunction(H)
        self.uh = sf.Function(self.T)
        self.bc = None
        self.Lu = L(self.uh)
        self.H = u.function_space()
        M = sf.inner(sf.TestFunction(u.function_space()) if self.nonzero else v, u)
        M = M if isinstance(M, list) else [M]
        if vec:
            self.Ms = sf.la.BlockMatrixSolver(M)
        elif self.dim == 1:
            self.Ms = sf.la.Solver(M)
        else:
            n = len([1 for q in sp if q != 'F'])
            self.Ms = sf.la.SolverGeneric2ND(M) if n == 2 else sf.la.SolverGeneric1ND(M) if n else M[0].solve
        self.zero = sf.Function(self.T)
        self.mask = self.T.get_mask_nyquist() if hasattr(self.T, 'get_mask_nyquist') else None
        self.masked = self.m in ('IRK3', 'BackwardEuler') or self.m.startswith('IMEX')

    def init(self, scale=1.):
        sf = self.sf
        rs = np.random.default_rng(self.case['s']+7)
        ua = sf.Array(self.T)
        ua[...] = rs.standard_normal(ua.shape)*scale
        if ua.dtype.kind == 'c':
            ua += 1j*rs.standard_normal(ua.shape)*scale
        uh = sf.Function(self.T)
        uh = self.T.forward(ua, uh)
        # decay
        for i, b in enumerate(self.bs):
            n = uh.shape[uh.ndim-self.dim+i]
            k = np.abs(b.wavenumbers(scaled=False)) if b.family() == 'fourier' else np.arange(n)
            w = np.exp(-.5*k)
            if b.family() == 'fourier' and b.N % 2 == 0:
                w[b.N//2] = 0
            if b.family() != 'fourier':
                w[b.dim():] = 1
            uh *= w.reshape((-1,)+(1,)*(self.dim-1-i))
        uh = self.T.forward(self.T.backward(uh, ua), uh)
        if self.nonzero and self.dim == 1:
            uh.set_boundary_dofs()
        return uh

    def nonlin(self, uh, out, t=0., galerkin=True):
        """N(u): scalar product (galerkin) or coefficients"""
        sf = self.sf
        if self.nl == 'none' and not self.timed:
            out.fill(0)
            return out
        ua = self.T.backward(uh, sf.Array(self.T))
        w = np.asarray(ua)
        a = self.amp*(w**2 if self.nl == 'square' else -w*np.abs(w)**2 if self.nl == 'cubic' else 0*w)
        if self.nl == 'square':
            a = a/(1+.1*np.abs(w)**2)
        if self.timed:
            a = a+np.cos(3*t)*(1+0*w)
        f = sf.Array(self.T, buffer=a)
        if galerkin:
            out = self.T.scalar_product(f, out)
        else:
            out = self.T.forward(f, out)
        if self.mask is not None and not self.fou:
            out.mask_nyquist(self.mask)
        return out

    def rate(self, a, t):
        """du/dt of the coefficients"""
        sf = self.sf
        self.uh[...] = a
        b = sf.inner(self.v, self.Lu, output_array=sf.Function(self.T)) if self.m != 'IMEXRK011' else sf.Function(self.T)
        b = np.asarray(b)+np.asarray(self.nonlin(self.uh, sf.Function(self.T), t))
        f = sf.Function(self.T)
        f[...] = b
        if self.mask is not None and self.masked:
            f.mask_nyquist(self.mask)
        w = sf.Function(self.H)
        fh = sf.Function(self.H)
        fh[...] = f
        self.Ms(fh, w)
        w = np.array(w)
        if not self.fou:
            for i, bb in enumerate(self.bs):
                if bb.family() != 'fourier':
                    s = [slice(None)]*w.ndim
                    s[w.ndim-self.dim+i] = slice(bb.dim(), None)
                    w[tuple(s)] = 0
        return w

    def reference(self, u0, t1, t0=0.):
        from scipy.integrate import solve_ivp
        cplx = u0.dtype.kind == 'c'

        def pack(a):
            return np.ascontiguousarray(a).reshape(-1).view(float) if cplx else np.asarray(a).reshape(-1)

        def unpack(y):
            return (np.ascontiguousarray(y).view(complex) if cplx else y).reshape(u0.shape)
        s = solve_ivp(lambda t, y: pack(self.rate(unpack(y), t)), (t0, t1), pack(u0).copy(), method='DOP853', rtol=3e-12, atol=1e-13)
        return unpack(s.y[:, -1])

    def radius(self, u0):
        """estimate of the spectral radius of the linearised system"""
        rs = np.random.default_rng(1)
        f0 = self.rate(u0, 0.)
        x = rs.standard_normal(u0.shape)*(np.abs(u0) > -1)
        if not self.fou:
            x = self.rate(x.astype(u0.dtype), 0.)-self.rate(0*u0, 0.)
        lam = 1.
        for _ in range(25):
            n = np.linalg.norm(x)
            if n < 1e-300:
                return 1.
            x = x/n*1e-4
            x = (self.rate(u0+x, 0.)-f0)*1e4
            lam = np.linalg.norm(x)
        return float(lam)

    # ---- package side
    def integrator(self, update=None, lform=None):
        sf = self.sf
        p = self
        lf = lform or str(self.rs.choice(['expr', 'expr', 'array'])) if self.fou and not self.vec else 'expr'
        self.lform = lf
        if self.m in ('RK4', 'ETD', 'ETDRK4'):
            if lf == 'number':
                LL = lambda self, u, **kw: -.7  # noqa: E731
            elif lf == 'array':
                A = self.symbol()
                LL = lambda self, u, **kw: A  # noqa: E731
            else:
                LL = lambda self, u, **kw: p.L(u)  # noqa: E731

            def NN(self, u, u_hat, rhs, **kw):
                return p.nonlin(u_hat, rhs, galerkin=False)
            return getattr(sf, self.m)(self.T, L=LL, N=NN, update=update)
        if self.m in ('IRK3', 'BackwardEuler'):
            def NN(self, u, u_hat, rhs, **kw):
                return p.nonlin(u_hat, rhs, kw.get('ti', 0.))
            return getattr(sf, self.m)(self.T, L=lambda self, u, **kw: p.L(u), N=NN, update=update)
        raise KeyError

    def symbol(self):
        """eigenvalues of L over the wavenumbers"""
        K = self.T.local_wavenumbers(scaled=True) if self.dim > 1 else [self.T.wavenumbers(scaled=True)]
        u = self.sf.Function(self.T)
        u[...] = 1
        b = self.sf.inner(self.v, self.L(u), output_array=self.sf.Function(self.T))
        w = self.sf.Function(self.T)
        self.Ms(b, w)
        return np.array(w)

    def solve(self, u0, dt, tr, I=None):
        sf = self.sf
        if self.m.startswith('IMEX'):
            return self.imex(u0, dt, tr)
        I = I or self.integrator()
        uh = sf.Function(self.T)
        uh[...] = u0
        return np.array(I.solve(sf.Array(self.T), uh, dt, tr))

    def imex(self, u0, dt, tr, obj=None):
        sf = self.sf
        pde, uh, h = obj or self.pde(dt)
        uh[...] = u0
        n = int(round((tr[1]-tr[0])/dt))
        for _ in range(n):
            for rk in range(pde.steps()):
                self.stage(pde, uh, h, rk)
        return np.array(uh)

    def stage(self, pde, uh, h, rk):
        w = np.asarray(self.T.backward(uh, self.sf.Array(self.T)))
        f = self.amp*(w**2/(1+.1*np.abs(w)**2) if self.nl == 'square' else -w*np.abs(w)**2 if self.nl == 'cubic' else 0*w)
        h[0][...] = .7*f
        h[1][...] = f-.7*f
        pde.compute_rhs(rk)
        pde.solve_step(rk)

    def pde(self, dt):
        sf = self.sf
        uh = sf.Function(self.T)
        h = [sf.Array(self.T), sf.Array(self.T)]
        cls = getattr(sf.utilities.integrators, self.m)
        v = sf.TestFunction(self.T)
        sol = {1: sf.la.Solver}.get(self.dim, sf.la.SolverGeneric1ND) if self.rs.random() < .5 else None
        two = sf.utilities.integrators
        pde = cls(v, uh, lambda f: self.L(f), [h[0], h[1]], dt=dt, solver=sol)
        pde.assemble()
        return pde, uh, h


def run(case, mon):
    try:
        globals()[case['kind']](case, mon)
    except vh.Skip as e:
        mon.skip(str(e))


def order(case, mon):
    P = Prob(case)
    if P.tiny:
        P.nl = ['square', 'cubic'][case['s'] % 2]
        P.amp *= 3
    u0 = np.array(P.init())
    lam = P.radius(u0)
    p = ORDER[P.m]
    implicit_lin = P.m in ('IRK3', 'IMEXRK3')
    if implicit_lin and not P.tiny:
        # third order for the explicit terms, Crank-Nicolson substeps for the implicit ones
        p = 2
    dt = {1: .1, 2: .2, 3: .3, 4: .5}[p]/max(lam, 1.)
    if P.m == 'ETD':
        dt = .1/max(P.amp*3*max(1, np.max(np.abs(u0))), 1)
        dt = min(dt, 5/lam)
    n = 8
    T1 = n*dt
    ref = P.reference(u0, T1)
    sc = np.max(np.abs(ref))
    if not np.isfinite(sc):
        return mon.skip('blow up')
    chg = np.max(np.abs(ref-u0))
    errs = []
    for k in range(3):
        w = P.solve(u0, dt/2**k, (0., T1))
        if not np.all(np.isfinite(w)):
            return mon.fail('%s:not finite' % P.m, P.lab)
        errs.append(float(np.max(np.abs(w-ref)))/sc)
    mon.event('integrated')
    mon.seen(P.m, P.case['sp'], P.kind, P.nl, P.real)
    floor = 2e-11
    if errs[-1] < floor:
        return mon.check(True, P.m+':order', '')
    rates = [np.log2(errs[i]/errs[i+1]) for i in range(2)]
    mon.event('order measured')
    ok = rates[-1] >= p-.4 or errs[-2] < floor
    if ok and implicit_lin and not P.tiny and errs[-2] > floor and rates[-1] < 2.6:
        mon.fail('%s:order:implicit linear term is of second order' % P.m, 'observed %.2f %.2f %s' % (rates[0], rates[1], P.lab))
    mon.check(ok, '%s:order' % P.m, 'observed %.2f %.2f, errors %.1e %.1e %.1e (change of the solution %.1e) dt %.1e lambda %.1e %s %s' % (
        rates[0], rates[1], errs[0], errs[1], errs[2], chg/sc, dt, lam, P.lab, getattr(P, 'lform', '')))


def linear(case, mon):
    """exponential integrators are exact for linear problems, and convergent for dispersive ones"""
    P = Prob(case)
    P.nl = 'none'
    u0 = np.array(P.init())
    sy = P.symbol()
    dt = float(P.rs.choice([.01, .1, .7]))
    if P.m == 'RK4':
        dt = min(dt, .3/max(1e-3, np.max(np.abs(sy))))
    n = int(P.rs.integers(1, 6))
    number = not P.vec and P.rs.random() < .2
    if number:
        sy = np.full(u0.shape, -.7)
        dt = min(dt, .3)
        I = P.integrator(None, 'number')
    elif P.rs.random() < .4:
        # one setup call before, as in the documentation
        I = P.integrator()
        I.setup(dt)
    else:
        I = P.integrator()
    w = P.solve(u0, dt, (0., n*dt), I)
    sym = sy if not P.vec else sy
    if P.m == 'RK4':
        z = dt*sym
        g = 1+z+z**2/2+z**3/6+z**4/24
        want = u0*g**n
    else:
        want = u0*np.exp(n*dt*sym)
    sc = np.max(np.abs(want))
    e = np.max(np.abs(w-want))
    mon.event('linear problem')
    mon.seen(P.m, 'linear', P.case['sp'], P.kind, P.lform)
    mon.check(e <= 1e-10*max(sc, 1e-30), '%s:linear' % P.m, 'err %.1e of %.1e n %d dt %g %s %s' % (e, sc, n, dt, P.lab, P.lform))


def hist(case, mon):
    P = Prob(case)
    sf = P.sf
    u0 = np.array(P.init())
    lam = P.radius(u0)
    dt = .3/max(lam, 1.)
    n = int(P.rs.integers(3, 8))
    k = int(P.rs.integers(1, n))

    def close(a, b, mech, det=''):
        e = np.max(np.abs(np.asarray(a)-np.asarray(b)))
        s = np.max(np.abs(b))
        mon.check(e <= 1e-11*max(s, 1e-30), '%s:%s' % (P.m, mech), 'err %.1e of %.1e n %d k %d %s %s' % (e, s, n, k, P.lab, det))
    if P.m.startswith('IMEX'):
        full = P.imex(u0, dt, (0, n*dt))
        obj = P.pde(dt)
        a = P.imex(u0, dt, (0, k*dt), obj)
        other = P.pde(dt*.3)
        P.imex(u0, dt*.3, (0, .6*dt), other)
        b = P.imex(a, dt, (0, (n-k)*dt), obj)
        close(b, full, 'pieces')
        obj2 = P.pde(dt)
        c = P.imex(a, dt, (0, (n-k)*dt), obj2)
        close(c, full, 'pieces with a new object')
        close(P.imex(u0, dt, (0, n*dt), obj), full, 'repeated')
        # interleaved with another problem, stage by stage
        A, B = P.pde(dt), P.pde(.7*dt)
        A[1][...] = u0
        B[1][...] = u0
        for _ in range(n):
            for rk in range(A[0].steps()):
                P.stage(*A, rk)
                P.stage(*B, rk)
        close(A[1], full, 'interleaved')
        close(B[1], P.imex(u0, .7*dt, (0, n*.7*dt)), 'interleaved second')
        mon.event('histories')
        return
    log = []
    lform = str(P.rs.choice(['expr', 'array'])) if P.fou and not P.vec else None

    def upd(self, u, u_hat, t, tstep, **kw):
        log.append((t, tstep, np.array(u_hat)))
        if u_hat.shape != u0.shape:
            mon.fail('hook:shape', '')
    full = P.solve(u0, dt, (0., n*dt), P.integrator(upd, lform))
    full_log = list(log)
    mon.check(len(log) == n and [q[1] for q in log] == list(range(1, n+1)), '%s:hook called once per step' % P.m, '%s for %d steps %s' % ([q[1] for q in log], n, P.lab))
    mon.check(np.allclose([q[0] for q in log], dt*np.arange(1, len(log)+1), rtol=1e-12), '%s:hook time' % P.m, '%s dt %g' % ([q[0] for q in log], dt))
    if log:
        close(log[-1][2], full, 'hook state')
    # pieces, same object; other integrators in between
    I = P.integrator(None, lform)
    a = P.solve(u0, dt, (0., k*dt), I)
    if len(log) >= k and P.m != 'BackwardEuler':
        close(a, full_log[k-1][2], 'state after %s steps' % 'k')
    other = P.integrator(None, lform)
    P.solve(.5*u0, .37*dt, (0., dt), other)
    t0 = 0.
    for _ in range(k):
        t0 += dt
    b = P.solve(a, dt, (t0, n*dt), I)
    close(b, full, 'pieces')
    if P.m != 'BackwardEuler':
        c = P.solve(a, dt, (t0, n*dt), P.integrator(None, lform))
        close(c, full, 'pieces with a new object')
        close(P.solve(u0, dt, (0., n*dt), I), full, 'repeated')
        # change of step and back
        d1 = P.solve(u0, .5*dt, (0., n*dt), I)
        d2 = P.solve(u0, .5*dt, (0., n*dt), P.integrator(None, lform))
        close(d1, d2, 'changed step')
        close(P.solve(u0, dt, (0., n*dt), I), full, 'step changed back')
    # shifted time interval
    if not P.timed:
        J = P.integrator(upd, lform)
        log.clear()
        close(P.solve(u0, dt, (2., 2.+n*dt), J), full, 'shifted interval')
        mon.check(len(log) == n and abs(log[0][0]-2-dt) < 1e-9, '%s:hook time shifted' % P.m, '%s' % [q[0] for q in log])
    # hooks may look at the solution without disturbing it
    def peek(self, u, u_hat, t, tstep, **kw):
        u_hat.backward()
        u[...] = 77
        kw.clear()
    close(P.solve(u0, dt, (0., n*dt), P.integrator(peek, lform)), full, 'peeking hook')
    mon.event('histories')
    mon.seen(P.m, 'hist', P.case['sp'], P.kind)


if __name__ == '__main__':
    vh.main('P15', cases, run, RULE)
