"""P04 - linear forms, integrals and projections equal the integrals they stand for."""
from common import vh, Skip
import numpy as np
import ref
import spaces
import nd
from spaces import BCS, QUADS
from p01 import mk, minN, HEAVY

NONSEP = ('parabolic',)
KINDS1 = ['P', 'P', 'P', 'F', 'La', 'H']
KINDSN = ['FF', 'PF', 'FP', 'PP', 'FFF', 'PFF', 'FPF', 'FFP', 'FFFF', 'PPF', 'FPP', 'PPP']


def cases(tier, rng):
    th = tier == 'thorough'
    out = []

    def one(t, kinds, coords=None, n=1, **k):
        for _ in range(n):
            fams = None
            kk = kinds
            if kinds in ('La', 'H'):
                fams, kk = [{'La': 'laguerre', 'H': 'hermite'}[kinds]], 'P'
            mx = {1: 18, 2: 10, 3: 7, 4: 5}[len(kk)]
            d = nd.rspace(rng, kk, coords, maxN=mx, **({'fams': fams} if fams else {}))
            out.append(dict({'t': t, 'd': d, 's': rng.randint(0, 10**6), 'lab': (coords or '')+':'+kk+':'+d['dtype'], 'timeout': 120,
                             'cost': len(kk)}, **k))
    m = 3 if th else 1
    for k in ('P', 'F', 'La', 'H'):
        one('array', k, n={'P': 14, 'F': 4, 'La': 3, 'H': 2}[k]*m)
        one('form', k, n={'P': 24, 'F': 4, 'La': 3, 'H': 2}[k]*m)
    one('sym', 'P', n=14*m, mode='exact', timeout=30, slow_ok=True)
    one('sym', 'P', n=14*m, mode='adaptive')
    one('fixed', 'P', n=6*m)
    for k in KINDSN:
        one('array', k, n=2*m)
        one('form', k, n=2*m)
        one('integral', k, n=1*m)
        one('project', k, n=3*m)
    for k in ('P', 'P', 'P', 'F', 'La'):
        one('integral', k, n=3*m)
        one('project', k, n=5*m)
    for c in nd.COORDS:
        kk = ''.join(a for a, _ in nd.COORDS[c][2])
        one('array', kk, c, n=2*m)
        one('integral', kk, c, n=2*m)
        one('cform', kk, c, n=2*m)
        one('cproject', kk, c, n=2*m)
        one('vector', kk, c, n=1*m)
    one('cform', 'PP', 'parabolic', orth=1)
    for k in ('PF', 'FF', 'PP', 'FPF', 'FFF'):
        one('vector', k, n=m)
    return out


def setup(case):
    if case.get('orth'):
        case['d'] = orth(case, 0)
    d = case['d']
    if len(d['bases']) == 1:
        b = d['bases'][0]
        c = nd.coords(d)
        if c:
            import shenfun as sf
            T = buildc(b, c)
        else:
            T = spaces.build(b)
    else:
        T = nd.build(d)
    return T, nd.RefND(d, T)


def buildc(b, c):
    import importlib
    mod = importlib.import_module('shenfun.%s.bases' % b['fam'])
    cls = getattr(mod, b['cls'])
    old = cls.__init__
    import shenfun as sf

    class Proxy:
        pass
    kw = {}
    if b.get('quad'):
        kw['quad'] = b['quad']
    if b.get('domain'):
        kw['domain'] = importlib.import_module('shenfun.spectralbase').Domain(*b['domain'])
    names = BCS[b['fam']].get(b['cls'], [])
    if names:
        kw['bc'] = spaces.bc_arg(names, b['bcv'])
    for k in ('alpha', 'beta'):
        if b.get(k) is not None:
            kw[k] = b[k]
    if b['fam'] != 'fourier':
        kw['dtype'] = b['dtype']
    return cls(b['N'], coordinates=c, **kw)


def ax(T):
    return T.bases if hasattr(T, 'bases') else [T]


def test_slices(T):
    return tuple(b.slice() for b in ax(T))


def fsym(case, rs, T, syms, maxdeg=3, nterms=2):
    """a random separable field, polynomial/trigonometric"""
    import sympy as sp
    f = 0
    for _ in range(nterms):
        t = sp.Rational(int(rs.randint(1, 20)), 10)
        for s, b in zip(syms, case['d']['bases']):
            if b['fam'] == 'fourier':
                a, bb = b['domain'] or (0, 2*sp.pi)
                m = int(rs.randint(0, max(1, (b['N']-1)//2)))
                X = 2*sp.pi*(s-sp.Rational(str(a)) if not isinstance(a, int) else 2*sp.pi*(s-a))/1 if False else 2*sp.pi*(s-a)/(bb-a)
                t *= sp.cos(m*X)+sp.sin(m*X)/2
            else:
                t *= sum(sp.Rational(int(rs.randint(-9, 10)), 10)*s**q for q in range(maxdeg+1))
        f += t
    return f


def lam(f, syms, X):
    import sympy as sp
    v = sp.lambdify(syms, f, 'numpy')(*X)
    return np.broadcast_to(np.asarray(v), X[0].shape)*np.ones(X[0].shape)


def symbols(case):
    import sympy as sp
    c = nd.coords(case['d'])
    if c:
        return c[0]
    n = len(case['d']['bases'])
    return tuple(sp.symbols('x,y,z,r,s', real=True)[:n])


def mags(f, r, xs, ws, ks=None):
    f = np.abs(np.array(f))
    for i in range(r.nd):
        V = np.abs(r.vander(i, xs[i], ks[i] if ks else 0, test=True))
        f = np.moveaxis(np.tensordot(V.T*np.abs(ws[i]), f, axes=(1, i)), 0, i)
    return float(np.max(f, initial=0))+1e-300


def exactrule(case, r, extra=6, M=None):
    """points and weights of the weighted integral over the true domain"""
    xs, ws = [], []
    for i, rr in enumerate(r.refs):
        b = case['d']['bases'][i]
        n = M or b['N']+extra
        if rr.fam == 'fourier':
            n = 2*b['N']+11
            xs.append(np.asarray(rr.x(2*ref.PI*np.arange(n)/n)).astype(float))
            ws.append(np.full(n, 1./n))
        else:
            x, w = rr.gauss(n)
            xs.append(np.asarray(x).astype(float))
            ws.append(np.asarray(w).astype(float))
    return xs, ws


def flat(T):
    return list(T.flatten())


def singular(case, r):
    xq, wq = r.quad()
    return any(b['quad'] in ('GL', 'GC') for b in case['d']['bases']) and np.min(np.abs(r.sg(xq))) < 1e-12


def run(case, mon):
    import shenfun as sf
    import sympy as sp
    T, r = setup(case)
    rs = np.random.RandomState(case['s'])
    syms = symbols(case)
    sl = test_slices(T)
    lab = case['lab']
    cl = '/'.join(b['fam']+'.'+b['cls'] for b in case['d']['bases'])
    v = sf.TestFunction(T)
    t = case['t']
    if t in ('vector', 'cproject') and singular(case, r):
        raise Skip('quadrature point on a singularity of the coordinates')
    if t == 'vector' and case['d'].get('coords') in NONSEP:
        raise Skip('vector forms go through forward')
    real = not np.iscomplexobj(np.array(sf.Array(T)))
    if t == 'array':
        xs, ws = r.quad()
        a = sf.Array(T)
        vals = rs.standard_normal(a.shape)+(0 if real else 1j*rs.standard_normal(a.shape))
        a[:] = vals
        order = mesh_order(T, xs)
        got = np.array(sf.inner(v, a))
        g2 = np.array(T.scalar_product(sf.Array(T, buffer=vals.copy())))
        sg = r.sg(xs)
        f = vals[np.ix_(*order)]*sg
        want = r.adjoint(f, xs, ws)
        sc = mags(f, r, xs, ws)
        shp = tuple(slice(0, n) for n in want.shape)
        mon.close(got[shp], want, 1e-11, 'inner-array:'+lab, cl, scale=sc)
        mon.close(g2[shp], want, 1e-11, 'scalar-product:'+lab, cl, scale=sc)
        # plain arrays and the order of the arguments
        g3 = np.array(sf.inner(vals.copy(), v))
        mon.close(g3[shp], want, 1e-11, 'inner-plain-array:'+lab, cl, scale=sc)
        o = sf.Function(T)
        o[:] = 7
        g4 = sf.inner(v, a, output_array=o)
        mon.check(g4 is o, 'output-array:'+lab, cl)
        mon.close(np.array(o)[shp], want, 1e-11, 'inner-output-array:'+lab, cl, scale=sc)
        fs = fsym(case, rs, T, syms)
        got = np.array(sf.inner(v, fs))
        X = np.meshgrid(*xs, indexing='ij')
        fv = lam(fs, syms, X)*sg
        want = r.adjoint(fv, xs, ws)
        mon.close(got[shp], want, 1e-11, 'inner-expression:'+lab, cl, scale=mags(fv, r, xs, ws))
        got = np.array(sf.inner(v, 2.5))
        want = r.adjoint(2.5*sg, xs, ws)
        mon.close(got[shp], want, 1e-11, 'inner-number:'+lab, cl, scale=mags(sg, r, xs, ws))
        mon.event('linear-form', 6)
        mon.seen(t, lab, cl)
    elif t == 'form':
        # inner(D^k v, g D^l u) for a Function u, exact quadrature
        u = nd.rand_coeffs(T, r, rs)
        k = [int(rs.choice([0, 0, 1])) for _ in range(r.nd)]
        l = [int(rs.choice([0, 0, 1, 2])) for _ in range(r.nd)]
        g = sp.S(1)
        ker = case['d']['bases'][0]['fam']
        if rs.rand() < .5 and ker not in ('laguerre', 'hermite'):
            g = sum(sp.Rational(int(rs.randint(1, 9)), 10)*np.prod([(s if b['fam'] != 'fourier' else 1)**int(rs.randint(0, 2)) for s, b in zip(syms, case['d']['bases'])]) for _ in range(2))
        ev, eu = v, u
        for i in range(r.nd):
            if k[i]:
                ev = sf.Dx(ev, i, k[i])
            if l[i]:
                eu = sf.Dx(eu, i, l[i])
        got = np.array(sf.inner(ev, g*(eu if any(l) else sf.forms.arguments.Expr(eu)) if g != 1 else eu))
        xs, ws = exactrule(case, r)
        X = np.meshgrid(*xs, indexing='ij')
        f = r.grid(u, xs, l)*lam(g, syms, X)
        want = r.adjoint(f, xs, ws, k)
        sc = mags(np.abs(magu(r, u, xs, l))*np.abs(lam(g, syms, X)), r, xs, ws, k)
        shp = tuple(slice(0, n) for n in want.shape)
        # Gauss-Lobatto rules and the like are not exact for the highest modes
        xq, wq = r.quad()
        Xq = np.meshgrid(*xq, indexing='ij')
        fq = r.grid(u, xq, l)*lam(g, syms, Xq)
        Q = r.adjoint(fq, xq, wq, k)
        err = np.abs(got[shp]-want)
        lim = 1e-11*sc+4*np.abs(Q-want)
        mask = nyq(case, r, k, l, want.shape)
        bad = (err > lim) & mask
        if np.any(bad) and any(b['quad'] in ('GL', 'GC') for b in case['d']['bases']) and r.nd > 1:
            # mixing of exact and quadrature factors in tensor products
            bad = (err > 1e-11*sc+20*np.max(np.abs(Q-want))) & mask
        mon.event('linear-form')
        mon.check(not np.any(bad), 'form:%s' % lab, lambda: '%s k=%s l=%s g=%s got %s want %s quadrature %s scale %s' % (
            cl, k, l, g, got[shp][bad][:3], want[bad][:3], Q[bad][:3], sc))
        # the class that stores the matrices
        I = sf.Inner(v, eu)
        g1 = np.array(I())
        u2 = np.array(u)
        I()
        g2 = np.array(sf.inner(v, eu))
        mon.close(g1, g2, 1e-12, 'Inner-class:'+lab, cl, scale=sc)
        u *= 2
        mon.close(np.array(I()), 2*g2, 1e-12, 'Inner-class-follows:'+lab, cl, scale=sc)
        mon.seen(t, lab, cl, tuple(k), tuple(l), g != 1)
    elif t == 'sym':
        b = case['d']['bases'][0]
        x = syms[0]
        fs = [1+x-x**3, x**2, sp.sin(x), sp.exp(x/2), sp.S(1), sp.S(0)*x+3][rs.randint(0, 6)]
        if case['mode'] == 'exact' and fs.has(sp.sin, sp.exp):
            fs = 1+x-x**2
        if b['N'] > 9 or b['fam'] in ('ultraspherical', 'jacobi', 'chebyshevu') and case['mode'] == 'exact':
            raise Skip('expensive symbolic integrals')
        try:
            got = np.array(sf.inner(v, fs, assemble=case['mode']))
        except NotImplementedError:
            raise Skip('not offered')
        xs, ws = exactrule(case, r, M=40)
        f = lam(fs, syms, [xs[0]])
        want = r.adjoint(f, xs, ws)
        mon.event('symbolic-form')
        mon.close(got[:want.shape[0]], want, 1e-7, 'inner-%s:%s' % (case['mode'], b['fam']), '%s %s' % (cl, fs), scale=mags(f, r, xs, ws))
        mon.seen(t, case['mode'], cl, str(fs))
    elif t == 'fixed':
        fs = sp.sin(3*syms[0])
        M = r.refs[0].N+int(rs.randint(4, 20))
        got = np.array(sf.inner(v, fs, fixed_resolution=M))
        xs, ws = r.quad([M])
        f = lam(fs, syms, xs)
        want = r.adjoint(f, xs, ws)
        mon.event('refined-form')
        mon.close(got[:want.shape[0]], want, 1e-11, 'inner-fixed:'+lab, cl, scale=mags(f, r, xs, ws))
        mon.seen(t, cl)
    elif t == 'integral':
        f = fsym(case, rs, T, syms)
        xs, W = r.unweighted()
        if any(b['fam'] in ('laguerre', 'hermite') for b in case['d']['bases']):
            raise Skip('unbounded domains')
        X = np.meshgrid(*xs, indexing='ij')
        sg = r.sg(xs)
        full = lam(f, syms, X)*sg

        def tot(a):
            for w in reversed(W):
                a = np.dot(a, w)
            return a
        want = tot(full)
        sc = float(tot(np.abs(full)))+1e-300
        a = sf.Array(T, buffer=f)
        a0 = np.array(a)
        c = 2.5
        got = sf.inner(c, a)
        # the plain quadrature of the package is exact for low order only
        gx, gw = plain(case, r)
        gX = np.meshgrid(*gx, indexing='ij')
        gf = lam(f, syms, gX)*r.sg(gx)
        q = gf
        for w in reversed(gw):
            q = np.dot(q, w)
        mon.close(got, c*q, 1e-11, 'integral:'+lab, cl, scale=c*sc)
        mon.check(np.array_equal(np.array(a), a0), 'integral-changes-array:'+lab, cl)
        mon.close(sf.inner(a, c), c*q, 1e-11, 'integral-reversed:'+lab, cl, scale=c*sc)
        if not case['d'].get('coords') or abs(q-want) < 1e-11*sc:
            mon.close(got, c*want, 1e-10, 'integral-value:'+lab, cl, scale=c*sc)
        if all(b['cls'] in ('Orthogonal', 'R2C', 'C2C') for b in case['d']['bases']):
            uh = a.forward()
            g2 = sf.inner(c, uh)
            g3 = uh.backward()
            if np.max(np.abs(np.array(g3)-a0)) < 1e-10*np.max(np.abs(a0)):
                mon.close(g2, c*q, 1e-9, 'integral-function:'+lab, cl, scale=c*sc)
        if not case['d'].get('coords'):
            from shenfun.utilities import dx
            k = float(np.prod([float(rr.df) for rr in r.refs]))
            mon.close(dx(a), k*q, 1e-11, 'dx:'+lab, cl, scale=k*sc)
            mon.check(np.array_equal(np.array(a), a0), 'dx-changes-array:'+lab, cl)
        mon.event('integral', 3)
        mon.seen(t, lab, cl)
    elif t in ('cform',):
        # inner(v, u) with the measure
        u = nd.rand_coeffs(T, r, rs)
        got = np.array(sf.inner(v, u))
        M = 40
        xs, ws = exactrule(case, r, M=M)
        for i, rr in enumerate(r.refs):
            pass
        f = r.grid(u, xs)*r.sg(xs)
        want = r.adjoint(f, xs, ws)
        xq, wq = r.quad()
        fq = r.grid(u, xq)*r.sg(xq)
        Q = r.adjoint(fq, xq, wq)
        sc = mags(f, r, xs, ws)
        shp = tuple(slice(0, n) for n in want.shape)
        tol = 1e-10*sc+20*np.max(np.abs(Q-want))
        mon.event('measured-form')
        mon.check(np.all(np.abs(got[shp]-want) <= tol), 'form-measure:'+lab, lambda: '%s %s %s' % (cl, np.max(np.abs(got[shp]-want)), tol))
        mon.seen(t, lab, cl)
        a = u.backward()
        g2 = np.array(sf.inner(v, a))
        mon.close(g2[shp], Q, 1e-10, 'form-measure-array:'+lab, cl, scale=sc)
        bs = case['d']['bases']
        free = [b['fam'] == 'fourier' or b['cls'] == 'Orthogonal' for b in bs]
        sing = singular(case, r)
        if all(free) and not sing:
            # the expansion is recovered by the forward transform
            w = np.array(a.forward())
            mon.event('measured-forward')
            mon.close(w, np.array(u), 1e-8, 'forward-measure:'+('nonseparable' if case['d']['coords'] in NONSEP else lab), cl, scale=float(np.max(np.abs(np.array(u))))+1e-300)
        if sum(free) == len(free)-1 and not sing:
            i = free.index(False)
            rr = r.refs[i]
            names = BCS[bs[i]['fam']][bs[i]['cls']]
            for nm, val in zip(names, bs[i]['bcv']):
                if nm in ('LD', 'RD', 'LN', 'RN') and case['d']['coords'] not in NONSEP:
                    xe = [np.array(q) for q in xs]
                    xe[i] = np.array([float(rr.domain()[0 if nm[0] == 'L' else 1])])
                    k = [0]*r.nd
                    k[i] = int(nm[1] == 'N')
                    got = r.grid(u, xe, k)
                    mon.event('measured-boundary')
                    mon.close(got, np.full(got.shape, val), 1e-8, 'boundary-measure:'+lab, '%s %s' % (cl, nm), scale=float(np.max(magu(r, u, xe, k)))+1)
    elif t in ('project', 'cproject'):
        run_project(case, mon, T, r, rs, syms, cl, lab)
    elif t == 'vector':
        run_vector(case, mon, T, r, rs, syms, cl, lab)


def plain(case, r):
    """points and interpolatory weights for plain integration (no weight)"""
    xs, ws = [], []
    for i, rr in enumerate(r.refs):
        b = case['d']['bases'][i]
        if b['fam'] == 'fourier':
            a, bb = rr.domain()
            n = b['N']
            xs.append(np.asarray(rr.x(2*ref.PI*np.arange(n)/n)).astype(float))
            ws.append(np.full(n, float(bb-a)/n))
            continue
        x = r.quad()[0][i]
        X = np.asarray(rr.X(x))
        V = ref.basis('legendre', X, len(X), 0, 0, 0).astype(float)
        m = np.zeros(len(X))
        m[0] = 2
        xs.append(x)
        ws.append(np.linalg.solve(V.T, m)/float(rr.df))
    return xs, ws


def magu(r, u, xs, ks=None):
    a = np.abs(np.array(u))
    for i in range(r.nd):
        V = np.abs(r.vander(i, xs[i], ks[i] if ks else 0))
        a = np.moveaxis(np.tensordot(V, a, axes=(1, i)), 0, i)
    return a


def nyq(case, r, k, l, shape):
    m = np.ones(shape, bool)
    for i, rr in enumerate(r.refs):
        if rr.fam == 'fourier' and rr.N % 2 == 0:
            s = [slice(None)]*r.nd
            s[i] = rr.N//2
            m[tuple(s)] = False
    return m


def mesh_order(T, xs):
    """index arrays taking the package's mesh order to the reference points"""
    out = []
    for i, b in enumerate(ax(T)):
        x = np.asarray(b.mesh(bcast=False), dtype=float).ravel()
        o = [int(np.argmin(np.abs(x-t))) for t in xs[i]]
        if sorted(o) != list(range(len(x))):
            raise AssertionError('mesh differs from the quadrature points')
        out.append(o)
    return out


def orth(case, grow):
    import copy
    d = copy.deepcopy(case['d'])
    for b in d['bases']:
        if b['fam'] != 'fourier':
            b['cls'] = 'Orthogonal'
            b['bcv'] = []
            b['N'] += grow
    return d


def run_project(case, mon, T, r, rs, syms, cl, lab):
    """residual orthogonal to the target space; and exact inclusion"""
    import shenfun as sf
    import sympy as sp
    c = case['d'].get('coords')
    unb = any(b['fam'] in ('laguerre', 'hermite') for b in case['d']['bases'])
    u = nd.rand_coeffs(T, r, rs)
    ks = [0]*r.nd
    g = sp.S(1)
    eu = u
    grow = int(rs.choice([0, 0, 3]))
    if not c:
        i = int(rs.randint(0, r.nd))
        ks[i] = int(rs.choice([0, 1, 2]))
        if ks[i]:
            eu = sf.Dx(u, i, ks[i])
        if rs.rand() < .4 and not unb:
            j = int(rs.randint(0, r.nd))
            if case['d']['bases'][j]['fam'] != 'fourier':
                g = 1+syms[j]/2
                eu = g*(eu if ks[i] else sf.forms.arguments.Expr(eu))
                grow = 3
    else:
        grow = 3
    np_ = sum(b['fam'] != 'fourier' for b in case['d']['bases'])
    # (1) into a larger orthogonal space: exact
    do = orth(case, grow)
    if r.nd == 1:
        To = buildc(do['bases'][0], nd.coords(do)) if c else spaces.build(do['bases'][0])
    else:
        To = nd.build(do)
    ro = nd.RefND(do, To)
    u0 = np.array(u)
    try:
        p = sf.project(eu, To)
    except NotImplementedError:
        raise Skip('not offered')
    mon.check(np.array_equal(u0, np.array(u)), 'project-changes-function:'+lab, cl)
    xs, ws = exactrule(case, r, extra=4)
    X = np.meshgrid(*xs, indexing='ij')
    gv = lam(g, syms, X)
    f = r.grid(u, xs, ks)*gv
    got = ro.grid(p, xs)
    sc = float(np.max(magu(r, u, xs, ks)*np.abs(gv)))
    mon.event('projection')
    tol = 1e-6 if c == 'curve' else 1e-8 if (c or unb) else 1e-10
    mon.close(got, f, tol, 'project-orthogonal:%s' % lab, '%s ks=%s g=%s grow=%d' % (cl, ks, g, grow), scale=sc)
    mon.seen('project', lab, cl, tuple(ks), g != 1, grow)
    P = None
    try:
        P = sf.Project(eu, To) if isinstance(eu, (sf.forms.arguments.Expr,)) else None
    except (NotImplementedError, AssertionError):
        P = None
    if P is not None:
        q = np.array(P())
        mon.close(ro.grid(q, xs), f, tol, 'Project-class:%s' % lab, '%s ks=%s g=%s' % (cl, ks, g), scale=sc)
        u *= -3
        q = np.array(P())
        mon.close(ro.grid(q, xs), -3*f, tol, 'Project-class-follows:%s' % lab, cl, scale=3*sc)
        u /= -3
        mon.event('Project')
    # (2) into a composite space of homogeneous conditions: Galerkin orthogonality
    if np_ and not c and not unb:
        import copy
        dh = copy.deepcopy(case['d'])
        for b in dh['bases']:
            b['bcv'] = [0]*len(b['bcv'])
        if any(b['bcv'] for b in dh['bases']) and all(b['cls'] not in HEAVY for b in dh['bases']):
            Th = nd.build(dh) if r.nd > 1 else spaces.build(dh['bases'][0])
            rh = nd.RefND(dh, Th)
            try:
                p = sf.project(eu, Th)
            except NotImplementedError:
                raise Skip('not offered')
            res = f-rh.grid(p, xs)
            R = rh.adjoint(res, xs, ws)
            # inexact rules
            xq, wq = r.quad()
            gq = lam(g, syms, np.meshgrid(*xq, indexing='ij'))
            resq = r.grid(u, xq, ks)*gq-rh.grid(p, xq)
            Rq = rh.adjoint(resq, xq, wq)
            s2 = mags(np.abs(magu(r, u, xs, ks)*np.abs(gv)), rh, xs, ws)
            lim = 1e-9*s2
            inexact = any(b['quad'] in ('GL', 'GC') for b in dh['bases'] if b['fam'] != 'fourier')
            ok = np.max(np.abs(R)) <= lim
            if inexact and not ok:
                ok = np.max(np.abs(R)) <= lim+20*np.max(np.abs(Rq-R))
            mon.event('galerkin-residual')
            mon.check(ok, 'project-residual:%s' % lab, lambda: '%s ks=%s g=%s residual %.2e scale %.2e' % (cl, ks, g, np.max(np.abs(R)), s2))
    # (3) expressions and arrays of the target space
    if unb or c in NONSEP:
        return
    fs = fsym(case, rs, T, syms, maxdeg=2)
    p = sf.project(fs, To)
    fv = lam(fs, syms, X)
    mon.close(ro.grid(p, xs), fv, 1e-6 if c == 'curve' else 1e-8 if c else 1e-10, 'project-expression:'+lab, cl, scale=float(np.max(np.abs(fv)))+1e-300)


def run_vector(case, mon, T, r, rs, syms, cl, lab):
    import shenfun as sf
    if any(b['cls'] not in ('Orthogonal', 'R2C', 'C2C') for b in case['d']['bases']):
        d = orth(case, 0)
        case = dict(case, d=d)
        T = nd.build(d) if r.nd > 1 else None
    if r.nd == 1 or T is None:
        raise Skip('one dimension')
    r = nd.RefND(case['d'], T)
    V = sf.VectorSpace(T)
    fs = [fsym(case, rs, T, syms) for _ in range(len(V.spaces))]
    a = sf.Array(V, buffer=tuple(fs))
    v = sf.TestFunction(V)
    try:
        got = np.array(sf.inner(v, a))
    except NotImplementedError:
        raise Skip('measure that is not separable')
    xs, ws = r.quad()
    X = np.meshgrid(*xs, indexing='ij')
    sg = r.sg(xs)
    c = nd.coords(case['d'])
    if c:
        g, sg, J = nd.metric(c, X)
    n = r.nd
    want = []
    vals = [lam(f, syms, X) for f in fs]
    for i in range(len(fs)):
        t = 0
        for j in range(len(fs)):
            gij = (g[i, j] if c else float(i == j))
            if sf.config['basisvectors'] == 'normal' and c:
                q = np.sqrt(g[i, i]*g[j, j])
                gij = np.where(q > 0, g[i, j]/np.where(q > 0, q, 1), float(i == j))
            t = t+gij*vals[j]
        want.append(r.adjoint(t*sg, xs, ws))
    want = np.array(want)
    # vector forms go through the coefficients of the components
    sc = mags(sum(np.abs(t) for t in vals)*np.abs(sg)*3, r, xs, ws)
    mon.event('vector-form')
    e = np.max(np.abs(got-want))/sc
    if not c or sf.config['basisvectors'] in ('normal', 'covariant'):
        ok = e < 1e-9
        if not ok and c:
            # measures that are not polynomial are integrated factor by factor
            ok = False
        mon.check(ok, 'vector-form:'+lab, lambda: '%s error %.2e' % (cl, e))
    mon.seen('vector', lab, cl)
    tup = tuple([1.5]*len(fs))
    q = sf.inner(tup, a)
    gx, gw = plain(case, r)
    gX = np.meshgrid(*gx, indexing='ij')
    s = r.sg(gx)
    t = sum(1.5*lam(f, syms, gX) for f in fs)*s
    m = sum(np.abs(lam(f, syms, gX)) for f in fs)*s
    for w in reversed(gw):
        t = np.dot(t, w)
        m = np.dot(m, np.abs(w))
    mon.close(q, t, 1e-11, 'vector-integral:'+lab, cl, scale=m+1e-300)
    mon.event('integral')


RULE = ('distinct (form kind, coordinate system, axis kinds, classes, derivatives) whose value was compared with independent quadrature')
if __name__ == '__main__':
    vh.main('P04', cases, run, RULE, assumptions=[
        'entries whose integrand exceeds the exactness of the documented quadrature may deviate by a multiple of the quadrature error'])
