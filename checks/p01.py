"""P01 - transforms are exact on the span of the basis."""
from common import vh, Skip
import numpy as np
import ref
import spaces
from spaces import BCS, QUADS, KINDS, POLY

HEAVY = {'Phi3', 'Phi4', 'Phi6', 'Compact3', 'Compact4'}
# bases reachable only as test functions or by name; kept in the walk


def bcvals(rng, names, inhom):
    return [round(rng.uniform(-2, 2), 2) if inhom else 0 for _ in names]


def mk(rng, fam, cls, N, quad, domain=None, inhom=False, dtype='d', pf=1):
    d = {'fam': fam, 'cls': cls, 'N': N, 'quad': quad, 'domain': domain, 'bcv': bcvals(rng, BCS[fam][cls], inhom),
         'pf': pf}
    if fam == 'fourier':
        d['dtype'] = 'd' if cls == 'R2C' else 'D'
    else:
        d['dtype'] = dtype
    if fam == 'jacobi':
        a, b = rng.choice([(0, 0), (1, 1), (0, 1), (2, 0), (0.5, 1.5), (0.7, -0.3), (1, 2)])
        d['alpha'], d['beta'] = a, b
    if fam == 'ultraspherical':
        d['alpha'] = rng.choice([0, 0.5, 1, 1.5, 2, -0.25, 0.7])
    return d


def minN(fam, cls):
    n = len(BCS[fam][cls])
    return (2*n+1 if n else 3) if fam != 'fourier' else 2


def pool(names):
    return [n for n in names]


def cases(tier, rng):
    out = []
    thorough = tier == 'thorough'
    doms = ['ref', 'shift', 'small', 'big', 'rand']
    for fam, cl in BCS.items():
        for cls, names in cl.items():
            for quad in QUADS[fam]:
                if cls == 'Phi6' and not thorough and (fam, quad) != ('legendre', 'LG'):
                    continue        # the symbolic construction takes long
                if fam == 'chebyshev' and quad == 'GU':
                    continue        # not a documented quadrature of this family
                sizes = set()
                base = [minN(fam, cls), 2*rng.randint(4, 8), 2*rng.randint(4, 8)+1]
                if thorough:
                    base += [minN(fam, cls)+1, 2*rng.randint(9, 20), 2*rng.randint(9, 20)+1, rng.randint(20, 50)]
                if cls == 'Phi6':
                    base = [rng.randint(14, 18)]
                for i, N in enumerate(base):
                    N = max(N, minN(fam, cls))
                    if fam == 'laguerre':
                        N = min(N, 30)
                    inhom = bool(names) and (i % 2 == 1 or rng.random() < 0.5)
                    dtype = rng.choice('dD')
                    pf = rng.choice([1, 1, 1.5, 2, round(rng.uniform(1.1, 2.2), 2)]) if i else 1
                    if fam in ('laguerre', 'hermite'):
                        dom = None
                    else:
                        dom = spaces.rdomain(rng, doms[i % 5] if i < 3 else None)
                    if fam == 'fourier':
                        dom = rng.choice([None, [0, 1], [-1, 2.5]])
                    d = mk(rng, fam, cls, N, quad, dom, inhom, dtype, pf)
                    if cls in HEAVY:
                        d['cost'] = 10
                    key = (N, str(dom), pf, inhom)
                    if key in sizes:
                        continue
                    sizes.add(key)
                    out.append({'t': 'one', 'd': d, 's': rng.randint(0, 10**6), 'cost': d.pop('cost', 1)})
    # witness of a known finding
    d = mk(rng, 'jacobi', 'Orthogonal', 8, 'JG')
    d['alpha'], d['beta'] = -0.5, 0.5
    out.append({'t': 'one', 'd': d, 's': 1})
    nt = 120 if thorough else 36
    for i in range(nt):
        out.append(tp_case(rng, i))
    return out


TPPOOL = [('chebyshev', 'Orthogonal'), ('chebyshev', 'ShenDirichlet'), ('chebyshev', 'ShenNeumann'),
          ('chebyshev', 'ShenBiharmonic'), ('legendre', 'Orthogonal'), ('legendre', 'ShenDirichlet'),
          ('legendre', 'ShenBiharmonic'), ('chebyshevu', 'CompactDirichlet'), ('chebyshevu', 'Orthogonal'),
          ('jacobi', 'Orthogonal'), ('jacobi', 'CompactDirichlet'), ('ultraspherical', 'CompactDirichlet'),
          ('laguerre', 'CompactDirichlet'), ('hermite', 'Orthogonal'), ('chebyshev', 'UpperDirichlet'),
          ('legendre', 'UpperDirichletNeumann'), ('chebyshev', 'MikNeumann'), ('legendre', 'LowerDirichlet')]


def tp_case(rng, i):
    dim = rng.choice([2, 2, 3])
    nf = rng.randint(0, dim)
    # polynomial directions
    ds = []
    real = rng.random() < 0.5
    inhom_used = False
    for j in range(dim-nf):
        fam, cls = rng.choice(TPPOOL)
        N = rng.randint(minN(fam, cls), 9)
        dom = None if fam in ('laguerre', 'hermite') else spaces.rdomain(rng)
        inhom = (not inhom_used) and rng.random() < 0.5 and bool(BCS[fam][cls])
        inhom_used = inhom_used or inhom
        quad = rng.choice([q for q in QUADS[fam] if (fam, q) != ('chebyshev', 'GU')])
        ds.append(mk(rng, fam, cls, N, quad, dom, inhom, 'd', 1))
    for j in range(nf):
        N = rng.randint(3, 8)
        cls = 'R2C' if (real and j == nf-1) else 'C2C'
        ds.append(mk(rng, 'fourier', cls, N, '', rng.choice([None, [0, 1], [-1, 2.5]])))
    order = list(range(dim))
    rng.shuffle(order)
    ds = [ds[k] for k in order]
    pf = rng.choice([1, 1, 1.5, 2]) if rng.random() < 0.5 else 1
    for d in ds:
        if rng.random() < 0.5:
            d['pf'] = pf
    # transform order: the R2C axis must be transformed first (last in axes)
    axes = list(range(dim))
    rng.shuffle(axes)
    r = [k for k, d in enumerate(ds) if d['cls'] == 'R2C']
    if r:
        axes.remove(r[0])
        axes.append(r[0])
    return {'t': 'tp', 'ds': ds, 'axes': axes if rng.random() < 0.6 or r else None, 'dtype': 'd' if real else 'D',
            'kind': rng.choice(['default', 'vandermonde', 'recursive']), 's': rng.randint(0, 10**6)}


# ---------------------------------------------------------------- reference
def mesh_points(d, M):
    """reference-domain quadrature points"""
    LD = ref.LD
    fam, q = d['fam'], d['quad']
    j = np.arange(M, dtype=LD)
    if q == 'GC':
        return np.cos((2*j+1)*ref.PI/(2*M))
    if q == 'GU':
        return np.cos((j+1)*ref.PI/(M+1))
    if q == 'GL' and fam == 'chebyshev':
        return np.cos(j*ref.PI/(M-1))
    if q == 'GL' and fam == 'legendre':
        # roots of (1-x^2) P'_{M-1}, descending or ascending decided by caller
        x = -np.cos(j*ref.PI/(M-1))
        for _ in range(60):
            P = ref._poly('legendre', x, M, 2)
            f = (1-x*x)*P[1][:, M-1]
            df = (1-x*x)*P[2][:, M-1]-2*x*P[1][:, M-1]
            dx = f/df
            x = x-dx
            if np.max(np.abs(dx)) < 1e-18:
                break
        x[0], x[-1] = -1, 1
        return x
    a = d.get('alpha') or 0
    b = a if fam == 'ultraspherical' else (d.get('beta') or 0)
    return ref.gauss(fam, M, a, b)[0]


def interp_weights(d, r, X):
    """weights of the interpolatory rule on X for the family's weight function"""
    M = len(X)
    if d['fam'] == 'fourier':
        return np.full(M, 1./M)     # shenfun normalises Fourier inner products by the mesh; see scalar product
    if d['fam'] in ('hermite', 'laguerre'):
        return ref.gauss(d['fam'], M)[1].astype(float)
    V = ref.basis(d['fam'], X, M, 0, r.alpha, r.beta).astype(float)
    xg, wg = ref.gauss(d['fam'], 2, r.alpha, r.beta)
    m = np.zeros(M)
    m[0] = float(np.sum(wg*ref.basis(d['fam'], xg, 1, 0, r.alpha, r.beta)[:, 0]))
    return np.linalg.solve(V.T, m)


def fweights(r):
    """multiplicity of the stored coefficients of a real-to-complex transform"""
    k = r.ks()
    w = np.where(k == 0, 1., 2.)
    if r.N % 2 == 0:
        w[-1] = 1.
    return w


def run(case, mon):
    if case['t'] == 'one':
        return run_one(case, mon)
    return run_tp(case, mon)


def rand_coef(rs, d, r, space):
    n = space.dim()
    u = rs.standard_normal(n)
    if d['fam'] == 'fourier' or d['dtype'] == 'D':
        u = u+1j*rs.standard_normal(n)
    if d['cls'] == 'R2C':
        u[0] = u[0].real
        if d['N'] % 2 == 0:
            u[-1] = u[-1].real
    return u


def run_one(case, mon):
    import shenfun as sf
    d = case['d']
    rs = np.random.RandomState(case['s'])
    space = spaces.build(d)
    r = spaces.Ref(d, space)
    fam = d['fam']
    lab = spaces.label(d)
    M = space.shape(False)
    mon.check(M == int(np.floor(d['N']*d['pf']+1e-12)), 'mesh-size:'+lab, 'M=%s N=%s pf=%s' % (M, d['N'], d['pf']))
    # ---- mesh
    Xr = mesh_points(d, M)
    x = np.asarray(space.mesh(bcast=False), dtype=float)
    xr = r.x(Xr)
    so = np.argsort(x)
    sc = float(np.max(np.abs(xr))+1e-30)
    mon.close(np.sort(x), np.sort(xr), 2e-13, 'mesh:'+lab, 'quadrature mesh', scale=sc)
    mon.seen('mesh', lab, M % 2, d['domain'] is None)
    Xs = np.empty_like(Xr)
    Xs[so] = np.sort(Xr)
    xs = r.x(Xs)
    # ---- expansion values
    u = sf.Function(space)
    n = space.dim()
    u[:n] = rand_coef(rs, d, r, space)
    if r.nbc:
        u.set_boundary_dofs()
    u0 = np.array(u).copy()
    V = r.trial(xs)
    real = d['cls'] == 'R2C'
    wf = fweights(r) if real else None
    exact = V.dot(u0*wf).real if real else V.dot(u0)
    nyq = fam == 'fourier' and d['N'] % 2 == 0 and M != d['N']
    if nyq and not real:
        # padding: the unpaired Nyquist coefficient has no unambiguous
        # continuation between the mesh points; P13 decides its documented value
        u[d['N']//2] = 0
        u0 = np.array(u).copy()
        exact = V.dot(u0)
    W = interp_weights(d, r, Xs)
    Vt = r.test(xs).astype(complex if fam == 'fourier' else float)
    if fam != 'fourier':
        G = (Vt[:, :n].T*W).dot(Vt[:, :n])
        D = 1/np.sqrt(np.abs(np.diag(G)))
        cond = np.linalg.cond(G)
    else:
        G, cond = None, 1.
    tolrt = 2e-14*cond+2e-12
    growth = 1.+float(np.max(np.abs(V)))
    scale = float(np.max(np.abs(V).dot(np.abs(u0))))
    back = {}
    for kind in KINDS[fam]:
        if real and kind == 'vandermonde':
            pass
        if fam == 'legendre' and kind == 'fast' and (d['quad'] != 'LG' or d['pf'] != 1):
            continue         # the discrete Legendre transform exists for the Gauss rule only
        if fam == 'fourier' and kind != 'fast' and d['pf'] != 1:
            continue         # not offered for padded Fourier bases (assertion)
        ua = sf.Array(space)
        try:
            ua = space.backward(u, ua, kind=kind)
        except (NotImplementedError, AssertionError) as e:
            mon.skip('kind %s not offered for %s' % (kind, lab))
            continue
        mon.event('backward')
        mon.seen('backward', lab, kind, d['dtype'], d['N'] % 2, d['pf'] != 1, any(d['bcv']))
        mon.close(np.array(ua), exact, 5e-13, 'backward:%s:%s' % (lab, kind), 'backward', scale=scale)
        mon.check(np.array_equal(np.array(u), u0), 'backward-changes-input:'+lab, kind)
        back[kind] = np.array(ua)
        # forward of the exact values
        f = sf.Array(space)
        f[:] = exact
        f0 = np.array(f).copy()
        c = sf.Function(space)
        c = space.forward(f, c, kind=kind)
        mon.event('forward')
        if tolrt < 1e-4:
            mon.close(np.array(c), u0, tolrt, 'forward:%s:%s' % (lab, kind), 'forward of backward, cond %.1e' % cond,
                      scale=max(scale, np.max(np.abs(u0))))
        mon.check(np.array_equal(np.array(f), f0), 'forward-changes-input:'+lab, kind)
        # scalar product = quadrature sum
        g = sf.Array(space)
        g[:] = rs.standard_normal(M)+(1j*rs.standard_normal(M) if np.iscomplexobj(np.array(f)) else 0)
        s = sf.Function(space)
        s = space.scalar_product(g, s, kind=kind)
        if fam == 'fourier':
            sref = np.array([np.sum(np.array(g)*np.conj(Vt[:, k])) for k in range(Vt.shape[1])])/M
            got = np.array(s)       # the Fourier inner product is the mean over the period
            if nyq:
                got, sref = got.copy(), sref.copy()
                got[d['N']//2] = sref[d['N']//2] = 0
        else:
            sref = (Vt[:, :n].T*W).dot(np.array(g))/float(r.df)
            got = np.array(s)[:n]
        mon.close(got, sref, 1e-12, 'scalar:%s:%s' % (lab, kind), 'scalar product',
                  scale=float(np.max((np.abs(Vt).T*np.abs(W)).dot(np.abs(np.array(g))))/abs(float(r.df))
                              if fam != 'fourier' else np.max(np.abs(sref))))
        mon.event('scalar_product')
        # projection
        if tolrt < 1e-4:
            c1 = space.forward(g, sf.Function(space), kind=kind)
            c1n = np.array(c1).copy()
            b1 = space.backward(c1, sf.Array(space), kind=kind)
            c2 = space.forward(b1, sf.Function(space), kind=kind)
            s1 = max(float(np.max(np.abs(c1n))), float(np.max(np.abs(V).dot(np.abs(c1n)))))
            mon.close(np.array(c2), c1n, tolrt, 'idempotent:%s:%s' % (lab, kind), 'forward is a projection', scale=s1)
            if fam != 'fourier':
                rhs = sref*float(r.df)
                if r.nbc:
                    rhs = rhs-(Vt[:, :n].T*W).dot(V[:, n:].astype(float).dot(u0[n:]))
                cref = np.linalg.solve(G*D[:, None]*D[None, :], rhs*D)*D
                mon.close(c1n[:n], cref, tolrt, 'projection:%s:%s' % (lab, kind), 'discrete projection', scale=s1)
    # ---- other meshes
    if fam not in ('laguerre', 'hermite'):
        xu = np.asarray(space.mesh(bcast=False, kind='uniform'), dtype=float)
        a, b = [float(t) for t in r.domain()]
        want = np.linspace(a, b, M) if fam != 'fourier' else a+(b-a)*np.arange(M)/M
        mon.close(np.sort(xu), np.sort(want), 1e-13, 'uniform-mesh:'+lab, scale=abs(a)+abs(b))
        if not nyq:
            ub = sf.Array(space)
            ub = space.backward(u, ub, mesh='uniform')
            Vu = r.trial(xu)
            eu = Vu.dot(u0*wf).real if real else Vu.dot(u0)
            mon.close(np.array(ub), eu, 5e-13, 'backward-uniform:'+lab, 'backward on uniform mesh',
                      scale=float(np.max(np.abs(Vu).dot(np.abs(u0)))))
            mon.event('backward-uniform')
            # the default transforms are unaffected
            again = space.backward(u, sf.Array(space))
            mon.close(np.array(again), exact, 5e-13, 'backward-after-uniform:'+lab, scale=scale)
    # ---- pointwise interface
    if not nyq and d['pf'] == 1:
        xe = r.x(np.linspace(0.03, 0.9, 5) if fam != 'fourier' else np.linspace(0, 6, 5)).astype(float)
        ev = space.eval(xe.copy(), np.array(u))
        Ve = r.trial(xe)
        ee = Ve.dot(u0*wf).real if real else Ve.dot(u0)
        mon.close(ev, ee, 5e-13, 'eval:'+lab, 'eval', scale=float(np.max(np.abs(Ve).dot(np.abs(u0)))))


def run_tp(case, mon):
    import shenfun as sf
    from mpi4py_fft import PFFT  # noqa: F401
    rs = np.random.RandomState(case['s'])
    bs = [spaces.build(d) for d in case['ds']]
    kw = {}
    if case['axes']:
        kw['axes'] = tuple(case['axes'])
    T = sf.TensorProductSpace(sf.comm, bs, dtype=case['dtype'], **kw)
    rr = [spaces.Ref(d, b) for d, b in zip(case['ds'], T.bases)]
    lab = '*'.join(spaces.label(d) for d in case['ds'])
    shape = T.global_shape(False)
    Ms = [b.shape(False) for b in T.bases]
    mon.check(tuple(shape) == tuple(Ms), 'tp-shape', '%s vs %s' % (shape, Ms))
    f = sf.Array(T)
    f[:] = rs.standard_normal(f.shape)+(1j*rs.standard_normal(f.shape) if np.iscomplexobj(np.array(f)) else 0)
    kind = None if case['kind'] == 'default' else case['kind']
    kd = None
    if kind:
        kd = {}
        for d in case['ds']:
            kd[d['fam']] = kind if kind in KINDS[d['fam']] and d['fam'] != 'fourier' else \
                ('fast' if d['fam'] == 'fourier' else 'vandermonde')
    # reference projection, axis by axis; inhomogeneous boundary values are a
    # constant along the other axes, so the lift is subtracted first
    Vs, Ps, tol = [], [], 2e-12
    ns = []
    for d, b, r in zip(case['ds'], T.bases, rr):
        M = b.shape(False)
        Xr = mesh_points(d, M)
        x = np.asarray(b.mesh(bcast=False), dtype=float)
        so = np.argsort(x)
        Xs = np.empty_like(Xr)
        Xs[so] = np.sort(Xr)
        xs = r.x(Xs)
        mon.close(np.asarray(T.mesh(kind='quadrature')[len(Vs)]).ravel(), xs, 1e-12, 'tp-mesh', scale=float(np.max(np.abs(xs))))
        V = r.trial(xs)
        if d['fam'] == 'fourier':
            if d['cls'] == 'R2C':
                P = np.conj(V).T/M
            else:
                P = np.conj(V).T/M
            if M != d['N'] and d['N'] % 2 == 0:
                raise Skip('padded even Fourier: decided by P13')
            Vs.append(V.astype(complex))
            Ps.append(P.astype(complex))
        else:
            n = b.dim()
            W = interp_weights(d, r, Xs)
            Vt = r.test(xs).astype(float)[:, :n]
            G = (Vt.T*W).dot(Vt)
            tol = max(tol, 1e-13*np.linalg.cond(G))
            D = 1/np.sqrt(np.diag(G))
            P = D[:, None]*np.linalg.solve(G*D[:, None]*D[None, :], (Vt.T*W)*D[:, None])
            Vs.append(V.astype(float))
            Ps.append(P)
        ns.append(b.dim())
    if tol > 1e-5:
        raise Skip('ill conditioned product basis')

    def apply(A, B):
        for ax, m in enumerate(B):
            A = np.moveaxis(np.tensordot(m, A, (1, ax)), 0, ax)
        return A
    c = sf.Function(T)
    c = T.forward(f, c, kind=kd) if kd else T.forward(f, c)
    cn = np.array(c).copy()
    mon.event('tp-forward')
    mon.seen('tp', lab, case['axes'], case['dtype'], case['kind'])
    full = apply(np.array(f), Ps)
    inhom = [i for i, d in enumerate(case['ds']) if any(d['bcv'])]
    inner = tuple(slice(0, n) for n in ns)
    if inhom:
        # projection of (f - lift): dofs of the lift in the other directions are
        # the projection of the constant one
        i = inhom[0]
        r, n = rr[i], ns[i]
        names = BCS[case['ds'][i]['fam']][case['ds'][i]['cls']]
        nb = r.nbc
        bcv = case['ds'][i]['bcv']
        vals = np.array([v/float(r.df)**spaces.ORDER[nm[1:]] for v, nm in zip(bcv, names)])
        lift = Vs[i][:, n:].dot(vals)
        sh = [1]*len(ns)
        sh[i] = len(lift)
        full = apply(np.array(f)-lift.reshape(sh), Ps)
        Q = [P for P in Ps]
        Q[i] = np.eye(nb)
        one = np.broadcast_to(vals.reshape([nb if k == i else 1 for k in range(len(ns))]),
                              [nb if k == i else f.shape[k] for k in range(len(ns))])
        bd = apply(np.array(one), Q)
        sl = list(inner)
        sl[i] = slice(n, n+nb)
        mon.close(cn[tuple(sl)], bd, tol*10, 'tp-boundary-dofs', lab, scale=max(1, np.max(np.abs(bd))))
    sc = max(1., float(np.max(np.abs(cn))))
    mon.close(cn[inner], full, tol*20, 'tp-forward', lab, scale=sc)
    # backward
    Vr = list(Vs)
    for i, (d, r) in enumerate(zip(case['ds'], rr)):
        if d['cls'] == 'R2C':
            Vr[i] = Vs[i]*fweights(r)
    ex = apply(cn, Vr)
    if case['dtype'] == 'd':
        ex = ex.real
    absscale = float(np.max(apply(np.abs(cn), [np.abs(v) for v in Vr])))
    b1 = T.backward(c, sf.Array(T), kind=kd) if kd else T.backward(c, sf.Array(T))
    mon.event('tp-backward')
    mon.close(np.array(b1), ex, 2e-12, 'tp-backward', lab, scale=absscale)
    mon.check(np.array_equal(np.array(c), cn), 'tp-backward-changes-input', lab)
    c2 = T.forward(b1, sf.Function(T), kind=kd) if kd else T.forward(b1, sf.Function(T))
    mon.close(np.array(c2), cn, tol*20, 'tp-idempotent', lab, scale=absscale)
    # scalar product: sum over the mesh
    s = T.scalar_product(f, sf.Function(T), kind=kd) if kd else T.scalar_product(f, sf.Function(T))
    S = []
    for d, r, V, b, n in zip(case['ds'], rr, Vs, T.bases, ns):
        M = b.shape(False)
        if d['fam'] == 'fourier':
            S.append(np.conj(V).T/M)
        else:
            Xr = r.X(np.asarray(b.mesh(bcast=False), dtype=float))
            W = interp_weights(d, r, Xr)
            S.append((V[:, :n].T*W)/float(r.df))
    sref = apply(np.array(f), S)
    mon.close(np.array(s)[inner], sref, 1e-11, 'tp-scalar', lab,
              scale=float(np.max(apply(np.abs(np.array(f)), [np.abs(m) for m in S]))))
    mon.event('tp-scalar')


RULE = ('distinct (operation, basis class, quadrature, method, data type, size parity, padded, inhomogeneous) tuples, and '
        'for tensor products (bases, transform order, data type, method), whose transform outputs were compared with an '
        'independent extended-precision evaluation of the expansion / quadrature sum')
if __name__ == '__main__':
    vh.main('P01', cases, run, RULE, assumptions=[
        'the reference takes stencil coefficients of composite bases from the package (P02 decides those)',
        'round trips are compared only where the condition number of the mass matrix leaves significant digits'])
