"""P12: pointwise evaluation."""
import numpy as np
import common  # noqa: F401
import vh
import nd
import spaces
from spaces import BCS

RULE = 'every evaluation of an expansion at points equals the directly summed reference expansion; methods agree; coefficients and points are unchanged; at mesh points it equals the backward transform'
TOL = 2e-9


def cases(tier, rng):
    T = tier == 'thorough'
    out = []
    # one dimension: every family and class
    oned = [(f, c) for f in BCS for c in BCS[f] if f != 'fourier']+[('fourier', 'R2C'), ('fourier', 'C2C')]*4
    for f, c in oned:
        if (f, c) == ('legendre', 'DirichletNeumann') and False:
            continue
        for _ in range(6 if T else 1):
            d = nd.rbase(rng, 'F' if f == 'fourier' else 'E', True, fams=[f], cls=None if f == 'fourier' else c, real=c == 'R2C', inhom=.6, maxN=20 if T else 16,
                         **({'N': None}))
            if f in ('jacobi', 'ultraspherical'):
                pass
            if f != 'fourier' and rng.random() < .3:
                d['dtype'] = 'D'
            out.append({'kind': '1d', 'b': d, 's': rng.randint(0, 10**6), 'cost': 2})
    plans = ['FF', 'FF', 'FB', 'BF', 'FP', 'BB', 'BP', 'FFF', 'FFF', 'FFB', 'FBF', 'BFF', 'FBF', 'FBB', 'BFB', 'BBF', 'BBB']
    for _ in range(260 if T else 68):
        kinds = plans[len(out) % len(plans)] if rng.random() < .8 else rng.choice(plans)
        co = None
        if rng.random() < .15:
            co = rng.choice([c for c in nd.COORDS if len(nd.COORDS[c][2]) in (2, 3)])
            kinds = ''.join(k[0] for k in nd.COORDS[co][2])
        d = nd.rspace(rng, kinds, coords=co, maxN=12 if len(kinds) == 2 else 8, inhom=.3 if kinds.count('F') == len(kinds)-1 else 0,
                      **({'fams': ['legendre', 'chebyshev']} if rng.random() < .5 else {}))
        out.append({'kind': 'nd', 'd': d, 's': rng.randint(0, 10**6), 'cost': 3*len(kinds), 'what': rng.choice(['scalar', 'scalar', 'vector', 'tensor', 'composite', 'padded', 'expr', 'expr'])})
    return out


def pick(rs, r, n):
    """points of the true domain: interior, end points, repeated"""
    a, b = [float(q) for q in r.domain()]
    if r.fam == 'laguerre':
        a, b = 0., 4.
    if r.fam == 'hermite':
        a, b = -2., 2.
    x = a+(b-a)*rs.random(n)
    if n > 3:
        x[1], x[2] = a, b
        x[3] = x[0]
    return x


def close(mon, got, want, mech, det, sc=1., tol=TOL):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        return mon.check(got.size == want.size and got.squeeze().shape == want.squeeze().shape, mech+':shape', '%s vs %s %s' % (got.shape, want.shape, det))
    err = float(np.max(np.abs(got-want.astype(complex if np.iscomplexobj(want) else float)), initial=0))
    sc = max(sc, float(np.max(np.abs(want), initial=0)), 1e-300)
    return mon.check(np.isfinite(err) and err <= tol*sc, mech, 'err %.2e of %.2e %s' % (err, sc, det))


def coeffs(T, r, rs, decay=True):
    """random coefficients with Nyquist modes; real fields have Hermitian data on the self-conjugate planes"""
    u = nd.rand_coeffs(T, r, rs, decay)
    for i, rr in enumerate(r.refs):
        if rr.fam == 'fourier' and rr.N % 2 == 0:
            s = [slice(None)]*r.nd
            s[i] = rr.N//2
            u[tuple(s)] = rs.standard_normal()*.3
            v = np.array(u[tuple(s)])
            for j, q in enumerate(r.refs):
                if j != i and q.nbc:
                    s2 = [slice(None)]*r.nd
                    s2[i] = rr.N//2
                    s2[j] = slice(q.N-q.nbc, None)
                    u[tuple(s2)] = 0
    nd_h(u, r)
    if hasattr(u, 'set_boundary_dofs'):
        u.set_boundary_dofs()
    return u


def nd_h(u, r):
    if not r.r2c:
        return
    i = r.r2c[0]
    n = r.refs[i].N
    for p0 in [0]+([n//2] if n % 2 == 0 else []):
        s = [slice(None)]*r.nd
        s[i] = p0
        p = np.array(u[tuple(s)])
        q = np.conj(p)
        oth = [j for j in range(r.nd) if j != i]
        for a, j in enumerate(oth):
            if r.refs[j].fam == 'fourier':
                q = np.roll(np.flip(q, a), 1, a)
        u[tuple(s)] = (p+q)/2


def run(case, mon):
    (one if case['kind'] == '1d' else many)(case, mon)


def one(case, mon):
    import shenfun as sf
    b = case['b']
    rs = np.random.default_rng(case['s'])
    try:
        T = spaces.build(b)
    except NotImplementedError as e:
        mon.skip(str(e))
        return
    d = {'bases': [b]}
    r = nd.RefND(d, T)
    rr = r.refs[0]
    lab = '%s N=%d dom=%s bcv=%s dtype=%s' % (spaces.label(b), b['N'], b.get('domain'), b.get('bcv'), b.get('dtype'))
    mon.seen('1d', b['fam'], b['cls'], b['N'] % 2, b.get('dtype'))
    u = coeffs(T, r, rs)
    u0 = np.array(u)
    for n in (7, 1):
        x = pick(rs, rr, n)
        x0 = x.copy()
        V = r.vander(0, x)
        want = V.dot(u0)
        want = want.real if r.r2c or not np.iscomplexobj(u0) and b['fam'] != 'fourier' else want
        sc = float(np.max(np.abs(V)*np.abs(u0), initial=1e-9))
        for nm, f in (('T.eval', lambda: T.eval(x, u)), ('u.eval', lambda: u.eval(x)), ('u()', lambda: u(x)), ('raw', lambda: T.eval(x, np.array(u))),
                      ('out', lambda: T.eval(x, u, np.full(n, 7., dtype=T.forward.input_array.dtype)))):
            if nm == 'u()' and not callable(u):
                continue
            try:
                got = f()
            except Exception as e:
                mon.fail('1d:%s:raises' % nm, '%s: %s %s' % (type(e).__name__, str(e)[:120], lab))
                continue
            close(mon, got, want, '1d:%s' % nm, lab, sc)
        # scalars and lists
        try:
            got = T.eval(float(x[0]), u)
        except Exception as e:
            mon.fail('1d:scalar point:raises', '%s: %s %s' % (type(e).__name__, str(e)[:120], lab))
        else:
            close(mon, np.atleast_1d(got), want[:1], '1d:scalar point', lab, sc)
        mon.check(np.array_equal(x, x0), '1d:points changed', lab)
        mon.check(np.array_equal(np.array(u), u0), '1d:coefficients changed', lab)
    # padded space
    pf = [1.25, 1.5, 2., 1.7][case['s'] % 4]
    S = T.get_dealiased(pf)
    x = pick(rs, rr, 6)
    V = r.vander(0, x)
    want = V.dot(u0)
    want = want.real if r.r2c or not np.iscomplexobj(u0) and b['fam'] != 'fourier' else want
    try:
        got = S.eval(x, u)
    except Exception as e:
        mon.fail('1d:padded:raises', '%s: %s %s' % (type(e).__name__, str(e)[:120], lab))
    else:
        close(mon, got, want, '1d:padded', lab, sc)
        us = sf.Function(S)
        us[:] = u0
        got = sf.forms.arguments.Expr(us).eval(x)
        close(mon, got, want, '1d:padded expr', lab, sc)
    # expressions
    x = pick(rs, rr, 5)
    for k in (0, 1, 2):
        if b['fam'] in ('laguerre', 'hermite') and k > 1:
            continue
        Vk = r.vander(0, x, k)
        want = Vk.dot(u0)
        want = want.real if r.r2c or not np.iscomplexobj(u0) and b['fam'] != 'fourier' else want
        e = sf.Dx(u, 0, k) if k else sf.Expr(u) if hasattr(sf, 'Expr') else None
        if e is None:
            continue
        try:
            got = (2*e).eval(x)/2
        except NotImplementedError:
            continue
        except Exception as ex:
            mon.fail('1d:expr%d:raises' % k, '%s: %s %s' % (type(ex).__name__, str(ex)[:120], lab))
            continue
        # Nyquist: odd derivatives of the highest frequency are conventions
        if b['fam'] == 'fourier' and b['N'] % 2 == 0 and k == 1:
            continue
        close(mon, got, want, '1d:expr%d' % k, lab, float(np.max(np.abs(Vk)*np.abs(u0), initial=1e-9)))
    # basis functions
    X = np.asarray(rr.X(x)).astype(float)
    V = rr.trial(x)
    try:
        for arg in (0, 1):
            A = T.evaluate_basis_all(X.copy(), argument=arg)
            n = min(A.shape[1], V.shape[1], T.dim() if arg == 0 else 10**6)
            close(mon, A[:, :n], V[:, :n].astype(complex if np.iscomplexobj(V) else float), '1d:evaluate_basis_all', lab, float(np.abs(V).max()))
    except NotImplementedError:
        pass
    dim = T.dim()
    ins = np.abs(np.abs(X)-1) > 1e-12 if b['fam'] not in ('laguerre', 'hermite', 'fourier') else X == X
    for k in (1, 2, 3, 4):
        W = rr.trial(x, k)/rr.df**k
        W = W.astype(complex if np.iscomplexobj(W) else float)
        for arg in (0, 1):
            try:
                A = T.evaluate_basis_derivative_all(X.copy(), k=k, argument=arg)
            except (NotImplementedError, AssertionError):
                break
            n = min(A.shape[1], W.shape[1], dim if arg == 0 else 10**6)
            close(mon, A[ins, :n], W[ins, :n], '1d:evaluate_basis_derivative_all', '%s k=%d' % (lab, k), float(np.abs(W[ins]).max(initial=1e-9)), 1e-7)
    for i in {0, dim//2, dim-1}:
        got = T.evaluate_basis(X.copy(), i=i)
        close(mon, got, V[:, i].astype(complex if np.iscomplexobj(V) else float), '1d:evaluate_basis', '%s i=%d' % (lab, i), float(np.abs(V[:, i]).max()))
        for k in (1, 2, 3):
            W = rr.trial(x, k)[:, i]/rr.df**k
            W = W.astype(complex if np.iscomplexobj(W) else float)
            try:
                got = T.evaluate_basis_derivative(X.copy(), i=i, k=k)
            except NotImplementedError:
                continue
            end = np.abs(np.abs(X)-1) < 1e-12
            if b['fam'] in ('chebyshevu', 'jacobi', 'chebyshev') and end.any():
                got, W = np.asarray(got)[~end], W[~end]
            close(mon, got, W, '1d:evaluate_basis_derivative', '%s i=%d k=%d' % (lab, i, k), float(np.abs(W).max(initial=1e-9)), 1e-7)
        if i < 12:
            import sympy as sp
            xp = sp.Symbol('x', real=True)
            try:
                e = T.basis_function(i, xp)
            except (NotImplementedError, AttributeError):
                continue
            f = sp.lambdify(xp, e, modules=['numpy', 'scipy'])
            with np.errstate(all='ignore'):
                try:
                    got = np.broadcast_to(np.asarray(f(X+0.), dtype=complex), X.shape)
                except Exception:
                    continue
            # sympy_basis functions of the wavenumber i for Fourier
            if b['fam'] == 'fourier':
                continue
            ok = np.isfinite(got)
            close(mon, got[ok], V[ok, i].astype(complex), '1d:basis_function', '%s i=%d' % (lab, i), float(np.abs(V[:, i]).max()), 1e-7)
    # the mesh
    if b['fam'] not in ('laguerre', 'hermite'):
        m = T.mesh()
        a = T.backward(u, sf.Array(T))
        got = T.eval(np.array(m), u)
        close(mon, got, np.asarray(a), '1d:mesh', lab, float(np.abs(np.asarray(a)).max())+sc, 1e-8)


def many(case, mon):
    import shenfun as sf
    d = case['d']
    rs = np.random.default_rng(case['s'])
    T = nd.build(d)
    r = nd.RefND(d, T)
    what = case['what']
    n = len(d['bases'])
    lab = '%s N=%s axes=%s dtype=%s coords=%s %s' % ('x'.join(spaces.label(b) for b in d['bases']), [b['N'] for b in d['bases']], d['axes'], d['dtype'], d.get('coords'), what)
    pats = ''.join('F' if b['fam'] == 'fourier' else 'B' for b in d['bases'])
    mon.seen('nd', pats, what, d['dtype'], tuple(b['N'] % 2 for b in d['bases']), tuple(d['axes'] or ()))
    cplx2 = d['dtype'] == 'D' and sum(b['fam'] != 'fourier' for b in d['bases']) > 1

    def P_(m):
        return np.array([pick(rs, q, m) for q in r.refs])

    def ev(nm, f, want, sc):
        try:
            got = f()
        except ValueError as e:
            if cplx2 and 'Buffer dtype' in str(e):
                # no compiled evaluator for complex data and several polynomial axes: an explicit error
                mon.skip('complex data with two polynomial axes: explicit dtype error')
                return
            mon.fail('nd:%s:raises' % nm, '%s: %s %s' % (type(e).__name__, str(e)[:120], lab))
            return
        except Exception as e:
            mon.fail('nd:%s:raises' % nm, '%s: %s %s' % (type(e).__name__, str(e)[:120], lab))
            return
        close(mon, got, want, 'nd:%s' % nm, lab, sc)
    if what in ('scalar', 'padded', 'expr'):
        u = coeffs(T, r, rs)
        u0 = np.array(u)
        for m in (6, 1):
            P = P_(m)
            P0 = P.copy()
            want = r.points(u0, P)
            sc = float(np.abs(u0).max()) or 1.
            S = T
            if what == 'padded':
                pf = tuple(1.5 if b['fam'] == 'fourier' or rs.random() < .5 else 1. for b in d['bases'])
                try:
                    S = T.get_dealiased(pf)
                except Exception as e:
                    mon.skip(repr(e)[:80])
                    return
            for meth in (0, 1, 2):
                ev('%s method %d' % (what, meth), lambda: S.eval(P, u, method=meth), want, sc)
                o = np.full(m, 3., dtype=T.forward.input_array.dtype)
                ev('%s method %d output' % (what, meth), lambda: S.eval(P, u, output_array=o, method=meth), want, sc)
            if what == 'padded':
                us = sf.Function(S)
                us[:] = u0
                ev('padded expr', lambda: sf.forms.arguments.Expr(us).eval(P), want, sc)
            if what == 'scalar':
                ev('u.eval', lambda: u.eval(P), want, sc)
                if callable(u):
                    ev('u()', lambda: u(P), want, sc)
            mon.check(np.array_equal(P, P0), 'nd:points changed', lab)
            mon.check(np.array_equal(np.array(u), u0), 'nd:coefficients changed', lab)
            if what == 'expr':
                ax = rs.integers(n)
                ks = [0]*n
                k = int(rs.integers(1, 3))
                ks[ax] = k
                ny = d['bases'][ax]['fam'] == 'fourier' and d['bases'][ax]['N'] % 2 == 0
                if ny:
                    s = [slice(None)]*n
                    s[ax] = d['bases'][ax]['N']//2
                    u[tuple(s)] = 0
                    u0 = np.array(u)
                if not d.get('coords'):
                    a = [float(q) for q in rs.normal(size=2)]
                    want = a[0]*r.points(u0, P, ks)+a[1]*r.points(u0, P)
                    E = sf.forms.arguments.Expr
                    e = a[0]*sf.Dx(u, int(ax), k)+a[1]*E(u)
                    ev('expr', lambda: e.eval(P), want, sc*10**k)
                    # variable coefficient
                    import sympy as sp
                    X = sp.symbols('x,y,z', real=True)[:n]
                    e = E(u)*(1+X[0]*X[-1])
                    ev('expr variable', lambda: e.eval(P), r.points(u0, P)*(1+P[0]*P[-1]), sc)
                    g = sf.grad(u)
                    gw = np.array([r.points(u0, P, [int(j == i) for j in range(n)]) for i in range(n)])
                    nyq = any(b['fam'] == 'fourier' and b['N'] % 2 == 0 for b in d['bases'])
                    if not nyq:
                        ev('expr grad', lambda: g.eval(P), gw, sc*10)
                        ev('expr laplace', lambda: sf.div(sf.grad(u)).eval(P), sum(r.points(u0, P, [2*int(j == i) for j in range(n)]) for i in range(n)), sc*100)
        # mesh points
        if what == 'scalar' and not any(b['fam'] in ('laguerre', 'hermite') for b in d['bases']):
            m = T.mesh()
            a = np.asarray(T.backward(u, sf.Array(T)))
            ix = tuple(rs.integers(0, s, 5) for s in a.shape)
            P = np.array([np.squeeze(q)[ix[i]] for i, q in enumerate(m)])
            ev('mesh', lambda: T.eval(P, u), a[ix], float(np.abs(a).max())+sc)
        return
    if what == 'vector':
        W = sf.VectorSpace(T)
        nc = [n]
    elif what == 'tensor':
        W = sf.TensorSpace(T)
        nc = [n, n]
    else:
        O = T.get_orthogonal()
        W = sf.CompositeSpace([T, T, T][:int(rs.integers(2, 4))])
        nc = [len(W.spaces)]
    U = sf.Function(W)
    comps = []
    for ix in np.ndindex(*nc):
        c = coeffs(T, r, rs)
        np.asarray(U).reshape((-1,)+c.shape)[len(comps)] = np.array(c)
        comps.append(np.array(c))
    U0 = np.array(U)
    P = P_(5)
    want = np.array([r.points(c, P) for c in comps])
    sc = float(np.abs(U0).max())
    ev('%s eval' % what, lambda: np.asarray(U.eval(P)).reshape(want.shape), want, sc)
    for meth in (0, 1, 2):
        ev('%s method' % what, lambda: np.asarray(W.eval(P, U, method=meth)).reshape(want.shape), want, sc)
    ix = tuple(int(rs.integers(q)) for q in nc)
    j = int(np.ravel_multi_index(ix, nc))
    ci = U[ix[0]]
    if len(ix) == 2:
        ci = ci[ix[1]]
    if hasattr(ci, 'eval') and np.asarray(ci).ndim == n:
        ev('%s component' % what, lambda: ci.eval(P), want[j], sc)
    if what == 'vector' and not d.get('coords') and not any(b['fam'] == 'fourier' and b['N'] % 2 == 0 for b in d['bases']):
        w = sum(r.points(comps[i], P, [int(k == i) for k in range(n)]) for i in range(n))
        ev('div', lambda: sf.div(U).eval(P), w, sc*10)
    mon.check(np.array_equal(np.array(U), U0), 'nd:coefficients changed', lab)


if __name__ == '__main__':
    vh.main('P12', cases, run, RULE)
