"""P08: solutions of multidimensional and block systems satisfy the assembled
operator, for every wavenumber and block."""
import itertools
import numpy as np
import common  # noqa: F401
import vh
from vh import Skip
import nd
import spaces
import ref

KIND2 = ['PF', 'FP', 'BF', 'FB', 'BF', 'FB', 'BB', 'BP', 'PB', 'PP', 'FF']
KIND3 = ['BFF', 'FBF', 'FFB', 'BBF', 'BFB', 'FBB', 'BBB', 'FFF', 'PFF', 'PBF', 'BFP']
CLS = {'dir': {'legendre': ['ShenDirichlet'], 'chebyshev': ['ShenDirichlet', 'Heinrichs'], 'chebyshevu': ['CompactDirichlet'], 'jacobi': ['CompactDirichlet'],
               'ultraspherical': ['CompactDirichlet']}}


def rform(rng, kinds, what):
    """list of (coefficient, test derivatives, trial derivatives, variable coefficient or None)"""
    n = len(kinds)
    z = lambda: [0]*n
    e = lambda i, k=1: [k if j == i else 0 for j in range(n)]
    c = lambda: round(rng.uniform(.4, 2.5), 3)
    F = []
    if what == 'mass':
        F = [(c(), z(), z(), None)]
    elif what == 'helm':
        F = [(c(), z(), z(), None)]+[(round(rng.uniform(.02, 1.), 3), e(i), e(i), None) for i in range(n)]
    elif what == 'lap':
        q = rng.random() < .5
        F = [((1 if q else c()), e(i), e(i), None) for i in range(n)]
    elif what == 'conv':
        F = [(c()+2, z(), z(), None)]+[(round(rng.uniform(.1, 1.), 3), e(i), e(i), None) for i in range(n)]
        i = rng.randrange(n)
        F.append((round(rng.uniform(-1, 1), 3), z(), e(i), None))
    elif what == 'mixed':
        F = [(c()+2, z(), z(), None)]+[(round(rng.uniform(.3, 1.), 3), e(i), e(i), None) for i in range(n)]
        if n > 1:
            i, j = rng.sample(range(n), 2)
            F.append((round(rng.uniform(-.2, .2), 3), e(i), e(j), None))
    elif what == 'var':
        F = [(c(), z(), z(), None)]+[(round(rng.uniform(.3, 1.), 3), e(i), e(i), None) for i in range(n)]
        pa = [i for i, k in enumerate(kinds) if k != 'F']
        if pa:
            F.append((round(rng.uniform(.2, .8), 3), z(), z(), [rng.choice(pa), rng.randint(1, 2)]))
    elif what == 'strong':
        F = [(c()+1, z(), z(), None)]+[(-round(rng.uniform(.02, 1.), 3), z(), e(i, 2), None) for i in range(n)]
    elif what == 'bih':
        F = [(1, e(i, 2), e(i, 2), None) for i in range(n)]
        for i, j in itertools.combinations(range(n), 2):
            F.append((2, [a+b for a, b in zip(e(i), e(j))], [a+b for a, b in zip(e(i), e(j))], None))
        F.append((c(), z(), z(), None))
    elif what == 'rand':
        F = [(c()+3, z(), z(), None)]+[(.5, e(i), e(i), None) for i in range(n)]
        for _ in range(rng.randint(1, 3)):
            F.append((round(rng.uniform(-.3, .3), 3), [rng.randint(0, 1) for _ in range(n)], [rng.randint(0, 1) for _ in range(n)], None))
    rng.shuffle(F)
    return F


def bigdims(d):
    return int(np.prod([b['N'] for b in d['bases']]))


def cases(tier, rng):
    out = []
    T = tier == 'thorough'
    for rep in range(6 if T else 1):
        for kinds in KIND2+KIND3+(['FBFB', 'BFBF', 'FFFB'] if T or rep == 0 else []):
            for what in ['helm', 'lap', 'conv', 'mixed', 'var', 'strong', 'bih', 'rand', 'mass']:
                if len(kinds) == 4 and what not in ('helm', 'rand'):
                    continue
                if len(kinds) == 3 and not T and rng.random() < .35:
                    continue
                mx = {2: 13, 3: 8, 4: 6}[len(kinds)]
                fam = rng.choice(['legendre', 'legendre', 'chebyshev', 'chebyshev', 'chebyshevu', 'jacobi', 'ultraspherical'])
                kw = dict(fams=[fam]) if rng.random() < .8 else {}
                kw['maxN'] = mx
                if what == 'strong' and fam == 'legendre':
                    kw['fams'] = ['chebyshev']
                d = nd.rspace(rng, kinds, two=rng.random() < .25, **kw)
                if what in ('helm', 'lap', 'conv', 'rand') and rng.random() < .6:
                    for i, b in enumerate(d['bases']):
                        if kinds[i] != 'F':
                            cl = rng.choice(CLS['dir'][b['fam']])
                            d['bases'][i] = dict(nd.rbase(rng, 'B', False, fams=[b['fam']], cls=cl, N=b['N'], inhom=.5), dtype=b['dtype'])
                if what == 'bih':
                    for i, b in enumerate(d['bases']):
                        if kinds[i] != 'F':
                            fm = rng.choice(['legendre', 'chebyshev'])
                            d['bases'][i] = dict(nd.rbase(rng, 'B', False, fams=[fm], cls='ShenBiharmonic', N=max(9, min(b['N'], mx)), inhom=.3), dtype=b['dtype'])
                if bigdims(d) > (2600 if T else 1600):
                    continue
                out.append({'t': 'tp', 'd': d, 'kinds': kinds, 'what': what, 'F': rform(rng, kinds, what), 'one': rng.random() < .5, 'pg': rng.random() < .12 and what in ('strong', 'helm'),
                            's': rng.randint(0, 10**6), 'cost': bigdims(d)/400})
        # special solvers
        for _ in range(30 if T else 10):
            out.append(special(rng))
        for _ in range(30 if T else 12):
            out.append(singular(rng))
        for _ in range(80 if T else 32):
            c = block(rng, T)
            if c:
                out.append(c)
    return out


def special(rng):
    k = rng.choice(['cheb-helm', 'cheb-helm', 'cheb-bih', 'leg2d', 'cheb-helm-neu'])
    if k == 'leg2d':
        return {'t': 'leg2d', 'N': [rng.randint(5, 12), rng.randint(5, 12)], 'c': round(rng.uniform(-.5, 2), 3), 'q': rng.choice(['GL', 'LG']), 's': rng.randint(0, 10**6)}
    kinds = rng.choice(['BF', 'FB', 'BFF', 'FBF', 'FFB'])
    d = nd.rspace(rng, kinds, fams=['chebyshev'], maxN=9)
    i = kinds.index('B')
    cl = {'cheb-helm': 'ShenDirichlet', 'cheb-helm-neu': 'ShenNeumann', 'cheb-bih': 'ShenBiharmonic'}[k]
    N = rng.randint(8, 16)
    if k == 'cheb-bih':
        N = rng.choice([14, 16, 20])
    d['bases'][i] = dict(nd.rbase(rng, 'B', False, fams=['chebyshev'], cls=cl, N=N, inhom=.5 if k != 'cheb-bih' else 0), dtype='d')
    return {'t': 'cheb', 'k': k, 'd': d, 'kinds': kinds, 'co': [round(rng.uniform(.3, 2), 3) for _ in range(3)], 's': rng.randint(0, 10**6), 'cost': 1}


def singular(rng):
    """Laplacians with Neumann conditions: the constant mode is fixed by a constraint"""
    kinds = rng.choice(['BF', 'FB', 'BFF', 'FBF', 'FFB', 'BB', 'BBF', 'FF', 'FFF'])
    fam = rng.choice(['legendre', 'legendre', 'chebyshev'])
    d = nd.rspace(rng, kinds, fams=[fam], maxN=9)
    for i, k in enumerate(kinds):
        if k == 'B':
            cl = {'legendre': 'ShenNeumann', 'chebyshev': 'ShenNeumann'}[fam]
            d['bases'][i] = dict(nd.rbase(rng, 'B', False, fams=[fam], cls=cl, N=rng.randint(6, 10), inhom=0), dtype=d['bases'][i]['dtype'])
    return {'t': 'sing', 'd': d, 'kinds': kinds, 'fam': fam, 'val': rng.choice([0, 0, 1.5]), 's': rng.randint(0, 10**6)}


def block(rng, T):
    kinds = rng.choice(['BF', 'FB', 'PF', 'BB', 'BFF', 'FBF', 'FFB', 'BBF', 'BFB', 'FBB', 'FF', 'FFF', 'B', 'P', 'BBB'])
    nc = rng.choice([2, 2, 3])
    mx = {1: 14, 2: 9, 3: 6}[len(kinds)]
    fam = rng.choice(['legendre', 'chebyshev', 'legendre', 'chebyshevu'])
    d0 = nd.rspace(rng, kinds, fams=[fam], maxN=mx)
    same = rng.random() < .5
    ds = []
    for c in range(nc):
        if same or c == 0:
            dd = d0
        else:
            dd = {'bases': [dict(b) for b in d0['bases']], 'dtype': d0['dtype'], 'coords': None, 'axes': d0['axes']}
            for i, k in enumerate(kinds):
                if k != 'F' and rng.random() < .7:
                    b = d0['bases'][i]
                    q = nd.rbase(rng, rng.choice('PB'), False, fams=[fam], N=b['N'], domain=b['domain'], inhom=.5)
                    if q['N'] < nd.minN(fam, q['cls']):
                        continue
                    q['quad'] = b['quad']
                    dd['bases'][i] = dict(q, dtype=b['dtype'])
        ds.append(dd)
    if bigdims(d0)*nc > (1800 if T else 1100):
        return None
    blocks = []
    for i in range(nc):
        blocks.append([i, i, rform(rng, kinds, rng.choice(['helm', 'conv', 'mixed', 'rand', 'mass', 'var']))])
        for j in range(nc):
            if i != j and rng.random() < .6:
                n = len(kinds)
                F = [(round(rng.uniform(-.4, .4), 3), [0]*n, [0]*n, None)]
                for _ in range(rng.randint(0, 2)):
                    F.append((round(rng.uniform(-.2, .2), 3), [rng.randint(0, 1) for _ in range(n)], [rng.randint(0, 1) for _ in range(n)], None))
                blocks.append([i, j, F])
    return {'t': 'block', 'ds': ds, 'same': same, 'kinds': kinds, 'nc': nc, 'blocks': blocks, 'con': rng.random() < .3, 'vec': same and nc == len(kinds) and rng.random() < .5,
            's': rng.randint(0, 10**6), 'cost': 1+bigdims(d0)*nc/300}


# -- reference ---------------------------------------------------------
def dmat(m):
    D = m.diags('csr').toarray()
    return D


def apply_dense(tm, u, alldofs):
    """the term applied to an array of all coefficients (boundary dofs last), with dense matrices"""
    out = np.array(u)
    for i, m in enumerate(tm['mats']):
        D = m[0]
        n, k = D.shape
        N = u.shape[i]
        sl = [slice(None)]*out.ndim
        sl[i] = slice(N-k, N) if m[1] else slice(0, k)
        if m[1]:
            sl[i] = slice(m[2], m[2]+k)
        out = np.moveaxis(np.tensordot(D, out[tuple(sl)], (1, i)), 0, i)
    return out*tm['scale']


def snap(mats):
    """dense copies of the matrices of a list of TPMatrix"""
    out = []
    for m in mats:
        ms = []
        for a in m.mats:
            bc = bool(a.is_bc_matrix())
            off = 0
            if bc:
                off = a.trialfunction[0].slice().start
            ms.append((dmat(a), bc, off))
        out.append({'mats': ms, 'scale': float(np.real(np.asarray(m.scale).ravel()[0])) if np.asarray(m.scale).size == 1 and not np.iscomplexobj(m.scale) else np.asarray(m.scale).ravel()[0],
                    'bc': m.is_bc_matrix(), 'ij': m.global_index})
        assert np.asarray(m.scale).size == 1
    return out


def kron_all(ts):
    K = 0
    for t in ts:
        M = np.ones((1, 1))
        for a in t['mats']:
            M = np.kron(M, a[0])
        K = K+M*t['scale']
    return K


def term(sf, u, v, f, T):
    import sympy as sp
    c, a, b, var = f
    V, U = v, u
    for i, k in enumerate(a):
        if k:
            V = sf.Dx(V, i, k)
    for i, k in enumerate(b):
        if k:
            U = sf.Dx(U, i, k)
    g = c
    if var:
        x = T.coors.psi[var[0]] if hasattr(T, 'coors') else sp.Symbol('x', real=True)
        g = c*(2+x)**var[1] if False else c*(1+x**2/4)**1 if var[1] == 2 else c*x
    E = sf.forms.arguments.Expr
    if isinstance(g, (int, float)) and g == 1:
        return V, U
    return V, (U if isinstance(U, E) else E(U))*g


def assemble(sf, T, F, Tt=None, one=False, u=None, v=None):
    if u is None:
        u, v = sf.TrialFunction(T), sf.TestFunction(Tt or T)
    mats = []
    if one:
        # all terms with an undifferentiated test function in one expression
        ex = None
        rest = []
        for f in F:
            if any(f[1]):
                rest.append(f)
                continue
            V, U = term(sf, u, v, f, T)
            ex = U if ex is None else ex+U
        F = rest
        if ex is not None:
            A = sf.inner(v, ex)
            mats += A if isinstance(A, list) else [A]
    for f in F:
        V, U = term(sf, u, v, f, T)
        A = sf.inner(V, U)
        mats += A if isinstance(A, list) else [A]
    return [m for m in mats if not (isinstance(m, (int, float)) and m == 0)]


def rhs(sf, T, rs, sl):
    b = sf.Function(T)
    a = rs.standard_normal(b.shape)
    if np.iscomplexobj(np.array(b)):
        a = a+1j*rs.standard_normal(b.shape)
    b[sl] = a[sl]
    return b


def weakmats(R, F, d):
    """one-dimensional matrices (test dofs x all coefficients) of every term from quadrature of reference bases"""
    xs, ws = R.quad([2*b['N']+6 for b in d['bases']])
    out = []
    for c, a, b, var in F:
        ms = []
        for i in range(R.nd):
            V = R.refs[i].test(xs[i], a[i])
            U = R.refs[i].trial(xs[i], b[i])
            w = ws[i].copy()
            if var and var[0] == i:
                w = w*((1+xs[i]**2/4) if var[1] == 2 else xs[i])
            ms.append(np.conj(np.asarray(V)).T.astype(complex)@(w[:, None]*np.asarray(U).astype(complex)))
        out.append((c, ms))
    return out


def nyq(d):
    return [i for i, b in enumerate(d['bases']) if b['fam'] == 'fourier' and b['N'] % 2 == 0]


def run(case, mon):
    vh.use_repo()
    import shenfun as sf
    rs = np.random.default_rng(case['s'])
    try:
        globals()['run_'+case['t']](case, mon, sf, rs)
    except AssertionError as ex:
        # documented restriction: inhomogeneous boundary conditions in two
        # directions are implemented for 2D only
        if 'Only implemented for 2D' in str(ex):
            mon.skip('inhomogeneous bcs in two directions of 3D space')
            return
        raise


def has_bc(mats):
    return any(m.is_bc_matrix() for m in mats)


def cmp_solution(mon, K, ts, T, u, b0, sl, mech, lab, cond, con=None):
    """residual of the dense operator, boundary terms included"""
    ua = np.array(u)
    if not mon.check(np.all(np.isfinite(ua)), mech+':finite', lab):
        return
    x = ua[sl].ravel()
    f = np.array(b0)[sl].copy()
    for t in ts:
        if t['bc']:
            f = f-apply_dense(t, ua, None)
    f = f.ravel()
    Kc = K
    if con:
        Kc = K.copy()
        f = f.copy()
        for row, val in con:
            Kc[row] = 0
            Kc[row, row] = 1
            f[row] = val
    r = Kc@x-f
    sc = (np.abs(Kc)@np.abs(x)).max()+np.abs(f).max()
    mon.close(r/sc, np.zeros_like(r), 1e-11*max(1, len(x)**.5), mech, lab, scale=1.)


def bc_values(mon, T, u, d, mech, lab):
    """dofs of the boundary bases are those of the prescribed values"""
    w = T_bc(T, u)
    m = w[1]
    if m.any():
        mon.close(np.array(u)[m], w[0][m], 1e-13, mech+':boundary-dofs', lab, scale=1+np.abs(w[0]).max())


def T_bc(T, u):
    import shenfun as sf
    w = sf.Function(T)
    w.set_boundary_dofs()
    m = np.ones(w.shape, dtype=bool)
    m[tuple(b.slice() for b in T.bases)] = False
    return np.array(w), m


def solvers(sf, T, mats, kinds, pg=False):
    from shenfun import la
    nP = sum(k != 'F' for k in kinds)
    n = len(kinds)
    out = []
    M = lambda: [m for m in mats]
    bc = has_bc(mats)
    out.append(('SolverND', lambda: la.SolverND(M())))
    if n == 2:
        out.append(('Solver2D', lambda: la.Solver2D(M())))
    if n == 3:
        out.append(('Solver3D', lambda: la.Solver3D(M())))
    if nP == 0:
        out.append(('SolverDiagonal', lambda: la.SolverDiagonal(M())))
    if nP == 1 and n <= 3:
        out.append(('SolverGeneric1ND', lambda: la.SolverGeneric1ND(M())))
        out.append(('SolverGeneric1ND-slow', lambda: (lambda s: (lambda b, u=None, **kw: s(b, u, fast=False, **kw)))(la.SolverGeneric1ND(M()))))
    if nP == 2 and n <= 3 and not pg:
        out.append(('SolverGeneric2ND', lambda: la.SolverGeneric2ND(M())))
    if n <= 3 and nP > 0:
        out.append(('BlockMatrixSolver', lambda: la.BlockMatrixSolver(M())))
    if len(mats) == 1 and not bc and n <= 3 and nP < 3:
        out.append(('TPMatrix.solve', lambda: (lambda b, u=None, **kw: mats[0].solve(b, u, **kw))))
        out.append(('TPMatrix/b', lambda: (lambda b, u=None, **kw: put(u, b, mats[0].__div__(b)))))
    return out


def put(u, b, r):
    if u is None:
        b[...] = r
        return b
    u[...] = r
    return u


def run_tp(case, mon, sf, rs):
    d = case['d']
    if len(d['bases']) > 2 and sum(any(b['bcv']) for b in d['bases']) > 1:
        raise Skip('documented: inhomogeneous conditions in two directions only in 2D')
    T = nd.build(d)
    Tt = T
    if case['pg']:
        try:
            Tt = T.get_testspace(kind='PG')
        except Exception as e:
            raise Skip('no test space: %s' % type(e).__name__)
    try:
        with np.errstate(all='ignore'):
            mats = assemble(sf, T, case['F'], Tt, case['one'])
    except (AssertionError, NotImplementedError) as e:
        raise Skip('assembly refused: %s' % repr(e)[:60])
    ts = snap(mats)
    own = [t for t in ts if not t['bc']]
    sl = tuple(b.slice() for b in T.bases)
    dims = [s.stop-s.start for s in sl]
    if any(tuple(a[0].shape) != (m, m) for t in own for a, m in zip(t['mats'], dims)):
        raise Skip('not square')
    K = kron_all(own)
    cond = np.linalg.cond(K) if K.shape[0] < 1200 else 1e3
    lab = '%s %s%s' % ('x'.join(spaces.label(b) for b in d['bases']), case['what'], ' PG' if case['pg'] else '')
    if not np.isfinite(cond) or cond > 1e11:
        raise Skip('singular')
    bc = has_bc(mats)
    kc = case['kinds'].replace('P', 'B')
    nP = sum(k != 'F' for k in case['kinds'])
    mon.seen('operator', kc, case['what'], 'bc' if bc else '', 'PG' if case['pg'] else '', d['dtype'])
    # the matrices are those of the weak form
    exact = all(b['quad'] in ('GC', 'LG', 'QG', 'JG', 'F') and b['fam'] != 'chebyshevu' for b in d['bases']) and not case['pg'] and case['what'] not in ('var',)
    u0 = nd.rand_coeffs(T, nd.RefND(d, T), rs)
    R = nd.RefND(d, T)
    got = sum(apply_dense(t, np.array(u0), None) for t in ts)
    gs = sum(np.abs(apply_dense(t, np.array(u0), None)).max() for t in ts)
    if exact:
        want = 0
        for c, ms in weakmats(R, case['F'], d):
            w = np.array(u0)
            for i, M in enumerate(ms):
                w = np.moveaxis(np.tensordot(M, w, (1, i)), 0, i)
            want = want+c*w
        a, b = np.array(got), np.array(want)
        for i in nyq(d):
            s = [slice(None)]*a.ndim
            s[i] = d['bases'][i]['N']//2
            a[tuple(s)] = 0
            b[tuple(s)] = 0
        mon.event('weak-form')
        mon.close(a, b, 1e-10, 'weak:%s' % kc, lab, scale=gs)
    # products with the operator
    c = sf.Function(Tt)
    tot = 0
    for m, t in zip(mats, ts):
        w = m.matvec(u0, sf.Function(Tt))
        want = apply_dense(t, np.array(u0), None)
        mon.event('matvec')
        mon.close(np.array(w)[sl], want, 1e-12, 'TPMatrix.matvec:%s%s' % (kc, ':bc' if t['bc'] else ''), lab, scale=1e-300+np.abs(want).max()+np.abs(np.array(u0)).max()*max(np.abs(a[0]).max() for a in t['mats']))
        tot = tot+np.array(w)
    first = None
    for name, mk in solvers(sf, T, mats, case['kinds'], case['pg']):
        mech = '%s:%s' % (name, kc)
        try:
            sol = mk()
        except AssertionError as e:
            if name == 'SolverDiagonal' or (name.startswith('SolverND') and 'simplif' in str(e)):
                continue
            mon.fail(mech+':raises', '%s %s' % (repr(e)[:200], lab))
            continue
        except Exception as e:
            mon.fail(mech+':raises', '%s %s' % (repr(e)[:200], lab))
            continue
        mon.seen('solver', name, kc, case['what'], d['dtype'], 'bc' if bc else '')
        for rep in range(3):
            b = rhs(sf, Tt, rs, sl)
            b0 = b.copy()
            inpl = rep == 2 and not case['pg'] and name not in ('BlockMatrixSolver',)
            u = b if inpl else sf.Function(T)
            try:
                r = sol(b) if inpl else sol(b, u)
            except Exception as e:
                mon.fail(mech+':raises', '%s %s' % (repr(e)[:200], lab))
                break
            mon.event('solve')
            cmp_solution(mon, K, ts, T, r, b0, sl, mech, lab+' repeat %d' % rep, cond)
            bc_values(mon, T, r, d, mech, lab)
            if not inpl:
                mon.check(r is u or np.shares_memory(r, u), mech+':output', lab)
                if not mon.check(np.array_equal(np.array(b), np.array(b0)), mech+':rhs-changed', lab):
                    break
        if hasattr(sol, 'matvec') and name not in ('SolverND', 'Solver2D', 'Solver3D', 'SolverGeneric2ND'):
            c = sol.matvec(u0, sf.Function(T))
            mon.close(np.array(c)[sl], got, 1e-11, mech+':matvec', lab, scale=gs)
        elif name in ('SolverND', 'Solver2D', 'Solver3D'):
            c = sol.matvec(u0, sf.Function(T))
            w = sum(apply_dense(t, np.array(u0), None) for t in own)
            mon.close(np.array(c)[sl], w, 1e-11, mech+':matvec', lab, scale=gs)
        # the operands are left as they were
    after = snap([m for m in mats])
    ok = all(np.array_equal(x[0], y[0]) for t, t2 in zip(ts, after) for x, y in zip(t['mats'], t2['mats'])) and all(t['scale'] == t2['scale'] for t, t2 in zip(ts, after))
    mon.check(ok, 'operands-changed', lab)


def run_cheb(case, mon, sf, rs):
    from shenfun.chebyshev import la
    d = case['d']
    T = nd.build(d)
    kinds = case['kinds']
    n = len(kinds)
    p = kinds.index('B')
    u, v = sf.TrialFunction(T), sf.TestFunction(T)
    a, c, e = case['co']
    if case['k'] == 'cheb-bih':
        A = sf.inner(v, a*sf.div(sf.grad(sf.div(sf.grad(u))))-c*sf.div(sf.grad(u))+e*u)
    else:
        A = sf.inner(v, c*u-a*sf.div(sf.grad(u)))
    ts = snap(A)
    own = [t for t in ts if not t['bc']]
    K = kron_all(own)
    sl = tuple(b.slice() for b in T.bases)
    lab = '%s %s' % ('x'.join(spaces.label(b) for b in d['bases']), case['k'])
    mech = case['k']
    if np.linalg.cond(K) > 1e11:
        raise Skip('singular')
    try:
        H = (la.Biharmonic if case['k'] == 'cheb-bih' else la.Helmholtz)(list(A))
    except Exception as ex:
        mon.fail(mech+':raises', '%s %s' % (repr(ex)[:200], lab))
        return
    mon.seen('special', mech, kinds, 'bc' if has_bc(A) else '', d['dtype'])
    for rep in range(3):
        b = rhs(sf, T, rs, sl)
        b0 = b.copy()
        w = sf.Function(T)
        try:
            w = H(b, w)
        except Exception as ex:
            mon.fail(mech+':raises', '%s %s' % (repr(ex)[:200], lab))
            return
        if case['k'] != 'cheb-bih' or not has_bc(A):
            w.set_boundary_dofs()
        cmp_solution(mon, K, ts, T, w, b0, sl, mech, lab, 1)
        mon.check(np.array_equal(np.array(b), np.array(b0)), mech+':rhs-changed', lab)
    u0 = nd.rand_coeffs(T, nd.RefND(d, T), rs)
    got = sum(apply_dense(t, np.array(u0), None) for t in ts)
    gs = sum(np.abs(apply_dense(t, np.array(u0), None)).max() for t in ts)
    cc = H.matvec(u0, sf.Function(T))
    mon.close(np.array(cc)[sl], got, 1e-11, mech+':matvec', lab, scale=gs)


def run_leg2d(case, mon, sf, rs):
    from shenfun.legendre.la import Helmholtz_2dirichlet
    for s in (0, 1):
        N = case['N']
        B = [sf.FunctionSpace(n, 'L', quad=case['q'], bc=(0, 0), scaled=bool(s)) for n in N]
        T = sf.TensorProductSpace(sf.comm, B, axes=(0, 1) if s == 0 else (0, 1))
        u, v = sf.TrialFunction(T), sf.TestFunction(T)
        A = sf.inner(v, -sf.div(sf.grad(u)))+[sf.inner(v, case['c']*u)]
        ts = snap(A)
        K = kron_all(ts)
        sl = tuple(b.slice() for b in T.bases)
        lab = str(case)
        mech = 'Helmholtz_2dirichlet:%d' % s
        try:
            H = Helmholtz_2dirichlet(list(A))
        except Exception as ex:
            mon.fail(mech+':raises', '%s %s' % (repr(ex)[:200], lab))
            return
        for rep in range(2):
            b = rhs(sf, T, rs, sl)
            b0 = b.copy()
            w = sf.Function(T)
            try:
                w = H(b, w, solver=s)
            except Exception as ex:
                mon.fail(mech+':raises', '%s %s' % (repr(ex)[:200], lab))
                break
            mon.seen('special', mech, bool(case['c']))
            cmp_solution(mon, K, ts, T, w, b0, sl, mech, lab, 1)


def run_sing(case, mon, sf, rs):
    from shenfun import la
    d = case['d']
    kinds = case['kinds']
    T = nd.build(d)
    u, v = sf.TrialFunction(T), sf.TestFunction(T)
    A = sf.inner(v, sf.div(sf.grad(u))) if case['fam'] == 'chebyshev' else sf.inner(sf.grad(v), sf.grad(u))
    ts = snap(A)
    own = [t for t in ts if not t['bc']]
    K = kron_all(own)
    sl = tuple(b.slice() for b in T.bases)
    dims = [s.stop-s.start for s in sl]
    lab = '%s sing' % 'x'.join(spaces.label(b) for b in d['bases'])
    val = case['val']
    nP = sum(k == 'B' for k in kinds)
    if nP == 0:
        con = ((0, 0),)
        val = 0
    else:
        con = ((0, val),)
    Kc = K.copy()
    Kc[0] = 0
    Kc[0, 0] = 1
    if not np.linalg.cond(Kc) < 1e11:
        raise Skip('singular')
    out = []
    M = lambda: list(A)
    if nP == 0:
        out.append(('SolverDiagonal', lambda: la.SolverDiagonal(M())))
    else:
        out.append(('BlockMatrixSolver', lambda: (lambda s: (lambda b, u=None, constraints=(): s(b, u, constraints=tuple((0,)+q for q in constraints))))(la.BlockMatrixSolver(M()))))
    out.append(('SolverND', lambda: la.SolverND(M())))
    if nP == 1:
        out.append(('SolverGeneric1ND', lambda: la.SolverGeneric1ND(M())))
        out.append(('SolverGeneric1ND-slow', lambda: (lambda s: (lambda b, u=None, **kw: s(b, u, fast=False, **kw)))(la.SolverGeneric1ND(M()))))
    if nP == 2:
        out.append(('SolverGeneric2ND', lambda: la.SolverGeneric2ND(M())))
    for name, mk in out:
        mech = 'sing:%s:%s' % (name, kinds)
        sol = mk()
        mon.seen('constraint', name, kinds, d['dtype'], bool(val))
        for rep in range(3):
            b = rhs(sf, T, rs, sl)
            b0 = b.copy()
            w = sf.Function(T)
            try:
                w = sol(b, w, constraints=con)
            except Exception as ex:
                mon.fail(mech+':raises', '%s %s' % (repr(ex)[:200], lab))
                break
            cmp_solution(mon, K, ts, T, w, b0, sl, mech, lab+' repeat %d' % rep, 1, con)


def run_block(case, mon, sf, rs):
    from shenfun import la
    nc = case['nc']
    kinds = case['kinds']
    n = len(kinds)
    if n == 1:
        Ts = [spaces.build(dd['bases'][0]) for dd in (case['ds'][:1] if case['same'] else case['ds'])]
    else:
        Ts = [nd.build(dd) for dd in (case['ds'][:1] if case['same'] else case['ds'])]
    if case['same']:
        Ts = Ts*nc
    V = sf.VectorSpace(Ts[0]) if case['vec'] and n > 1 else (sf.CompositeSpace if n > 1 else sf.MixedFunctionSpace)(Ts)
    u, v = sf.TrialFunction(V), sf.TestFunction(V)
    mats = []
    for i, j, F in case['blocks']:
        try:
            with np.errstate(all='ignore'):
                mats += assemble(sf, Ts[j], F, None, False, u[j], v[i])
        except (AssertionError, NotImplementedError) as e:
            raise Skip('assembly refused: %s' % repr(e)[:60])
    if n == 1:
        ts = []
        for m in mats:
            if not hasattr(m, 'mats'):
                bc = bool(m.is_bc_matrix())
                off = m.trialfunction[0].slice().start if bc else 0
                ts.append({'mats': [(dmat(m), bc, off)], 'scale': 1., 'bc': bc, 'ij': m.global_index})
            else:
                ts += snap([m])
    else:
        ts = snap(mats)
    sls = [tuple(b.slice() for b in (T.bases if n > 1 else [T])) for T in Ts]
    sz = [int(np.prod([s.stop-s.start for s in sl])) for sl in sls]
    offs = np.concatenate([[0], np.cumsum(sz)])
    K = np.zeros((offs[-1], offs[-1]), dtype=complex)
    for t in ts:
        if t['bc']:
            continue
        i, j = t['ij']
        B = kron_all([t])
        if B.shape != (sz[i], sz[j]):
            raise Skip('block shape')
        K[offs[i]:offs[i+1], offs[j]:offs[j+1]] += B
    if not np.linalg.cond(K) < 1e11:
        raise Skip('singular')
    bc = any(t['bc'] for t in ts)
    kc = kinds.replace('P', 'B')
    lab = '%s %s' % (kinds, ' | '.join('x'.join(spaces.label(b) for b in dd['bases']) for dd in (case['ds'][:1] if case['same'] else case['ds'])))
    mon.seen('block', kc, nc, case['same'], sorted((i, j) for i, j, _ in case['blocks'])[:nc*nc], 'bc' if bc else '')

    def flat(x):
        return np.concatenate([np.array(x)[(i,)+sls[i]].ravel() for i in range(nc)])

    def vec():
        b = sf.Function(V)
        for i in range(nc):
            a = rs.standard_normal(b.shape[1:])
            if np.iscomplexobj(np.array(b)):
                a = a+1j*rs.standard_normal(b.shape[1:])
            q = np.zeros_like(a)
            q[sls[i]] = a[sls[i]]
            b[i] = q
        return b

    def bcpart(x):
        f = np.zeros(offs[-1], dtype=complex)
        for t in ts:
            if t['bc']:
                i, j = t['ij']
                f[offs[i]:offs[i+1]] += apply_dense(t, np.array(x)[j], None).ravel()
        return f
    # products
    x = vec()
    if bc:
        x.set_boundary_dofs()
    want = K@flat(x)+bcpart(x)
    scale = np.abs(K).dot(np.abs(flat(x))).max()
    M = sf.BlockMatrix(list(mats))
    for us in (None, False, True):
        c = sf.Function(V)
        c = M.matvec(x, c, use_scipy=us)
        mon.event('matvec')
        mon.close(flat(c), want, 1e-12, 'BlockMatrix.matvec:%s:%s' % (kc, us), lab, scale=scale)
    own = [m for m in mats if not m.is_bc_matrix()]
    bcs = [m for m in mats if m.is_bc_matrix()]
    M2 = sf.BlockMatrix(own)
    for us in (False, True):
        c = M2.matvec(x, sf.Function(V), use_scipy=us)
        mon.close(flat(c), K@flat(x), 1e-12, 'BlockMatrix.matvec:%s:%s' % (kc, us), lab, scale=scale)
    sols = [('BlockMatrixSolver', lambda: la.BlockMatrixSolver(list(mats)), ())]
    if not bc:
        sols.append(('BlockMatrix.solve', lambda: (lambda b, u=None, constraints=(): M2.solve(b, u, constraints=constraints)), ()))
    if case['con']:
        ci = int(rs.integers(0, nc))
        # row 0 of the component, of the zero wavenumbers
        sols.append(('BlockMatrixSolver:constraint', lambda: la.BlockMatrixSolver(list(mats)), ((ci, 0, 0.7),)))
    for name, mk, con in sols:
        mech = 'block:%s:%s' % (name, kc)
        try:
            sol = mk()
        except Exception as ex:
            mon.fail(mech+':raises', '%s %s' % (repr(ex)[:200], lab))
            continue
        for rep in range(3):
            b = vec()
            b0 = np.array(b)
            w = None if rep == 2 else sf.Function(V)
            try:
                w = sol(b, w, constraints=con)
            except Exception as ex:
                mon.fail(mech+':raises', '%s %s' % (repr(ex)[:200], lab))
                break
            mon.event('block-solve')
            mon.check(np.array_equal(np.array(b), b0), mech+':rhs-changed', lab)
            f = flat(b0)-bcpart(w)
            Kc = K
            if con:
                Kc = K.copy()
                r = offs[con[0][0]]
                Kc[r] = 0
                Kc[r, r] = 1
                f[r] = con[0][2]
                if np.linalg.cond(Kc) > 1e11:
                    break
            r = Kc@flat(w)-f
            sc = np.abs(Kc).dot(np.abs(flat(w))).max()+np.abs(f).max()
            if not mon.check(np.all(np.isfinite(r)), mech+':finite', lab):
                break
            mon.close(r/sc, np.zeros_like(r), 1e-11*len(r)**.5, mech, lab+' repeat %d' % rep, scale=1.)
            if bc:
                z = sf.Function(V)
                z.set_boundary_dofs()
                for i in range(nc):
                    m = np.ones(w.shape[1:], dtype=bool)
                    m[sls[i]] = False
                    if m.any():
                        mon.close(np.array(w)[i][m], np.array(z)[i][m], 1e-13, mech+':boundary-dofs', lab, scale=1+np.abs(np.array(z)).max())


RULE = ('distinct (kind of axes, operator, boundary terms, number type), (solver, kind of axes, operator) and (block layout) '
        'whose solutions were substituted into dense operators')
if __name__ == '__main__':
    vh.main('P08', cases, run, RULE, assumptions=['the one-dimensional matrices are those decided by P03; Gauss-type spaces are also compared with quadrature of the weak form'])
