"""P07 - one-dimensional solvers and matrix-vector products."""
from common import vh, Skip
import warnings
import numpy as np
import spaces
from spaces import BCS, QUADS
from p01 import mk, minN, HEAVY
from p03 import KEYS, sized

PAT = {'DiagMA': (0,), 'TDMA': (-2, 0, 2), 'TDMA_O': (-1, 0, 1), 'PDMA': (-4, -2, 0, 2, 4), 'FDMA': (-2, 0, 2, 4),
       'TwoDMA': (0, 2), 'ThreeDMA': (0, 2, 4), 'HeptaDMA': (-4, -2, 0, 2, 4, 6, 8)}
NMIN = {'DiagMA': 1, 'TDMA': 3, 'TDMA_O': 2, 'PDMA': 5, 'FDMA': 5, 'TwoDMA': 3, 'ThreeDMA': 5, 'HeptaDMA': 9}
FORMS = ['csr', 'csc', 'dia', 'python', 'self', 'cython', 'numba', None]
NEU = {'chebyshev': ['ShenNeumann'], 'legendre': ['ShenNeumann'], 'jacobi': [], 'ultraspherical': [], 'chebyshevu': []}


def lay(rng):
    nd = rng.choice([1, 1, 2, 3, 3, 4])
    return {'nd': nd, 'axis': rng.randrange(nd), 'dt': rng.choice('dD'), 'other': [rng.randint(1, 4) for _ in range(3)],
            'inplace': rng.random() < .4, 'order': rng.choice(['C', 'C', 'C', 'F', 'strided'])}


def cases(tier, rng):
    th = tier == 'thorough'
    out = []
    # synthetic banded systems, smallest sizes first
    for name in PAT:
        for rep in range(12 if th else 4):
            for n in (NMIN[name], NMIN[name]+1, NMIN[name]+2, rng.randint(NMIN[name]+3, NMIN[name]+9), rng.choice([17, 32, 65])):
                out.append({'t': 'syn', 'pat': list(PAT[name]), 'n': n, 'cls': name, 'scale': rng.choice([1, 1, -.5, 3.]),
                            'cpl': rng.random() < .15, 'lays': [lay(rng) for _ in range(4)], 's': rng.randint(0, 10**6),
                            'con': rng.random() < .4, 'cost': .3})
    for rep in range(60 if th else 12):
        n = rng.randint(1, 14)
        keys = sorted(set([0]+[rng.randint(-n+1, n-1) for _ in range(rng.randint(0, 5))]))
        out.append({'t': 'syn', 'pat': keys, 'n': n, 'cls': None, 'scale': rng.choice([1, 1, -.5, 3.]), 'cpl': rng.random() < .3,
                    'lays': [lay(rng) for _ in range(4)], 's': rng.randint(0, 10**6), 'con': rng.random() < .5, 'cost': .3})
    # systems assembled by the package
    for fam in BCS:
        if fam == 'fourier':
            continue
        cl = list(BCS[fam])
        for cls in cl:
            if not th and cls in HEAVY and rng.random() < .6:
                continue
            for rep in range(4 if th else (1 if len(cl) > 12 else 2)):
                N = sized(rng, fam, cls, big=rng.random() < .15 and cls not in HEAVY)
                q = rng.choice([a for a in QUADS[fam] if (fam, a) != ('chebyshev', 'GU')])
                d = mk(rng, fam, cls, N, q, None if fam in ('laguerre', 'hermite') else spaces.rdomain(rng), rng.random() < .5)
                out.append({'t': 'sys', 'd': d, 'k': rng.choice(['mass', 'stiff', 'stiff', 'helm', 'helm', 'bih']),
                            'co': [round(rng.uniform(.5, 3), 3) for _ in range(3)], 'api': rng.choice(['Solver', 'Solver', 'solve', 'Solve']),
                            'lays': [lay(rng) for _ in range(3)], 's': rng.randint(0, 10**6), 'kind': rng.choice([None, None, 'stencil', 'vandermonde']),
                            'cost': 4 if cls in HEAVY else 1})
    for rep in range(40 if th else 10):
        N = rng.randint(3, 20)
        d = mk(rng, 'fourier', rng.choice(['C2C', 'R2C']), N, 'F', rng.choice([None, [0, 1], [-1, 3]]), False)
        out.append({'t': 'four', 'd': d, 'k': rng.choice([(0, 0), (0, 2), (2, 2), (1, 1), (0, 1), (0, 4), (2, 0)]),
                    'lays': [lay(rng) for _ in range(3)], 's': rng.randint(0, 10**6)})
    # singular problems made regular by a constraint
    for fam in ('chebyshev', 'legendre', 'jacobi', 'chebyshevu', 'ultraspherical'):
        for rep in range(6 if th else 2):
            cls = 'ShenNeumann' if 'ShenNeumann' in BCS[fam] else rng.choice([c for c in BCS[fam] if 'eumann' in c])
            d = mk(rng, fam, cls, sized(rng, fam, cls), rng.choice(QUADS[fam][:2]), spaces.rdomain(rng), False)
            out.append({'t': 'neu', 'd': d, 's': rng.randint(0, 10**6), 'lays': [dict(lay(rng), nd=1, axis=0), lay(rng), lay(rng)],
                        'form': rng.choice(['gal', 'col'])})
    # the Chebyshev solvers of u'' + u and u'''' + u'' + u
    for rep in range(24 if th else 8):
        for cls in ('ShenDirichlet', 'ShenNeumann', 'ShenBiharmonic'):
            N = rng.choice([rng.randint(8, 14), rng.randint(15, 40)])
            if cls == 'ShenBiharmonic':
                N = 2*rng.randint(7, 20) if rng.random() < .9 else rng.randint(9, 20)
            d = mk(rng, 'chebyshev', cls, N, rng.choice(['GC', 'GL']), rng.choice([None, None, [0, 1], [-2, 3]]), rng.random() < .4)
            out.append({'t': 'cheb', 'd': d, 's': rng.randint(0, 10**6), 'co': [round(rng.uniform(.3, 3), 3) for _ in range(3)],
                        'four': rng.random() < .5, 'dt': rng.choice('dD'), 'mode': rng.choice(['cython', 'numba', 'cython', ''])})
    # matrix-vector products of all hard-coded matrices
    for fam in KEYS:
        ks = [k for k in KEYS[fam] if not any(c in ('Generic', 'BCGeneric') for c in (k[0], k[2]))
              and k[0] in BCS.get(k[4], ()) and k[2] in BCS.get(k[5], ()) and k[1] >= 0 and k[3] >= 0]
        if not th:
            ks = [k for k in ks if fam == 'chebyshev' or rng.random() < .4]
        for tc, k0, uc, k1, tf, uf in ks:
            N = max(sized(rng, uf, uc), minN(tf, tc)+1, 10)
            q = lambda f: rng.choice([a for a in QUADS[f] if (f, a) != ('chebyshev', 'GU')])
            qu = q(uf)
            dom = None if uf in ('laguerre', 'hermite', 'fourier') else spaces.rdomain(rng)
            du = mk(rng, uf, uc, N, qu, dom, False)
            dt = mk(rng, tf, tc, N, qu if tf == uf else q(tf), dom, False)
            for k in ('alpha', 'beta'):
                if k in du and k in dt:
                    dt[k] = du[k]
            out.append({'t': 'mv', 'd': du, 'dt': dt, 'k0': k0, 'k1': k1, 's': rng.randint(0, 10**6), 'lays': [lay(rng) for _ in range(3)],
                        'mode': rng.choice(['cython', 'cython', 'numba', '']), 'cost': 1})
    return out


def mode(sf, m):
    sf.config['optimization']['mode'] = m or 'cython'


def arr(rs, lay, N, dt=None, fill=True):
    """An array of the layout, with the axis of length N first in the returned view"""
    sh = list(lay['other'][:lay['nd']-1])
    sh.insert(lay['axis'], N)
    dt = np.dtype(dt or lay['dt'])
    a = rs.standard_normal(sh)
    if dt.char == 'D':
        a = a+1j*rs.standard_normal(sh)
    if not fill:
        a = a*0
    if lay['order'] == 'F':
        a = np.asfortranarray(a)
    elif lay['order'] == 'strided':
        z = np.zeros([2*n for n in sh], dtype=dt)
        v = z[tuple(slice(None, None, 2) for _ in sh)]
        v[...] = a
        a = v
    return a.astype(dt, copy=False)


def growth(D):
    """growth factor of elimination without pivoting"""
    A = np.array(D, dtype=complex if np.iscomplexobj(D) else float)
    n = A.shape[0]
    m0 = abs(A).max()
    with np.errstate(all='ignore'):
        g = m0
        for i in range(n-1):
            if A[i, i] == 0:
                return np.inf
            l = A[i+1:, i]/A[i, i]
            A[i+1:, i+1:] -= np.outer(l, A[i, i+1:])
            g = max(g, abs(A[i+1:, i+1:]).max(), (abs(l).max() if len(l) else 0)*abs(A[i]).max())
        if A[-1, -1] == 0:
            return np.inf
    return g/m0


def resid(mon, D, u, b, axis, mech, msg, extra=1):
    """componentwise-scaled residual of D u = b along axis"""
    n = D.shape[0]
    U = np.moveaxis(np.asarray(u), axis, 0).reshape(u.shape[axis], -1)[:n]
    B = np.moveaxis(np.asarray(b), axis, 0).reshape(b.shape[axis], -1)[:n]
    mon.event('solve', B.shape[1])
    if not np.all(np.isfinite(U)):
        mon.fail(mech, msg+': not finite')
        return
    R = abs(D.dot(U)-B).max(axis=0)
    S = abs(D).max()*abs(U).sum(axis=0)+abs(B).max(axis=0)+1e-300
    mon.close(np.max(R/S), 0., 1e-12*extra, mech, msg, scale=1.)


def put(rs, lay, b, dt=None):
    """b (and u) as given to a solver: returns call(b,u)->u and the array that must keep its values"""
    if lay['inplace']:
        return None
    v = np.empty_like(b)      # same layout
    if lay['order'] == 'strided':
        v = arr(rs, lay, b.shape[lay['axis']], fill=False)
    v[...] = 0
    return v


def refused(e, lay, cpl=False):
    """The Cython kernels refuse arrays that are not C-contiguous and complex matrices, with an exception"""
    t = str(e)
    return (lay['order'] != 'C' and ('contiguous' in t or isinstance(e, AssertionError))) or (cpl and 'mismatch' in t)


def shaped(n, lay):
    return '%dD axis %d %s %s%s' % (lay['nd'], lay['axis'], lay['dt'], lay['order'], ' in place' if lay['inplace'] else '')


def run(case, mon):
    vh.use_repo()
    import shenfun as sf
    warnings.simplefilter('ignore')
    mode(sf, case.get('mode'))
    rs = np.random.default_rng(case['s'])
    globals()['run_'+case['t']](case, mon, sf, rs)


def run_syn(case, mon, sf, rs):
    from shenfun import la
    n, keys = case['n'], case['pat']
    sc = case['scale']
    d = {}
    for k in keys:
        v = rs.uniform(.2, 1, n-abs(k))*rs.choice([-1, 1], n-abs(k))
        if case['cpl']:
            v = v*np.exp(1j*rs.uniform(0, 6, n-abs(k)))
        d[k] = v
    d[0] = d[0]*(2.5*len(keys)) if n > 1 else d[0]
    if case['cls'] == 'TDMA_O':
        d[-1] = d[1].copy()
    if rs.random() < .25 and len(keys) > 1 and not case['cpl']:     # constants are used for Toeplitz diagonals
        k = keys[-1]
        d[k] = float(d[k][0])
        if case['cls'] == 'TDMA_O':
            d[-1] = d[1]
    D = np.zeros((n, n), dtype=complex if case['cpl'] else float)
    for k in d:
        D += np.diag(np.ones(n-abs(k))*d[k], k)
    D *= sc
    A = sf.SparseMatrix({k: np.copy(v) if np.ndim(v) else v for k, v in d.items()}, (n, n), scale=sc)
    S = A.get_solver()
    mon.seen('solver', S.__name__, 'n=%d' % min(n, 12), 'complex' if case['cpl'] else 'real')
    mon.close(A.diags().toarray(), D, 1e-14, 'syn:diags', str(keys))
    sols = [('own', la.Solver(A)), ('list', la.Solver([A])), ('Solve', la.Solve(A.copy()))]
    for name, sol in sols:
        for lay in case['lays']:
            lay = dict(lay)
            if case['cpl']:
                lay['dt'] = 'D'
            b = arr(rs, lay, n+int(rs.integers(0, 3)))
            b0 = b.copy()
            for rep in range(2):
                u = put(rs, lay, b)
                mech = 'syn:%s:%s' % (name if name != 'list' else 'own', S.__name__)
                try:
                    r = sol(b, u=u, axis=lay['axis']) if u is not None else sol(b, axis=lay['axis'])
                except Exception as e:
                    mon.check(refused(e, lay, case['cpl']), mech+':raises', '%s n=%d %s' % (repr(e)[:200], n, shaped(n, lay)))
                    break
                if u is not None:
                    mon.check(r is u or np.shares_memory(r, u), mech+':output', 'u not returned')
                    r = u
                    if not mon.check(np.array_equal(b, b0), mech+':rhs-changed', 'n=%d %s' % (n, shaped(n, lay))):
                        break
                else:
                    r = b
                mon.seen('layout', S.__name__, lay['nd'], lay['axis'], lay['dt'], lay['order'], lay['inplace'])
                resid(mon, D, r, b0, lay['axis'], mech, 'n=%d keys=%s %s repeat %d' % (n, keys, shaped(n, lay), rep))
                if u is None:
                    b[...] = b0
    if case['cpl'] and S.__name__ != 'Solve':
        return      # complex banded matrices are refused by the Cython kernels
    # A.solve, A/b
    b = rs.standard_normal(n) + (1j*rs.standard_normal(n) if case['cpl'] else 0)
    resid(mon, D, A.solve(b.copy()), b, 0, 'syn:solve:%s' % S.__name__, str(keys))
    u = A.solve(b.copy(), np.zeros_like(b))
    resid(mon, D, u, b, 0, 'syn:solve:%s' % S.__name__, str(keys))
    resid(mon, D, A/b, b, 0, 'syn:div:%s' % S.__name__, str(keys))
    matvecs(mon, A, D, (n, n), case['lays'], rs, 'syn', ['csr', 'csc', 'dia', 'python', None])
    # constraints
    if case['con']:
        rows = [0] if S.__name__ != 'Solve' else sorted(set(int(i) for i in rs.integers(0, n, 2)))
        if S.__name__ == 'Solve' and n < 2:
            return
        cons = tuple((r, float(rs.uniform(-2, 2))) for r in rows)
        Dc = D.copy()
        for r, v in cons:
            Dc[r] = 0
            Dc[r, r] = 1
        if growth(Dc) > 1e6 or np.linalg.cond(Dc) > 1e8:
            return
        A = sf.SparseMatrix({k: np.copy(v) if np.ndim(v) else v for k, v in d.items()}, (n, n), scale=sc)
        which = rs.integers(0, 2)
        sol = [la.Solver, la.Solve][which](A)
        nm = [S.__name__, 'Solve'][which]
        for rep in range(3):
            lay = dict(case['lays'][rep % len(case['lays'])])
            if nm == 'Solve':
                lay.update(nd=1, axis=0)       # needs a Function for multidimensional arrays
            if case['cpl']:
                lay['dt'] = 'D'
            b = arr(rs, lay, n)
            bc = b.copy()
            for r, v in cons:
                np.moveaxis(bc, lay['axis'], 0)[r] = v
            try:
                r = sol(b, axis=lay['axis'], constraints=cons)
            except Exception as e:
                mon.check(refused(e, lay, case['cpl']), 'con:%s:raises' % nm, '%s n=%d keys=%s cons=%s' % (repr(e)[:200], n, keys, cons))
                break
            mon.seen('constraint', nm, len(cons))
            resid(mon, Dc, r, bc, lay['axis'], 'con:%s' % nm, 'n=%d keys=%s scale=%s cons=%s rep %d' % (n, keys, sc, cons, rep))


def matvecs(mon, A, D, shape, lays, rs, tag, forms):
    n, m = shape
    K = max(n, m) if tag != 'mv' else max(A.testfunction[0].N, A.trialfunction[0].N)
    for lay in lays:
        for dt in ('d', 'D') if lay['dt'] == 'D' else ('d',):
            extra = int(rs.integers(0, 3)) if tag == 'syn' else 0
            v = arr(rs, lay, K+extra, dt)
            dtc = 'D' if (dt == 'D' or np.iscomplexobj(D)) else 'd'
            v0 = v.copy()
            ref = np.tensordot(D, np.moveaxis(v0, lay['axis'], 0)[:m], (1, 0))
            sc = max(1e-300, abs(D).max()*abs(v0).max())*np.sqrt(m)
            for f in forms:
                c = arr(rs, lay, K+extra, dtc)       # filled with junk
                mech = '%s:matvec:%s' % (tag, f)
                msg = '%s %s shape %s %s' % (A.__class__.__name__, getattr(A, 'axis', ''), shape, shaped(n, lay))
                try:
                    r = A.matvec(v, c, format=f, axis=lay['axis'])
                except (NotImplementedError, ImportError):
                    continue
                except Exception as e:
                    if 'Format %s is unknown' % f not in str(e):
                        mon.check(refused(e, lay), mech+':raises', '%s %s' % (repr(e)[:200], msg))
                    continue
                mon.event('matvec')
                mon.seen('matvec', A.__class__.__name__, f, lay['nd'], lay['axis'])
                mon.close(np.moveaxis(r, lay['axis'], 0)[:n], ref, 1e-13, mech, msg, scale=sc)
                mon.check(np.moveaxis(r, lay['axis'], 0)[n:].size == 0 or abs(np.moveaxis(r, lay['axis'], 0)[n:]).max() == 0, mech+':tail', msg)
                mon.check(np.array_equal(v, v0), mech+':operand', msg)
                mon.check(np.shares_memory(r, c), mech+':output', msg)


def build(d):
    return spaces.build(d)


def forms_of(k, co, r):
    if k == 'mass':
        return [((0, 0), co[0])]
    if k == 'stiff':
        return [((0, 2), -co[0])] if r else [((1, 1), co[0])]
    if k == 'helm':
        return [((0, 2), -co[0]), ((0, 0), co[1])] if r else [((1, 1), co[0]), ((0, 0), co[1])]
    return [((0, 4), co[0]), ((0, 2), -co[1]), ((0, 0), co[2])] if r else [((2, 2), co[0]), ((1, 1), co[1]), ((0, 0), co[2])]


def dense(A):
    return A.diags('csr').toarray()


def run_sys(case, mon, sf, rs):
    from shenfun import la
    sp = build(case['d'])
    fam = case['d']['fam']
    u, v = sf.TrialFunction(sp), sf.TestFunction(sp)
    strong = fam in ('chebyshev', 'chebyshevu') or (fam in ('jacobi', 'ultraspherical'))
    mats = []
    for (k0, k1), c in forms_of(case['k'], case['co'], strong):
        with np.errstate(all='ignore'):
            try:
                A = sf.inner(c*sf.Dx(v, 0, k0) if k0 else c*v, sf.Dx(u, 0, k1) if k1 else u, kind=case['kind'])
            except (AssertionError, NotImplementedError, AttributeError):
                A = sf.inner(c*sf.Dx(v, 0, k0) if k0 else c*v, sf.Dx(u, 0, k1) if k1 else u)
        mats += A if isinstance(A, list) else [A]
    bcm = [m for m in mats if m.trialfunction[0].is_boundary_basis]
    own = [m for m in mats if not m.trialfunction[0].is_boundary_basis]
    if not own or any(m.shape[0] != m.shape[1] for m in own):
        raise Skip('no square matrix')
    D = sum(dense(m) for m in own)
    Db = sum(dense(m) for m in bcm) if bcm else None
    n = D.shape[0]
    if not np.all(np.isfinite(D)) or np.linalg.cond(D) > 1e13:
        raise Skip('singular')
    api = case['api']
    if len(own) == 1 and api == 'solve' and not bcm:
        A = own[0]
        mk_sol = lambda: (lambda b, u=None, axis=0: A.solve(b, u=u, axis=axis))
        nm = A.get_solver().__name__
    elif api == 'Solve':
        S = la.Solve(list(mats) if len(mats) > 1 else mats[0])
        mk_sol = lambda: S
        nm = 'Solve'
    else:
        S = la.Solver(list(mats) if len(mats) > 1 else mats[0])
        mk_sol = lambda: S
        nm = S.__class__.__name__
    g = 1 if nm == 'Solve' else growth(D)
    if g > 1e8:
        raise Skip('no pivot-free elimination')
    ex = max(1., g)*n
    sol = mk_sol()
    mon.seen('system', fam, case['d']['cls'], case['k'], nm, 'bc' if bcm else '')
    lab = '%s %s %s' % (spaces.label(case['d']), case['k'], nm)
    mech = 'sys:%s' % nm
    # Functions of the space
    for rep in range(3):
        b = sf.Function(sp)
        b[:n] = rs.standard_normal(n)
        if sp.forward.output_array.dtype.char == 'D':
            b[:n] += 1j*rs.standard_normal(n)
        b0 = np.array(b)
        inplace = rep == 2
        uh = b if inplace else sf.Function(sp)
        try:
            r = sol(b, u=uh) if not inplace else sol(b)
        except Exception as e:
            mon.fail(mech+':raises', '%s %s' % (repr(e)[:200], lab))
            return
        r = np.array(uh)
        rhs = b0.copy()
        if Db is not None:
            bf = sf.Function(sp)
            bf.set_boundary_dofs()
            nb = sp.N-n
            ub = np.array(bf)[n:n+nb]
            cols = np.zeros(Db.shape[1], dtype=b0.dtype)
            bm = np.zeros(n, dtype=b0.dtype)
            for m in bcm:
                w = np.zeros_like(b0)
                bm += np.asarray(m.matvec(np.array(bf), w))[:n]
            rhs[:n] -= bm
            if hasattr(uh, 'set_boundary_dofs'):
                mon.close(r[n:n+nb], ub, 1e-14, mech+':boundary-dofs', lab, scale=1+abs(ub).max() if nb else 1)
        resid(mon, D, r, rhs, 0, mech, lab+' repeat %d' % rep, ex)
        if not inplace:
            if not mon.check(np.array_equal(np.array(b), b0), mech+':rhs-changed', lab):
                b[:] = b0
            r2 = sf.Function(sp)
            r2 = sol(b, u=r2)
            mon.check(np.array_equal(np.array(r2), r), mech+':repeat', lab)
    if bcm:
        return
    for lay in case['lays']:
        b = arr(rs, lay, sp.N)
        b0 = b.copy()
        v = put(rs, lay, b)
        try:
            r = sol(b, u=v, axis=lay['axis']) if v is not None else sol(b, axis=lay['axis'])
        except Exception as e:
            mon.check(refused(e, lay), mech+':raises', '%s %s %s' % (repr(e)[:200], lab, shaped(n, lay)))
            continue
        r = v if v is not None else b
        mon.seen('layout', nm, lay['nd'], lay['axis'], lay['dt'], lay['order'], lay['inplace'])
        resid(mon, D, r, b0, lay['axis'], mech, '%s %s' % (lab, shaped(n, lay)), ex)
        if v is not None:
            mon.check(np.array_equal(b, b0), mech+':rhs-changed', '%s %s' % (lab, shaped(n, lay)))


def run_four(case, mon, sf, rs):
    from shenfun import la
    sp = build(case['d'])
    u, v = sf.TrialFunction(sp), sf.TestFunction(sp)
    k0, k1 = case['k']
    A = sf.inner(sf.Dx(v, 0, k0), sf.Dx(u, 0, k1))
    D = dense(A)
    n = D.shape[0]
    d = np.diag(D)
    sing = abs(d) == 0
    lab = '%s %s' % (spaces.label(case['d']), case['k'])
    sol = la.Solver(A)
    for lay in case['lays']:
        lay = dict(lay, dt='D')
        for nm in ('solve', 'Solver'):
            b = arr(rs, lay, n)
            b0 = b.copy()
            con = ()
            if nm == 'Solver' and sing.any():
                if list(np.nonzero(sing)[0]) != [0]:
                    continue
                con = ((0, 1.5),)
            out = put(rs, lay, b)
            f = A.solve if nm == 'solve' else sol
            try:
                r = f(b, u=out, axis=lay['axis'], constraints=con)
            except ValueError as e:
                mon.check(np.iscomplexobj(D) and nm == 'Solver' and refused(e, lay, True), 'fourier:%s:raises' % nm, '%s %s' % (repr(e)[:200], lab))
                continue
            R = np.moveaxis(r, lay['axis'], 0)
            B = np.moveaxis(b0, lay['axis'], 0)
            mon.event('solve')
            mon.seen('fourier', nm, case['k'], lay['nd'], lay['axis'])
            dd = np.where(sing, 1, d)[(slice(None),)+(None,)*(lay['nd']-1)]
            ref = B/dd
            if con:
                ref[0] = 1.5
            elif nm == 'solve':
                ref[sing] = 0          # documented: singular modes are set to zero
            mon.close(R, ref, 1e-13, 'fourier:%s' % nm, '%s %s' % (lab, shaped(n, lay)))
    matvecs(mon, A, D, D.shape, case['lays'], rs, 'fourier', ['csr', 'dia', 'python', None])


def run_neu(case, mon, sf, rs):
    from shenfun import la
    sp = build(case['d'])
    u, v = sf.TrialFunction(sp), sf.TestFunction(sp)
    fam = case['d']['fam']
    A = sf.inner(v, sf.Dx(u, 0, 2)) if case['form'] == 'col' else sf.inner(sf.Dx(v, 0, 1), sf.Dx(u, 0, 1))
    if isinstance(A, list):
        A = A[0]
    D = dense(A)
    n = D.shape[0]
    if abs(D[0]).max() > 1e-10*abs(D).max() and abs(D[:, 0]).max() > 1e-10*abs(D).max():
        raise Skip('not singular in its first mode')
    val = round(float(rs.uniform(-2, 2)), 3)
    Dc = D.copy()
    Dc[0] = 0
    Dc[0, 0] = 1
    g = growth(Dc)
    if not np.isfinite(g) or np.linalg.cond(Dc) > 1e11:
        raise Skip('singular otherwise')
    S = la.Solver(A)
    nm = S.__class__.__name__
    lab = spaces.label(case['d'])
    for lay in case['lays']:
        if nm == 'Solve':
            lay = dict(lay, nd=1, axis=0)
        for rep in range(2):
            b = arr(rs, lay, sp.N)
            bc = b.copy()
            np.moveaxis(bc, lay['axis'], 0)[0] = val
            out = put(rs, lay, b)
            try:
                r = S(b, u=out, axis=lay['axis'], constraints=((0, val),))
            except Exception as e:
                mon.check(refused(e, lay), 'neumann:%s:raises' % nm, '%s %s %s' % (repr(e)[:200], lab, shaped(n, lay)))
                break
            mon.seen('neumann', fam, case['form'], nm, lay['nd'], lay['axis'], lay['dt'])
            resid(mon, Dc, r, bc, lay['axis'], 'neumann:%s' % nm, '%s %s rep %d' % (lab, shaped(n, lay), rep), max(1., g)*n)


def run_cheb(case, mon, sf, rs):
    """chebyshev.la.Helmholtz/Biharmonic in one dimension"""
    sp = build(case['d'])
    cls = case['d']['cls']
    bih = cls == 'ShenBiharmonic'
    u, v = sf.TrialFunction(sp), sf.TestFunction(sp)
    a0, al, be = case['co']
    mats = []
    one = lambda A: A if isinstance(A, list) else [A]
    if case['four'] or not bih:
        terms = ([(a0, 4), (-al, 2), (be, 0)] if bih else [(-al, 2), (be, 0)])
    else:
        terms = [(a0, 4), (-al, 2), (be, 0)]
    hs = [(c, one(sf.inner(v, sf.Dx(u, 0, k) if k else u))) for c, k in terms]
    D = sum(c*dense(h[0]) for c, h in hs)
    n = D.shape[0]
    withbc = any(len(h) > 1 for _, h in hs)
    names = ('Biharmonic' if bih else 'Helmholtz')
    C = getattr(sf.chebyshev.la, names)
    lab = '%s %s mode %s' % (spaces.label(case['d']), case['co'], case['mode'])
    mech = 'cheb:%s:%s' % (names, 'sep' if case['four'] else 'list')
    if bih and (n < 10 or n % 2):
        # the even and the odd modes are solved for in arrays of the same size; other sizes are refused
        try:
            C([h[0] for _, h in hs])
            mon.fail(mech+':size-not-refused', lab)
        except ValueError:
            mon.check(True, mech+':size-refused')
        return
    if case['four']:
        if withbc:
            raise Skip('scales apply to the matrices without boundary values')
        S = C(*([h[0] for _, h in hs]+[c for c, _ in hs]))
    else:
        ms = []
        for c, h in hs:
            for m in h:
                ms.append(m*c if False else sf.inner(v*c, (sf.Dx(u, 0, terms[[x[0] for x in terms].index(c)][1]) if terms[[x[0] for x in terms].index(c)][1] else u)))
                break
        ms = [m for x in ms for m in one(x)]
        try:
            S = C(ms)
        except Exception as e:
            mon.fail(mech+':raises', '%s %s' % (repr(e)[:200], lab))
            return
    mon.seen('cheb', names, case['mode'], 'four' if case['four'] else 'list', 'bc' if withbc else '', cls)
    bm = np.zeros(n)
    if withbc:
        bf = sf.Function(sp)
        bf.set_boundary_dofs()
        for c, h in hs:
            for m in h[1:]:
                w = np.zeros_like(np.array(bf))
                bm = bm + c*np.asarray(m.matvec(np.array(bf), w))[:n]
    lead = D
    sing = cls == 'ShenNeumann' and abs(be) < 1e-14
    g = growth(D)
    if g > 1e8 or sing:
        raise Skip('no pivot-free elimination')
    for rep in range(2):
        b = sf.Function(sp)
        b[:n] = rs.standard_normal(n)
        b0 = np.array(b)
        uh = sf.Function(sp)
        try:
            S(b, uh)
        except Exception as e:
            mon.fail(mech+':raises', '%s %s' % (repr(e)[:200], lab))
            return
        rhs = b0.copy()
        rhs[:n] -= bm
        resid(mon, D, np.array(uh), rhs, 0, mech, lab+' rep %d' % rep, max(1, g)*n*10)
        c = sf.Function(sp)
        if bih and withbc:
            continue        # the product leaves out the boundary values
        try:
            c = S.matvec(uh, c)
        except NotImplementedError:
            continue
        except Exception as e:
            mon.fail(mech+':matvec:raises', '%s %s' % (repr(e)[:200], lab))
            return
        mon.close(np.asarray(c)[:n], D.dot(np.asarray(uh)[:n])+bm, 1e-12*n, mech+':matvec', lab,
                  scale=abs(D).max()*abs(np.asarray(uh)).max()+1e-300)


def run_mv(case, mon, sf, rs):
    spu, spt = build(case['d']), build(case['dt'])
    u, v = sf.TrialFunction(spu), sf.TestFunction(spt)
    k0, k1 = case['k0'], case['k1']
    A = sf.inner(sf.Dx(v, 0, k0) if k0 else v, sf.Dx(u, 0, k1) if k1 else u)
    if isinstance(A, list):
        A = A[0]
    if rs.random() < .4:
        A.scale = A.scale*1.75
    D = dense(A)
    matvecs(mon, A, D, D.shape, case['lays'], rs, 'mv', FORMS)


RULE = 'distinct (solver, size), (solver, array layout), (matrix, product format, layout), (family, class, problem) combinations whose residual or product was compared'


if __name__ == '__main__':
    vh.main('P07', cases, run, RULE, min_oracle=2000, assumptions=['the entries of the assembled matrices are decided by P03; here they define the linear system', 'banded eliminations do not pivot: systems for which elimination without pivoting is unstable are skipped'])
