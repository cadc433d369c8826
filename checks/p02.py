"""P02 - composite bases satisfy their boundary conditions and stay complete."""
from common import vh, Skip
import numpy as np
import ref
import spaces
from spaces import BCS, QUADS, POLY, ORDER
from p01 import mk, minN, mesh_points, interp_weights, HEAVY

UFAM = {'chebyshev': 'C', 'chebyshevu': 'U', 'legendre': 'L', 'jacobi': 'J', 'ultraspherical': 'Q', 'laguerre': 'La'}
MAXC = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'R': 1, 'W': 2, 'N4': 4, 'N5': 5}


def val(rng, inhom=True):
    return round(rng.uniform(-2, 2), 2) if inhom else 0


def rand_conditions(rng, n):
    """n random conditions [side, type, c, value], ordered as the dofs"""
    while True:
        pool = ['D', 'D', 'N', 'N', 'N2', 'N3', 'R', 'W'] if n < 3 else ['D', 'N', 'N2', 'D', 'N', 'N3']
        s = set()
        while len(s) < n:
            s.add((rng.choice('LR'), rng.choice(pool)))
        s = sorted(s)
        # at least one condition fixing the value, keeps most cases admissible
        if any(t in 'DR' for _, t in s) or rng.random() < 0.2:
            return [[a, t, round(rng.choice([-1, 1])*rng.uniform(0.3, 2), 2) if t in 'RW' else 0, val(rng)] for a, t in s]


def cases(tier, rng):
    th = tier == 'thorough'
    out = []
    # (1) every class
    for fam, cl in BCS.items():
        if fam in ('fourier', 'hermite'):
            continue
        for cls, names in cl.items():
            if not names:
                continue
            if cls == 'Phi6' and not th and fam != 'legendre':
                continue
            for rep in range(4 if th else 2):
                quad = rng.choice([q for q in QUADS[fam] if (fam, q) != ('chebyshev', 'GU')])
                N = max(2*len(names)+2, rng.randint(6, 13))
                if fam == 'laguerre':
                    N = rng.randint(5, 14)
                dom = None if fam == 'laguerre' else spaces.rdomain(rng, ['ref', None, 'small', 'big'][rep % 4] if rep != 1 else None)
                d = mk(rng, fam, cls, N, quad, dom, rep % 2 == 1 or rng.random() < .5, rng.choice('dD'))
                out.append({'t': 'cls', 'd': d, 's': rng.randint(0, 10**6), 'cost': 10 if cls in HEAVY else 1})
    # (2) user level
    for fam in UFAM:
        # tuples, strings, dicts of every known set
        for form in ['tuple', 'dict', 'str', 'olddict']:
            for rep in range(3 if th else 1):
                for n in (2, 4, 6) if fam != 'laguerre' else (1,):
                    if n == 6 and not th and rng.random() < .5:
                        continue
                    if fam == 'ultraspherical' and n == 6 and not th:
                        continue
                    if fam == 'laguerre' and form == 'str':
                        continue
                    out.append(user_case(rng, fam, form, n))
        for cls, names in BCS[fam].items():
            if names and len(names) < 8 and (th or rng.random() < 0.4):
                c = user_case(rng, fam, 'dict', 1)
                c.update(form=rng.choice(['basis', 'default']), cls=cls, N=2*len(names)+rng.randint(3, 7))
                c['conds'] = [[q[0], q[1:], 0, val(rng) if c['form'] == 'basis' else 0] for q in names]
                out.append(c)
        # large spaces
        if fam != 'laguerre':
            c = user_case(rng, fam, 'rand', 2)
            a, b = rng.choice([('N2', 'N2'), ('D', 'N3'), ('N3', 'D'), ('D', 'N2'), ('R', 'N2')])
            c.update(conds=[['L', a, 0.5 if a == 'R' else 0, val(rng)], ['R', b, 0, val(rng)]], N=rng.randint(150, 400), big=1)
            if fam in ('jacobi', 'ultraspherical'):
                c['N'] = rng.randint(60, 100)
            out.append(c)
        for rep in range(12 if th else 5):
            n = rng.choice([1, 2, 2, 2, 3, 3]+([4, 4, 5] if th else [4] if fam == 'legendre' else [])) if fam != 'laguerre' else 1
            c = user_case(rng, fam, 'rand', n)
            out.append(c)
    # every two-condition combination for one family per run
    fam = rng.choice(['chebyshev', 'legendre', 'chebyshevu'])
    for a in ['D', 'N', 'R', 'W', 'N2']:
        for b in ['D', 'N', 'R', 'W', 'N2']:
            c = user_case(rng, fam, 'rand', 2)
            c['conds'] = [['L', a, 0.7 if a in 'RW' else 0, val(rng)], ['R', b, -0.6 if b in 'RW' else 0, val(rng)]]
            out.append(c)
    # (3) tensor products
    for i in range(90 if th else 30):
        out.append(tp_case(rng, i))
    for c in out:
        if c['t'] == 'user':
            c['timeout'] = 150 if th else 25
            n = len(c['conds'])
            c['cost'] = 1+n*(20 if n > 3 else 1)+(30 if c['form'] == 'rand' and c['fam'] in ('jacobi', 'ultraspherical', 'chebyshevu') else 0)
    return out


def user_case(rng, fam, form, n):
    dom = None if fam == 'laguerre' else spaces.rdomain(rng)
    c = {'t': 'user', 'fam': fam, 'form': form, 'domain': dom, 's': rng.randint(0, 10**6), 'cost': 1+n,
         'timeout': 40 if n < 4 else 150, 'slow_ok': 1}
    c['N'] = 2*n+rng.randint(4, 8)
    c['quad'] = rng.choice([q for q in QUADS[fam] if (fam, q) != ('chebyshev', 'GU')]+[None])
    c['dtype'] = rng.choice('dD')
    if fam == 'jacobi':
        c['alpha'], c['beta'] = rng.choice([(0, 0), (1, 1), (0, 1), (0.5, 1.5)])
    if fam == 'ultraspherical':
        c['alpha'] = rng.choice([0, 0.5, 1, 1.5])
    if form == 'tuple':
        if n == 1:
            co = [['L', 'D', 0, val(rng)]]
        elif n == 2:
            k = rng.choice([0, 1, 2])
            co = [['L', 'D', 0, val(rng)], ['R', 'D', 0, val(rng)]]
            if k == 1:
                co = co[:1]
            if k == 2:
                co = co[1:]
        else:
            ty = ['D', 'N', 'N2', 'N3'][:n//2]
            co = [[s, t, 0, val(rng)] for s in 'LR' for t in ty]
    elif form == 'str':
        if n == 2:
            a, b = rng.choice(['DD', 'NN', 'DN', 'ND'])
            co = [['L', a, 0, val(rng)], ['R', b, 0, val(rng)]]
        else:
            ty = ['D', 'N', 'N2', 'N3'][:n//2]
            co = [[s, t, 0, val(rng)] for s in 'LR' for t in ty]
            if n == 4 and rng.random() < .5:
                co = [['L', 'D', 0, val(rng)], ['L', 'N', 0, val(rng)], ['R', 'N2', 0, val(rng)], ['R', 'N3', 0, val(rng)]]
        rng.shuffle(co)
    elif form in ('dict', 'olddict'):
        if n == 1:
            co = [['L', rng.choice('DN'), 0, val(rng)]]
        elif n == 2:
            a = rng.choice([('LD', 'RD'), ('LN', 'RN'), ('LD', 'RN'), ('LN', 'RD'), ('RD', 'RN'), ('LD', 'LN'), ('RD',), ('LD',)])
            co = [[x[0], x[1:], 0, val(rng)] for x in a]
        else:
            ty = ['D', 'N', 'N2', 'N3'][:n//2]
            co = [[s, t, 0, val(rng)] for s in 'LR' for t in ty]
        if form == 'dict':
            rng.shuffle(co)
    else:
        co = rand_conditions(rng, n)
        if fam == 'laguerre':
            t = rng.choice('DNR')
            co = [['L', t, round(rng.uniform(0.2, 1), 2) if t == 'R' else 0, val(rng)]]
        if rng.random() < .5:
            rng.shuffle(co)
    c['conds'] = co
    # optionally name the basis explicitly
    return c


TPB = [('chebyshev', 'LDRD'), ('legendre', 'LDRD'), ('chebyshevu', 'LDRD'), ('chebyshev', 'LNRN'), ('legendre', 'LDLNRDRN'),
       ('chebyshev', 'LDLNRDRN'), ('legendre', 'LDRN'), ('legendre', 'LDLNRN2RN3'), ('chebyshev', 'RD'), ('legendre', 'RDRN'),
       ('jacobi', 'LDRD'), ('ultraspherical', 'LDRD'), ('legendre', 'LRRD'), ('chebyshev', 'LNRR'), ('legendre', 'LNRD')]


def split_names(s):
    import re
    return re.findall(r'[LR](?:D|N\d?|R|W)', s)


def tp_case(rng, i):
    dim = rng.choice([2, 2, 3])
    two = dim == 2 and rng.random() < 0.45
    ds = []
    for j in range(dim):
        if j == 0 or (two and j == 1):
            fam, nm = rng.choice(TPB if not two else [b for b in TPB if 'R' not in b[1].replace('RD', '').replace('RN', '') and 'LR' not in b[1]])
            n = len(split_names(nm))
            ds.append({'k': 'bc', 'fam': fam, 'names': nm, 'N': rng.randint(2*n+3, 2*n+6), 'domain': spaces.rdomain(rng)})
        elif rng.random() < 0.7:
            ds.append({'k': 'F', 'N': rng.randint(5, 8), 'domain': rng.choice([None, [0, 1], [-1, 2.5]])})
        else:
            ds.append({'k': 'O', 'fam': rng.choice(['legendre', 'chebyshev']), 'N': rng.randint(4, 6), 'domain': spaces.rdomain(rng)})
    rng.shuffle(ds)
    F = [j for j, d in enumerate(ds) if d['k'] == 'F']
    real = rng.random() < .6
    axes = list(range(dim))
    rng.shuffle(axes)
    rc = None
    if F and real:
        rc = rng.choice(F)
        axes.remove(rc)
        axes.append(rc)
    if not F:
        real = True
    return {'t': 'tp', 'ds': ds, 'axes': axes, 'r2c': rc, 'real': real, 's': rng.randint(0, 10**6),
            'time': (rng.random() < 0.3) and not two, 'func': rng.random() < .15, 'pf': rng.choice([1, 1, 1, 1.5])}


# ------------------------------------------------------------------ oracle
def conds_of(desc):
    return [[n[0], n[1:], 0, v] for n, v in zip(BCS[desc['fam']][desc['cls']], desc['bcv'])]


def crow(r, c, N, df=None):
    """row of the orthogonal coefficients -> value of the condition in the true domain"""
    a, b = r.domain()
    x = np.array([a if c[0] == 'L' else b], dtype=ref.LD)
    if r.fam == 'laguerre':
        x = np.array([0], dtype=ref.LD)
    t = c[1]
    if t == 'R':
        return (r.ortho(x, 0, N)+ref.LD(c[2])*r.ortho(x, 1, N))[0]
    if t == 'W':
        return (r.ortho(x, 1, N)+ref.LD(c[2])*r.ortho(x, 2, N))[0]
    return r.ortho(x, ORDER[t], N)[0]


def interp(r, x, f):
    """orthogonal coefficients of the interpolant through (x, f)"""
    V = r.ortho(x).astype(float)
    return np.linalg.solve(V, f), np.linalg.cond(V)


class R(spaces.Ref):
    def __init__(self, fam, N, domain, alpha, beta):
        self.desc = {'domain': domain}
        self.fam, self.N = fam, N
        self.alpha = alpha or 0
        self.beta = (alpha if fam == 'ultraspherical' else beta) or 0
        self.S = None
        self.nbc = 0
        a, b = self.domain()
        self.df = ref.LD(1) if fam == 'laguerre' else 2/(ref.LD(b)-ref.LD(a))


def run(case, mon):
    {'cls': run_cls, 'user': run_user, 'tp': run_tp}[case['t']](case, mon)


def run_cls(case, mon):
    d = case['d']
    space = spaces.build(d)
    lab = spaces.label(d)
    check_space(space, R(d['fam'], d['N'], d['domain'], d.get('alpha'), d.get('beta')), conds_of(d), lab, case, mon)
    stencil_views(space, spaces.Ref(d, space), lab, case, mon)


def run_user(case, mon):
    import shenfun as sf
    from sympy.matrices.exceptions import NonInvertibleMatrixError
    fam = case['fam']
    co = case['conds']
    dom = case['domain']
    if case['form'] == 'tuple':
        if fam == 'laguerre':
            bc = (co[0][3],)
        elif len(co) == 1:
            bc = (co[0][3], None) if co[0][0] == 'L' else (None, co[0][3])
        else:
            bc = tuple(c[3] for c in co)
    elif case['form'] == 'str':
        a, b = dom or (-1, 1)
        bc = '&&'.join("u%s(%r)=%r" % ("'"*ORDER[c[1]], a if c[0] == 'L' else b, c[3]) for c in co)
    elif case['form'] == 'olddict':
        bc = {}
        for s, nm in (('L', 'left'), ('R', 'right')):
            if any(c[0] == s for c in co):
                bc[nm] = [(c[1], c[3]) for c in co if c[0] == s]
    elif case['form'] == 'default':
        bc = None
    else:
        bc = {'left': {}, 'right': {}}
        for c in co:
            bc['left' if c[0] == 'L' else 'right'][c[1]] = (c[2], c[3]) if c[1] in 'RW' else c[3]
    kw = {}
    if dom:
        kw['domain'] = tuple(dom)
    if case['quad']:
        kw['quad'] = case['quad']
    for k in ('alpha', 'beta'):
        if case.get(k) is not None:
            kw[k] = case[k]
    if case.get('cls'):
        kw['basis'] = case['cls']
    import copy
    bc0 = copy.deepcopy(bc)
    try:
        space = sf.FunctionSpace(case['N'], UFAM[fam], bc=bc, dtype=case['dtype'], **kw)
    except NonInvertibleMatrixError:
        raise Skip('no basis of the narrowest form for these conditions')
    mon.check(bc == bc0, 'bc-argument-changed', str(bc))
    srt = sorted(co, key=lambda c: (c[0], c[1]))
    if case.get('cls'):
        mon.check(type(space).__name__ == case['cls'], 'basis-class', '%s for %s' % (type(space), case['cls']))
    lab = '%s.user.%s%s.%s' % (fam, case['form'], case.get('cls', ''), ''.join(c[0]+c[1] for c in srt))
    r = R(fam, case['N'], dom, case.get('alpha'), case.get('beta'))
    # narrowest stencils may be singular for some n: then the package rejects or
    # the basis is not defined
    check_space(space, r, srt, lab, case, mon, admissible=True)


def check_space(space, r, conds, lab, case, mon, admissible=False):
    import shenfun as sf
    rs = np.random.RandomState(case['s'])
    N = r.N
    n = N-len(conds)
    fam = r.fam
    A = np.array([crow(r, c, N) for c in conds]).astype(float)
    g = np.array([c[3] for c in conds], dtype=float)
    An = np.max(np.abs(A), axis=1)
    sv = np.linalg.svd(A/An[:, None])[1]
    if sv[-1] < 1e-9*sv[0]:
        raise Skip('conditions are not independent')
    if not mon.check(space.dim() == n, 'dim:'+lab, '%s vs %s' % (space.dim(), n)):
        return
    S = space.stencil_matrix(N).diags().toarray()[:n, :N].astype(float)
    if not np.all(np.isfinite(S)):
        if admissible:
            raise Skip('stencil has a pole for these conditions')
    # (a) every row of the stencil satisfies the homogeneous conditions
    for i, c in enumerate(conds):
        row = S.dot(A[i])
        Sa, Aa = np.abs(S), np.abs(A[i])
        win = np.array([np.max(Aa[max(0, q-2*len(conds)):q+2*len(conds)+1]) for q in range(n)])
        sc = Sa.dot(Aa)+1e-3*np.max(Sa, axis=1)*win+1e-300
        mon.check(np.all(np.abs(row) <= 2e-11*sc), 'stencil-bc:'+lab, 'condition %s rows %s' % (c, np.max(np.abs(row)/sc)))
    mon.seen('stencil', lab, r.desc['domain'] is not None, N % 2)
    if case.get('big'):
        return
    nr = np.sqrt(np.sum(S**2, axis=1))
    sv = np.linalg.svd(S/nr[:, None])[1]
    if admissible and sv[-1] < 1e-10:
        raise Skip('degenerate narrowest stencil')
    mon.check(sv[-1] > 1e-10, 'independent:'+lab, 'smallest singular value %s' % sv[-1])
    mon.seen('stencil', lab, r.desc['domain'] is not None, N % 2)
    # (b) what the user sees
    M = space.shape(False)
    x = np.asarray(space.mesh(bcast=False), dtype=float)
    u = sf.Function(space)
    w = 1/nr
    u[:n] = (rs.standard_normal(n)+(1j*rs.standard_normal(n) if case.get('dtype', case.get('d', {}).get('dtype')) == 'D' else 0))*w
    u.set_boundary_dofs()
    ua = np.array(u.backward())
    c, cond = interp(r, x, ua)
    mon.event('backward')
    for i, cd in enumerate(conds):
        got = A[i].dot(c)
        sc = np.abs(A[i]).dot(np.abs(c))+abs(cd[3])+An[i]
        mon.check(abs(got-cd[3]) <= 1e-13*cond*sc+1e-11*sc, 'bc-value:'+lab, 'condition %s got %s scale %s' % (cd, got, sc))
        mon.event('condition')
        # point evaluation at the boundary
        if cd[1] == 'D':
            xb = r.domain()[0 if cd[0] == 'L' else 1]
            ev = np.asarray(u.eval(np.array([float(xb)])))
            mon.close(ev, cd[3], 1e-11, 'bc-eval:'+lab, str(cd), scale=sc)
    mon.seen('value', lab, any(g), case.get('form'), M % 2)
    # (c) complete: any expansion of N coefficients that satisfies the
    # conditions is represented
    p = rs.standard_normal(N)/(1+np.arange(N))
    pin = np.linalg.pinv(A/An[:, None])
    p = p-pin.dot((A.dot(p)-g)/An)
    p = p-pin.dot((A.dot(p)-g)/An)
    f = sf.Array(space)
    V = r.ortho(x).astype(float)
    f[:] = V.dot(p)
    fh = f.forward()
    fb = np.array(fh.backward())
    mon.event('projection')
    # conditioning of the discrete projection
    X = r.X(x)
    W = interp_weights({'fam': fam, 'quad': space.quad}, r, X) if fam != 'laguerre' else ref.gauss('laguerre', M)[1].astype(float)
    B = V.dot((S/nr[:, None]).T)
    G = (B.T*W).dot(B)
    cg = np.linalg.cond(G)
    sc = float(np.max(np.abs(V).dot(np.abs(p))))
    if cg < 1e10:
        mon.close(fb, np.array(f), 1e-14*cg+1e-11, 'complete:'+lab, 'cond %.1e' % cg, scale=sc)
    else:
        mon.skip('ill-conditioned basis')


def stencil_views(space, r, lab, case, mon):
    """the different descriptions of the same basis agree"""
    rs = np.random.RandomState(case['s']+1)
    import sympy as sp
    d = case['d']
    N, n, nb = r.N, r.N-r.nbc, r.nbc
    a, b = [float(t) for t in r.domain()]
    b = min(b, 6.)
    x = a+(b-a)*np.array([0.07, 0.31, 0.66, 0.93])
    V = r.trial(x)
    sc = float(np.max(np.abs(V)))
    Xr = r.X(x).astype(float)
    E = np.asarray(space.evaluate_basis_all(x=Xr.copy(), argument=1))
    mon.close(E, V, 1e-11, 'basis-all-trial:'+lab, scale=sc)
    E = np.asarray(space.evaluate_basis_all(x=Xr.copy()))
    mon.close(E[:, :n], V[:, :n], 1e-11, 'basis-all:'+lab, scale=sc)
    mon.event('views')
    mon.seen('views', lab)
    i = int(rs.randint(0, n))
    vi = V[:, i]
    si = float(np.max(np.abs(r.ortho(x).astype(float)).dot(np.abs(r.S[i]))))
    mon.close(space.evaluate_basis(Xr.copy(), i=i), vi, 1e-11, 'basis-i:'+lab, 'i=%d' % i, scale=si)
    for k in (1, 2):
        Vk = r.trial(x, k)/float(r.df)**k
        sk = np.max(np.abs(r.ortho(x, k).astype(float)), axis=0)/float(r.df)**k
        D = np.asarray(space.evaluate_basis_derivative_all(x=Xr.copy(), k=k))
        mon.close(D[:, :n], Vk[:, :n], 1e-10, 'dbasis-all:'+lab, 'k=%d' % k, scale=float(np.max(np.abs(r.S).dot(sk))))
        try:
            g = space.evaluate_basis_derivative(Xr.copy(), i=i, k=k)
        except NotImplementedError:
            continue
        mon.close(g, Vk[:, i], 1e-10, 'dbasis-i:'+lab, 'i=%d k=%d' % (i, k), scale=float(np.abs(r.S[i]).dot(sk))+1e-12)
    xs = sp.Symbol('x', real=True)
    try:
        f = space.basis_function(i, x=xs)
    except (NotImplementedError, ValueError):
        f = None
    if f is not None:
        fv = np.array([float(sp.N(sp.sympify(f).subs(xs, sp.Float(float(t), 30)), 20)) for t in Xr])
        mon.close(fv, vi, 1e-9, 'basis-sympy:'+lab, 'i=%d' % i, scale=si)
    # orthogonal coefficients
    import shenfun as sf
    u = sf.Function(space)
    u[:n] = rs.standard_normal(n)/np.sqrt(np.sum(r.S**2, axis=1))
    u.set_boundary_dofs()
    u0 = np.array(u).copy()
    o = np.array(u.to_ortho())
    c = r.S.T.dot(u0[:n])
    c[:r.B.shape[1]] += r.B.T.dot(u0[n:])
    mon.close(o, c, 1e-11, 'to-ortho:'+lab, scale=float(np.max(np.abs(c))))
    mon.check(np.array_equal(np.array(u), u0), 'to-ortho-changes-input:'+lab)


# -------------------------------------------------------- tensor products
def tp_terms(rs, case):
    """a random separable sum sum_k prod_j f_kj; each factor is given through
    its values and derivatives on points: here polynomials or trigonometric"""
    import sympy as sp
    syms = sp.symbols('x,y,z', real=True)[:len(case['ds'])]
    tt = sp.Symbol('t', real=True)
    ue = 0
    for k in range(2):
        t = sp.Integer(1)
        for j, d in enumerate(case['ds']):
            s = syms[j]
            if d['k'] == 'F':
                a, b = d['domain'] or (0, 2*sp.pi)
                m = int(rs.randint(0, 3))
                X = 2*sp.pi*(s-a)/(b-a)
                t *= sp.sin(m*X+sp.Rational(int(rs.randint(1, 9)), 10)) if m else sp.Integer(1)
            else:
                deg = 3 if d['k'] == 'O' else d['N']-1 if False else 4
                t *= sum(sp.Rational(int(rs.randint(-9, 10)), 10)*s**q for q in range(deg+1))
        if case['time'] and k == 0:
            t *= (1+tt)
        ue += t
    return ue, syms, tt


def run_tp(case, mon):
    import shenfun as sf
    import sympy as sp
    rs = np.random.RandomState(case['s'])
    ds = case['ds']
    ue, syms, tt = tp_terms(rs, case)
    bcd = [j for j, d in enumerate(ds) if d['k'] == 'bc']
    T0 = None
    bases = []
    func = case['func'] and len(bcd) == 1 and not case['time']
    if func:
        # the boundary value is a Function of a space containing the field
        nb = []
        for j, d in enumerate(ds):
            if d['k'] == 'F':
                nb.append(sf.FunctionSpace(d['N'], 'F', dtype='d' if j == case['r2c'] else 'D', **dom(d)))
            else:
                nb.append(sf.FunctionSpace(8, 'L', **dom(d)))
        try:
            T0 = sf.TensorProductSpace(sf.comm, nb, dtype='d' if case['real'] else 'D', axes=tuple(case['axes']))
        except AssertionError:
            func = False
    for j, d in enumerate(ds):
        if d['k'] == 'F':
            bases.append(sf.FunctionSpace(d['N'], 'F', dtype='d' if j == case['r2c'] else 'D', **dom(d)))
        elif d['k'] == 'O':
            bases.append(sf.FunctionSpace(d['N'], UFAM[d['fam']], **dom(d)))
        else:
            bc = {'left': {}, 'right': {}}
            for nm in split_names(d['names']):
                s, t = nm[0], nm[1:]
                xb = (d['domain'] or (-1, 1))[0 if s == 'L' else 1]
                xb = sp.Rational(repr(xb)) if isinstance(xb, float) else xb
                c = 0.6
                if t == 'R':
                    e = ue+sp.Rational(3, 5)*ue.diff(syms[j])
                else:
                    e = ue.diff(syms[j], ORDER[t]) if ORDER[t] else ue
                if func:
                    if ORDER.get(t) != 0:
                        v = e.subs(syms[j], xb)
                    else:
                        v = sf.Array(T0, buffer=ue).forward()
                else:
                    v = e.subs(syms[j], xb)
                v = sp.nsimplify(v) if not func else v
                if isinstance(v, sp.Expr) and not v.free_symbols:
                    v = float(v)
                bc['left' if s == 'L' else 'right'][t] = (c, v) if t == 'R' else v
            bases.append(sf.FunctionSpace(d['N'], UFAM[d['fam']], bc=bc, **dom(d)))
    T = sf.TensorProductSpace(sf.comm, bases, dtype='d' if case['real'] else 'D', axes=tuple(case['axes']))
    time = 0
    lab = 'tp%d.%d' % (len(ds), len(bcd))
    what = '+'.join(d['fam']+d['names'] for d in ds if d['k'] == 'bc')
    for step in range(2 if case['time'] else 1):
        if case['time']:
            time = [0, 0.7][step]
            if step:
                for b in T.bases:
                    if hasattr(b, 'bc') and b.bc is not None:
                        try:
                            b.bc.update(time)
                        except AttributeError:
                            pass
        u_t = ue.subs(tt, time)
        X = T.local_mesh(True)
        fe = np.array(sp.lambdify(syms, u_t, 'numpy')(*[np.asarray(m, float) for m in X]), dtype=float)*np.ones(X[0].shape)
        ua = sf.Array(T)
        ua[:] = fe
        uh = ua.forward()
        ub = np.array(uh.backward())
        mon.event('tp-projection')
        mon.close(ub, fe, 1e-9, 'tp-complete:'+lab, '%s time=%s func=%s' % (what, time, func), scale=max(1, np.max(np.abs(fe))))
        # any coefficients satisfy the conditions
        v = sf.Function(T)
        g = sf.Array(T)
        g[:] = rs.standard_normal(g.shape)
        v = g.forward(v)
        vb = np.array(v.backward())
        for j in bcd:
            d = ds[j]
            r = R(d['fam'], d['N'], d['domain'], 0, 0)
            x = np.asarray(T.bases[j].mesh(bcast=False), float)
            Vm = np.linalg.inv(r.ortho(x).astype(float))
            co = np.moveaxis(np.tensordot(Vm, vb, (1, j)), 0, -1)
            for nm in split_names(d['names']):
                row = crow(r, [nm[0], nm[1:], 0.6, 0], d['N']).astype(float)
                got = co.dot(row)
                want = u_t
                xb = (d['domain'] or (-1, 1))[0 if nm[0] == 'L' else 1]
                if nm[1:] == 'R':
                    want = u_t+0.6*u_t.diff(syms[j])
                elif ORDER[nm[1:]]:
                    want = u_t.diff(syms[j], ORDER[nm[1:]])
                want = want.subs(syms[j], xb)
                Y = [np.take(np.asarray(m, float), 0, axis=j) for m in X]
                wv = np.array(sp.lambdify(syms, want, 'numpy')(*Y), dtype=float)*np.ones(Y[0].shape)
                sc = float(np.max(np.abs(co).dot(np.abs(row))))+np.max(np.abs(wv))
                mon.close(got, wv, 1e-9, 'tp-bc:'+lab, '%s %s func=%s time=%s axes=%s' % (what, nm, func, time, case['axes']), scale=sc)
                mon.event('condition')
                mon.seen('tp', what, nm, case['axes'], func, case['time'], [q['k'] for q in ds])


def dom(d):
    return {'domain': tuple(d['domain'])} if d.get('domain') else {}


RULE = ('distinct (family, class or list of conditions, form in which they were given, domain, parity) whose stencil rows, '
        'transformed random coefficients or projected polynomials were compared with the conditions evaluated '
        'independently in the true domain')
if __name__ == '__main__':
    vh.main('P02', cases, run, RULE, assumptions=[
        'condition sets for which the package itself reports a singular system, or for which the narrowest stencil has a pole '
        'or is degenerate, are rejected input',
        'tensor products with two inhomogeneous directions use boundary data that are traces of one function'])
