"""P03 - assembled bilinear-form matrices equal the integrals they stand for."""
from common import vh, Skip
import json
import os
import numpy as np
import ref
import spaces
from spaces import BCS, QUADS
from p01 import mk, minN, mesh_points, interp_weights, HEAVY

KEYS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib', 'matkeys.json')))
POLYM = ['x', 'x**2', '1-x**2', '1+2*x', '3*x**3-x+1', '-2', '(1+x)**2', 'x**4']
FUNM = ['sin(x)', 'exp(x/2)', '1/(x+9)', 'cos(2*x)+2', 'sqrt(x+9)']
ORT = {'chebyshev', 'chebyshevu', 'legendre', 'jacobi', 'ultraspherical'}


def sized(rng, fam, cls, big=False):
    n = len(BCS[fam][cls])
    N = rng.randint(max(minN(fam, cls)+1, 6), max(minN(fam, cls)+1, 6)+7)
    if big:
        N = rng.randint(30, 60)
    if fam == 'laguerre':
        N = rng.randint(6, 14)
    return N


def pair(rng, tf, tc, uf, uc, k0, k1, m=None, mode=None, N=None, Nt=None, quad=None, pg=False):
    N = N or max(sized(rng, uf, uc), minN(tf, tc)+1)
    dom = None if uf in ('laguerre', 'hermite') else spaces.rdomain(rng)
    if uf == 'fourier':
        dom = rng.choice([None, [0, 1], [-1, 2.5]])
    q = lambda f: rng.choice([a for a in QUADS[f] if (f, a) != ('chebyshev', 'GU')])
    qu = quad or q(uf)
    du = mk(rng, uf, uc, N, qu, dom, rng.random() < .7)
    dt = mk(rng, tf, tc, Nt or N, qu if tf == uf else q(tf), dom, False)
    for k in ('alpha', 'beta'):
        if k in du and k in dt:
            dt[k] = du[k]
    if mode == 'implemented':
        du['bcv'] = [0]*len(du['bcv'])
    return {'t': 'pair', 'test': dt, 'trial': du, 'k0': k0, 'k1': k1, 'm': m, 'mode': mode, 's': rng.randint(0, 10**6),
            'pg': pg, 'cost': 8 if (tc in HEAVY or uc in HEAVY) else (6 if mode in ('exact', 'adaptive') else 1), 'timeout': 30 if mode == 'exact' else 200,
            'slow_ok': mode == 'exact'}


MODES = [None, None, None, 'stencil', 'vandermonde', 'vandermonde', 'implemented', 'fixed']


def cases(tier, rng):
    th = tier == 'thorough'
    out = []
    fams = [f for f in BCS if f not in ('fourier',)]
    # (1) every hard-coded matrix
    for fam in KEYS:
        for tc, k0, uc, k1, tf, uf in KEYS[fam]:
            if tc in ('Generic', 'BCGeneric') or uc in ('Generic', 'BCGeneric') or uc.startswith('BC'):
                continue
            if tc not in BCS[tf] or uc not in BCS[uf]:
                continue
            if k1 < 0 or k0 < 0:
                continue
            for rep in range(3 if th else 1):
                for quad in (QUADS[uf] if uf in ('chebyshev', 'legendre', 'chebyshevu') else [None]):
                    if (uf, quad) == ('chebyshev', 'GU'):
                        continue
                    big = rng.random() < .2
                    N = max(sized(rng, uf, uc, big), minN(tf, tc)+1)
                    Nt = N
                    if tc.startswith('Phi') and not uc.startswith('Phi') and rng.random() < .6:
                        Nt = N+len(BCS[tf][tc])//2*rng.choice([1, 2]) if uf == tf else N+2
                    out.append(pair(rng, tf, tc, uf, uc, k0, k1, None, rng.choice([None, 'implemented']), N, Nt, quad))
    # (2) random pairs
    n = 700 if th else 240
    for i in range(n):
        fam = fams[i % len(fams)]
        fast = [c for c in BCS[fam] if c != 'Phi6' and (th or c not in HEAVY or rng.random() < .3)]
        uc, tc = rng.choice(fast), rng.choice(fast)
        k0 = rng.choice([0, 0, 0, 1, 2])
        k1 = rng.choice([0, 0, 1, 1, 2, 2, 3, 4])
        if fam in ('laguerre', 'hermite'):
            k0, k1 = rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2])
        m = None
        r = rng.random()
        if fam not in ('laguerre', 'hermite'):
            m = rng.choice(POLYM) if r < .35 else (rng.choice(FUNM) if r < .45 else None)
        elif r < .2:
            m = rng.choice(['x', 'x**2', '-2'])
        mode = rng.choice(MODES)
        Nt = None
        N = max(sized(rng, fam, uc), minN(fam, tc)+1)
        if tc.startswith('Phi') and rng.random() < .5:
            Nt = N+len(BCS[fam][tc])//2
        if rng.random() < .15:
            Nt = N+rng.randint(1, 3)
        out.append(pair(rng, fam, tc, fam, uc, k0, k1, m, mode, N, Nt))
    # (3) cross families
    cr = ['chebyshev', 'legendre', 'chebyshevu', 'ultraspherical', 'jacobi']
    for i in range(80 if th else 24):
        a, b = rng.sample(cr, 2)
        pick = lambda f: rng.choice([c for c in BCS[f] if c not in HEAVY])
        out.append(pair(rng, a, pick(a), b, pick(b), rng.choice([0, 0, 1]), rng.choice([0, 1, 2]),
                        rng.choice([None, None, 'x', '1-x**2']), rng.choice([None, None, 'vandermonde'])))
    # (4) exact and adaptive
    for i in range(80 if th else 26):
        fam = rng.choice(['chebyshev', 'legendre', 'chebyshevu', 'jacobi', 'ultraspherical', 'legendre'])
        pick = lambda: rng.choice([c for c in BCS[fam] if len(BCS[fam][c]) <= 2])
        uc, tc = pick(), pick()
        N = rng.randint(minN(fam, 'Orthogonal')+2, 6)
        N = max(N, minN(fam, uc), minN(fam, tc))
        mode = rng.choice(['exact', 'adaptive'])
        k0 = 0 if (fam == 'chebyshev' and mode == 'exact') else rng.choice([0, 0, 1])
        c = pair(rng, fam, tc, fam, uc, k0, rng.choice([0, 1, 2]), rng.choice([None, None, 'x', '1-x**2']), mode, N)
        out.append(c)
    # (5) Petrov-Galerkin test spaces chosen by the package
    for i in range(60 if th else 24):
        fam = rng.choice(['chebyshev', 'legendre', 'chebyshevu', 'jacobi', 'ultraspherical'])
        uc = rng.choice([c for c in BCS[fam] if BCS[fam][c] and len(BCS[fam][c]) <= (6 if th else 4) and not c.startswith('Phi')])
        k = len(BCS[fam][uc])
        if k == 4 and fam in ('jacobi', 'ultraspherical') and not th and rng.random() < .5:
            continue
        c = pair(rng, fam, uc, fam, uc, 0, rng.randint(0, k), rng.choice([None, None, 'x', 'x**2', '1+2*x']), None, pg=True)
        out.append(c)
    # (6) Fourier
    for cls in ('R2C', 'C2C'):
        for i in range(12 if th else 6):
            c = pair(rng, 'fourier', cls, 'fourier', cls, rng.choice([0, 1, 2]), rng.choice([0, 1, 2, 3, 4]), None,
                     rng.choice([None, None, 'vandermonde']), N=rng.randint(3, 17), quad='')
            out.append(c)
    return out


def degree(d, r, k):
    """per-function polynomial degree of the k'th derivative"""
    B = r.S if r.S is not None else np.eye(d['N'])
    deg = np.array([np.max(np.nonzero(row)[0]) if np.any(row) else 0 for row in B])
    if r.nbc:
        pass
    return np.maximum(deg-k, 0)


def exactness(d, M):
    if d['quad'] == 'GL':
        return 2*M-3
    if d['fam'] == 'chebyshevu' and d['quad'] == 'GC':
        return 2*M-3        # points of the first kind with the weight of the second
    return 2*M-1


def run(case, mon):
    import shenfun as sf
    import sympy as sp
    dt, du = case['test'], case['trial']
    su = spaces.build(du)
    ru = spaces.Ref(du, su)
    if case['pg']:
        st = su.get_testspace('PG')
        dt = dict(du, N=st.N, cls=type(st).__name__, bcv=[0]*len(du['bcv']))
    else:
        st = su if (dt['cls'] == du['cls'] and dt['N'] == du['N'] and dt['fam'] == du['fam']) else spaces.build(dt)
    rt = spaces.Ref(dt, st)
    fam = dt['fam']
    k0, k1 = case['k0'], case['k1']
    lab = '%s.%s/%s.%s' % (dt['fam'], dt['cls'], du['fam'], du['cls'])
    x = sp.Symbol('x', real=True)
    m = sp.sympify(case['m'], locals={'x': x}) if case['m'] else sp.S(1)
    u, v = sf.TrialFunction(su), sf.TestFunction(st)
    eu = sf.Dx(u, 0, k1) if k1 else u
    ev = sf.Dx(v, 0, k0) if k0 else v
    if m != 1:
        eu = (m if not m.is_number else float(m))*eu
    kw = {}
    mode = case['mode']
    jac = fam in ORT
    ispoly = m.is_polynomial()
    if mode == 'stencil' and not (jac and ispoly and du['fam'] == fam):
        mode = None
    if mode == 'fixed':
        kw['fixed_resolution'] = max(dt['N'], du['N'])+8
    elif mode in ('exact', 'adaptive'):
        kw['assemble'] = mode
    elif mode:
        kw['kind'] = mode
    try:
        A = sf.inner(ev, eu, **kw)
    except AttributeError as e:
        if mode == 'implemented':
            raise Skip('not implemented')
        raise
    except TypeError as e:
        if mode == 'exact' and ('convert' in str(e) or 'float' in str(e)):
            raise Skip('sympy cannot evaluate the integral')
        raise
    except (AssertionError, NotImplementedError) as e:
        if mode in ('stencil', 'implemented', 'exact', 'fixed'):
            raise Skip('%s not offered' % mode)
        raise
    if mode == 'implemented' and not isinstance(A, list) and len(A) == 0:
        raise Skip('not implemented')
    L = A if isinstance(A, list) else [A]
    Mats = [a for a in L if not a.is_bc_matrix()]
    Bcs = [a for a in L if a.is_bc_matrix()]
    mon.check(len(Mats) == 1, 'number-of-matrices', '%d %d' % (len(Mats), len(Bcs)))
    nt, nu, nb = st.dim(), su.dim(), ru.nbc
    inhom = any(du['bcv'])
    mech = ':%s,%d,%d:%s' % (lab, k0, k1, mode)
    # ------- references
    if fam == 'fourier':
        xs = rt.x(ref.gauss('fourier', 2*dt['N']+1)[0])
        Vt, Vu = rt.test(xs, k0), ru.trial(xs, k1)
        W = np.full(len(xs), 1./len(xs))
        exact = (np.conj(Vt).T*W).dot(Vu)
        mask = np.ones(exact.shape, bool)
        if dt['N'] % 2 == 0:
            j = dt['N']//2
            if k0+k1 and (k0+k1) % 2:
                mask[j, j] = False      # odd derivative of the unpaired mode: P13
        got = dense(Mats[0], nt, nu)
        mon.close(got[mask], exact[mask], 1e-13, 'entries'+mech, 'N=%d' % dt['N'], scale=float(np.max(np.abs(exact))+1e-300))
        mon.event('matrix')
        mon.seen(lab, k0, k1, mode, dt['N'] % 2)
        return
    mfun = sp.lambdify(x, m, 'numpy')
    Mq = max(dt['N'], du['N'])+(4 if ispoly else 24)
    if fam in ('hermite', 'laguerre'):
        Mq = max(dt['N'], du['N'])+4
    X, W = ref.gauss(fam, Mq, rt.alpha, rt.beta)
    xs = rt.x(X)

    def quad(xs, W, boundary=False):
        Vt = rt.test(xs, k0)[:, :nt]
        Vu = ru.trial(xs, k1)
        mm = np.asarray(mfun(xs.astype(float)), dtype=float)*np.ones(len(xs))
        if ispoly:
            mm = np.array([float(t) for t in mm])
        WW = (W*mm)/rt.df
        ab = np.abs(WW)
        Ao = np.abs(ru.ortho(xs, k1))
        To = np.abs(rt.ortho(xs, k0))
        O = (To.T*ab).dot(Ao)
        S1 = np.abs(rt.S) if rt.S is not None else np.eye(rt.N)
        S0 = np.abs(ru.S) if ru.S is not None else np.eye(ru.N)
        scale = S1.dot(O).dot(S0.T)
        V = (Vt.T*WW).dot(Vu)
        return V, scale.astype(float)
    V, scale = quad(xs, W)
    # the quadrature the package uses on the test space's own points
    M = dt['N'] if mode != 'fixed' else kw['fixed_resolution']
    if dt['fam'] in ('laguerre', 'hermite'):
        Xq, Wq = ref.gauss(fam, M)
    else:
        Xq = mesh_points(dt, M)
        Wq = interp_weights(dt, rt, Xq)
    Q, _ = quad(rt.x(Xq), Wq)
    V, Q = V.astype(float), Q.astype(float)
    dm = int(sp.Poly(m, x).degree()) if ispoly and not m.is_number else 0
    dg = degree(dt, rt, k0)[:, None]+degree(du, ru, k1)[None, :nu]+dm
    okexact = (dg <= exactness(dt, M)) if ispoly else np.zeros(dg.shape, bool)
    if fam == 'laguerre' or fam == 'hermite':
        okexact = dg+(2*(k0+k1) if fam == 'hermite' else k0+k1) <= 2*M-1
    got = dense(Mats[0], nt, nu)
    tol = 1e-11 if mode != 'adaptive' else 1e-7
    if mode in ('exact', 'adaptive'):
        okexact[:] = True
    drop = 3e-10*max(np.max(np.abs(V)), 1.)     # documented: negligible diagonals are not stored
    s = np.maximum(scale[:nt, :nu], 1e-14*np.max(scale))
    e1 = np.abs(got-V[:, :nu])/s
    d12 = np.abs(Q-V)
    ok = (e1 <= tol) | ((got == 0) & (np.abs(V[:, :nu]) <= drop)) | (~okexact & (e1 <= 3*d12[:, :nu]/s+tol))
    bad = ~ok
    mon.event('matrix')
    mon.event('entries', got.size)
    mon.check(not np.any(bad), 'entries'+mech, lambda: 'm=%s N=%d,%d quad=%s; %d bad entries, first %s got %s exact %s quadrature %s' % (
        case['m'], dt['N'], du['N'], dt['quad'], bad.sum(), np.argwhere(bad)[0], got[bad][0], V[:, :nu][bad][0], Q[:, :nu][bad][0]))
    mon.seen(lab, k0, k1, mode, case['m'], dt['N'] == du['N'], getattr(Mats[0], '_assembly_method', ''))
    # ------- boundary contribution
    if ru.nbc and inhom:
        want = V[:, nu:]
        wantq = Q[:, nu:]
        gotb = np.zeros(want.shape)
        for B in Bcs:
            gotb = gotb+dense(B, nt, nb)
        sb = np.max(np.abs(V), initial=1e-3)
        sb = max(sb, float(np.max(np.abs(quad(xs, W)[0]))))
        db = degree(dt, rt, k0)[:, None]+max(ru.B.shape[1]-1-k1, 0)+dm+np.zeros((1, nb), int)
        okb = (db <= exactness(dt, M)) if ispoly else np.zeros(db.shape, bool)
        if mode in ('exact', 'adaptive'):
            okb[:] = True
        e1 = np.abs(gotb-want)/sb
        bad = ~((e1 <= tol*10) | ((gotb == 0) & (np.abs(want) <= drop)) | (~okb & (e1 <= 3*np.abs(wantq-want)/sb+tol*10)))
        mon.check(not np.any(bad), 'boundary'+mech, lambda: 'm=%s N=%d,%d quad=%s %d boundary matrices; first %s got %s exact %s' % (
            case['m'], dt['N'], du['N'], dt['quad'], len(Bcs), np.argwhere(bad)[0], gotb[bad][0], want[bad][0]))
        mon.event('boundary-matrix')


def dense(A, n, m):
    D = np.zeros((n, m), dtype=complex)
    G = A.diags('csr').toarray()
    if G.shape != (n, m):
        raise AssertionError('matrix shape %s, expected %s' % (G.shape, (n, m)))
    D[:] = G
    return D.real if np.max(np.abs(D.imag), initial=0) == 0 else D


RULE = ('distinct (test class, trial class, derivatives, assembly mode, coefficient, equal sizes, assembly path taken) whose '
        'matrix entries were compared with extended-precision Gauss quadrature of the same integrands')
if __name__ == '__main__':
    vh.main('P03', cases, run, RULE, assumptions=[
        'entries whose integrand exceeds the exactness of the documented quadrature may equal either the integral or the quadrature sum'])
