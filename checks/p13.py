"""P13: padding, dealiasing, refinement, truncation, convolution and masks."""
import numpy as np
import common  # noqa: F401
import vh
import nd
import ref
import spaces
from p12 import coeffs
from spaces import BCS

RULE = ('padded transforms, products, refinement, assignment, convolution and masks keep exactly the modes they are documented to keep, '
        'compared with mode dictionaries and direct sums')
TOL = 3e-10


def cases(tier, rng):
    T = tier == 'thorough'
    out = []
    oned = [(f, c) for f in BCS for c in BCS[f] if f not in ('fourier',)]+[('fourier', 'R2C'), ('fourier', 'C2C')]*5
    for f, c in oned:
        for _ in range(5 if T else 1):
            d = nd.rbase(rng, 'F' if f == 'fourier' else 'E', True, fams=[f], cls=None if f == 'fourier' else c, real=c == 'R2C', inhom=.6, maxN=20 if T else 16)
            if f != 'fourier' and rng.random() < .3:
                d['dtype'] = 'D'
            out.append({'kind': '1d', 'b': d, 's': rng.randint(0, 10**6), 'cost': 2})
    for N in (list(range(4, 24)) if T else [4, 5, 6, 7, 8, 9, 12, 13]):
        for c in ('R2C', 'C2C'):
            out.append({'kind': 'conv1', 'N': N, 'cls': c, 's': rng.randint(0, 10**6), 'cost': 1})
    plans = ['FF', 'FF', 'FF', 'FB', 'BF', 'FP', 'FFF', 'FFF', 'FFB', 'FBF', 'BFF', 'FFO', 'OFF', 'FBB', 'BB', 'FFFF']
    for i in range(320 if T else 80):
        kinds = plans[i % len(plans)] if rng.random() < .8 else rng.choice(plans)
        d = nd.rspace(rng, kinds, maxN=12 if len(kinds) == 2 else 8 if len(kinds) == 3 else 5, inhom=.3 if kinds.count('F') == len(kinds)-1 else 0,
                      **({'fams': ['legendre', 'chebyshev']} if rng.random() < .5 else {}))
        out.append({'kind': 'nd', 'd': d, 's': rng.randint(0, 10**6), 'cost': 4*len(kinds)})
    for i in range(60 if T else 12):
        f, c = rng.choice([(f, c) for f, c in oned if f in ('chebyshev', 'legendre', 'fourier', 'chebyshevu')])
        out.append({'kind': 'adaptive', 'f': f, 'c': c, 's': rng.randint(0, 10**6), 'cost': 2})
    return out


def close(mon, got, want, mech, det, tol=TOL, sc=None):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        return mon.fail(mech+':shape', '%s vs %s %s' % (got.shape, want.shape, det))
    err = float(np.max(np.abs(got-want), initial=0))
    s = max(float(np.max(np.abs(want), initial=0)), sc or 0, 1e-300)
    return mon.check(np.isfinite(err) and err <= tol*s, mech, 'err %.2e of %.2e %s' % (err, s, det))


# ---- modes
def sym(a, ax, N, real, others=()):
    """coefficients along axis ax -> symmetric array over k=-K..K (K=N//2), the Nyquist mode split in halves"""
    a = np.moveaxis(np.array(a, dtype=complex), ax, 0)
    K = N//2
    out = np.zeros((2*K+1,)+a.shape[1:], complex)
    for k in range(-K, K+1):
        if real:
            v = a[abs(k)]
            if k < 0:
                v = np.conj(v)
                for j in others:
                    jj = j+1 if j < ax else j
                    v = np.roll(np.flip(v, jj-1), 1, jj-1)
        else:
            v = a[k]
        if N % 2 == 0 and abs(k) == K:
            v = v*.5
        out[k+K] = v
    return np.moveaxis(out, 0, ax)


def unsym(a, ax, M, real):
    """restrict a symmetric array to the coefficients of a basis of size M"""
    a = np.moveaxis(a, ax, 0)
    K = a.shape[0]//2

    def g(k):
        return a[k+K] if abs(k) <= K else 0*a[0]
    ks = list(range(0, M//2+1)) if real else [int(q) for q in np.fft.fftfreq(M, 1./M)]
    out = []
    for k in ks:
        v = g(k)
        if M % 2 == 0 and abs(k) == M//2:
            v = g(k)+g(-k)
        out.append(v)
    return np.moveaxis(np.array(out), 0, ax)


def modes(u, r):
    """full symmetric mode array over the Fourier axes"""
    a = np.array(u, dtype=complex)
    F = [i for i, q in enumerate(r.refs) if q.fam == 'fourier']
    if r.r2c:
        i = r.r2c[0]
        a = sym(a, i, r.refs[i].N, True, [j for j in F if j != i])
    for i in F:
        if i not in r.r2c:
            a = sym(a, i, r.refs[i].N, False)
    return a


def restrict(a, r, Ns):
    for i, q in enumerate(r.refs):
        if q.fam == 'fourier':
            a = unsym(a, i, Ns[i], i in r.r2c)
    return a


def poly(a, i, q, M):
    """refine a composite polynomial axis: basis functions keep their index, boundary dofs are last"""
    N, nb = q.N, q.nbc
    a = np.moveaxis(a, i, 0)
    out = np.zeros((M,)+a.shape[1:], complex)
    n = min(N-nb, M-nb)
    out[:n] = a[:n]
    if nb:
        out[M-nb:] = a[N-nb:]
    return np.moveaxis(out, 0, i)


def expected(u, r, Ns):
    """coefficients of u in the space with sizes Ns"""
    a = np.array(u, dtype=complex)
    F = [i for i, q in enumerate(r.refs) if q.fam == 'fourier']
    a = restrict(modes(a, r), r, Ns)
    for i, q in enumerate(r.refs):
        if i not in F:
            a = poly(a, i, q, Ns[i])
    return a


def values(a, r, M):
    """values on the padded Fourier grids of the symmetric mode array a (polynomial axes untouched)"""
    for i, q in enumerate(r.refs):
        if q.fam == 'fourier':
            K = a.shape[i]//2
            E = np.exp(2j*np.pi*np.outer(np.arange(M[i]), np.arange(-K, K+1))/M[i])
            a = np.moveaxis(np.tensordot(E, a, axes=(1, i)), 0, i)
    return a


def convolve(a, b, axes):
    """linear convolution of two symmetric mode arrays along axes"""
    sh = [a.shape[i]+b.shape[i]-1 for i in axes]
    A = np.fft.fftn(a, sh, axes)
    B = np.fft.fftn(b, sh, axes)
    return np.fft.ifftn(A*B, axes=axes)


def run(case, mon):
    {'1d': one, 'nd': many, 'conv1': conv1, 'adaptive': adaptive}[case['kind']](case, mon)


def guard(mon, mech, f, det, skips=()):
    try:
        return f()
    except Exception as e:
        if isinstance(e, skips):
            mon.skip('%s: %s' % (mech, str(e)[:80]))
            return None
        mon.fail(mech+':raises', '%s: %s %s' % (type(e).__name__, str(e)[:120], det))
        return None


def one(case, mon):
    import shenfun as sf
    b = case['b']
    rs = np.random.default_rng(case['s'])
    T = spaces.build(b)
    d = {'bases': [b]}
    r = nd.RefND(d, T)
    rr = r.refs[0]
    N = b['N']
    lab = '%s N=%d bcv=%s dtype=%s' % (spaces.label(b), N, b.get('bcv'), b.get('dtype'))
    u = coeffs(T, r, rs)
    u0 = np.array(u)
    mon.seen('1d', b['fam'], b['cls'], N % 2, any(b['bcv'] or []))
    inhom = any(b['bcv'] or [])
    # a sequence of padded backward transforms through the function, with the same or other factors
    pfs = [float(rs.choice([1.25, 1.5, 2, 1.75])) for _ in range(3)]
    pfs.append(pfs[0])
    for pf in pfs:
        S = T.get_dealiased(pf)
        M = int(np.floor(N*pf+1e-12))
        ua = guard(mon, '1d:backward padded', lambda: u.backward(padding_factor=pf), lab+' pf=%s after %s' % (pf, pfs[:pfs.index(pf)]))
        if ua is None:
            continue
        m = S.mesh()
        if not mon.check(m.shape == (M,), '1d:mesh size', lab):
            continue
        if b['fam'] == 'fourier':
            want = values(modes(u0, r), r, [M])
            want = want.real if r.r2c else want
        else:
            want = r.vander(0, np.array(m)).dot(u0)
        close(mon, np.asarray(ua), want, '1d:backward padded', lab+' pf=%s' % pf, 1e-8)
        # forward of the padded values gives back the coefficients
        back = None if b['cls'] in ('Phi4', 'Phi6') and b['fam'] not in ('chebyshev', 'legendre') else guard(mon, '1d:forward padded', lambda: np.array(S.forward(np.array(ua), sf.Function(S))), lab)
        if back is not None:
            w = u0
            if b['fam'] == 'fourier':
                w = restrict(modes(u0, r), r, [N])
            Vm = np.eye(len(w)) if b['fam'] == 'fourier' else r.vander(0, np.array(m))
            close(mon, Vm.dot(back), Vm.dot(w), '1d:forward padded', lab+' pf=%s' % pf, 1e-7)
    mon.check(np.array_equal(u0, np.array(u)), '1d:coefficients changed', lab)
    # refine and assign
    seq = [N+int(rs.integers(0, 7)) for _ in range(3)]+[2*N]
    for M in seq:
        v = guard(mon, '1d:refine', lambda: u.refine(M), lab+' to %d' % M)
        if v is None:
            continue
        want = restrict(modes(u0, r), r, [M]) if b['fam'] == 'fourier' else poly(u0, 0, rr, M)
        close(mon, np.asarray(v), want, '1d:refine', lab+' to %d' % M)
        T2 = v.function_space()
        mon.check(T2.N == M and type(T2) is type(T) and T2.domain == T.domain, '1d:refined space', lab)
        # the same through assign, into a dirty function
        v2 = sf.Function(T2)
        v2[:] = 7.
        guard(mon, '1d:assign', lambda: u.assign(v2), lab+' to %d' % M)
        close(mon, np.asarray(v2), want, '1d:assign', lab+' to %d' % M)
        # and back again
        z = sf.Function(T)
        z[:] = 3.
        if guard(mon, '1d:assign back', lambda: v.assign(z), lab+' from %d' % M) is not None:
            w = restrict(modes(u0, r), r, [N]) if b['fam'] == 'fourier' else u0
            close(mon, np.asarray(z), w, '1d:assign back', lab+' from %d' % M)
        # the refined function has the same values
        if b['fam'] not in ('laguerre', 'hermite') and not (b['fam'] == 'fourier' and N % 2 == 0):
            a, c = [float(q) for q in rr.domain()]
            x = a+(c-a)*rs.random(5)
            close(mon, v.eval(x), u.eval(x), '1d:refined values', lab+' to %d' % M, 1e-8)
    # truncation
    for M in [N-1, N-2, N-3]:
        nb = rr.nbc
        if M < max(nb+3, spaces_min(b)):
            continue
        v = guard(mon, '1d:truncate', lambda: u.refine(M), lab+' to %d' % M)
        if v is None:
            continue
        want = restrict(modes(u0, r), r, [M]) if b['fam'] == 'fourier' else poly(u0, 0, rr, M)
        close(mon, np.asarray(v), want, '1d:truncate', lab+' to %d' % M)
    # masks and direct dealiasing
    if b['fam'] == 'fourier':
        w = u0.copy()
        if N % 2 == 0:
            w[N//2] = 0
        z = u.copy()
        z.mask_nyquist()
        close(mon, np.asarray(z), w, '1d:mask_nyquist', lab)
        z = T.mask_nyquist(u0.copy())
        close(mon, z, w, '1d:mask_nyquist', lab)
        S = T.get_dealiased(1, dealias_direct=True)
        a = np.asarray(S.backward(u, sf.Array(S)))
        k = np.abs(np.fft.fftfreq(N, 1./N)) if b['cls'] == 'C2C' else np.arange(N//2+1)
        w = np.where(k >= N//3, 0, u0)
        wa = values(modes(w, r), r, [N])
        wa = wa.real if r.r2c else wa
        close(mon, a, wa, '1d:dealias_direct', lab)
        mon.check(np.array_equal(u0, np.array(u)), '1d:coefficients changed', lab)


def spaces_min(b):
    from p01 import minN
    return minN(b['fam'], b['cls']) if b['fam'] != 'fourier' else 4


def conv1(case, mon):
    import shenfun as sf
    N, c = case['N'], case['cls']
    rs = np.random.default_rng(case['s'])
    b = {'fam': 'fourier', 'cls': c, 'N': N, 'bcv': [], 'dtype': 'd' if c == 'R2C' else 'D', 'quad': '', 'domain': None, 'pf': 1}
    T = spaces.build(b)
    r = nd.RefND({'bases': [b]}, T)
    lab = '%s N=%d' % (c, N)
    u, v = coeffs(T, r, rs), coeffs(T, r, rs)
    u0, v0 = np.array(u), np.array(v)
    full = convolve(modes(u0, r), modes(v0, r), [0])
    K = full.shape[0]//2
    mon.seen('conv1', c, N)
    # exact, without transforms
    w = guard(mon, 'conv1:slow', lambda: np.array(T.convolve(u0.copy(), v0.copy(), fast=False)), lab)
    if w is not None:
        if c == 'R2C':
            want = full[K:K+len(w)]
            want = np.concatenate([want, np.zeros(len(w)-len(want))])
        else:
            want = np.zeros(2*N, complex)
            for k in range(-K, K+1):
                want[k] += full[k+K]
        close(mon, w, want, 'conv1:slow', lab)
    # with transforms, truncated
    for pf in (1.5+1.01/N, 1.75, 2, 2.5):
        M = int(np.floor(N*pf))
        # alias free for the kept modes
        if M < 2*(N//2)+N//2+1:
            continue
        S = T.get_dealiased(pf)
        want = restrict(full, r, [N])
        w = guard(mon, 'conv1:fast', lambda: np.array(S.convolve(u0.copy(), v0.copy())), lab)
        if w is not None:
            close(mon, w, want, 'conv1:fast', lab+' pf=%s' % pf)
        o = np.full_like(u0, 5.)
        w = guard(mon, 'conv1:fast out', lambda: np.array(S.convolve(u0.copy(), v0.copy(), o)), lab)
        if w is not None:
            close(mon, w, want, 'conv1:fast out', lab+' pf=%s' % pf)
        # product via arrays
        a = np.array(S.backward(u, sf.Array(S)))*np.array(S.backward(v, sf.Array(S)))
        w = np.array(S.forward(a, sf.Function(S)))
        close(mon, w, want, 'conv1:product', lab+' pf=%s' % pf)
    mon.check(np.array_equal(u0, np.array(u)) and np.array_equal(v0, np.array(v)), 'conv1:inputs changed', lab)


def many(case, mon):
    import shenfun as sf
    d = case['d']
    rs = np.random.default_rng(case['s'])
    T = nd.build(d)
    r = nd.RefND(d, T)
    n = len(d['bases'])
    Ns = [b['N'] for b in d['bases']]
    F = [i for i in range(n) if d['bases'][i]['fam'] == 'fourier']
    lab = '%s N=%s axes=%s dtype=%s' % ('x'.join(spaces.label(b) for b in d['bases']), Ns, d['axes'], d['dtype'])
    pats = ''.join('F' if i in F else 'B' for i in range(n))
    mon.seen('nd', pats, d['dtype'], tuple(q % 2 for q in Ns), tuple(d['axes'] or ()))
    u = coeffs(T, r, rs)
    u0 = np.array(u)
    sc = float(np.abs(u0).max()) or 1.
    inhom = any(any(b['bcv'] or []) for b in d['bases'])
    evenR = [i for i in r.r2c if Ns[i] % 2 == 0]

    def pad_values(u_, M):
        a = values(modes(u_, r), r, M)
        for i in range(n):
            if i not in F:
                m = np.squeeze(ms[i])
                a = np.moveaxis(np.tensordot(r.vander(i, np.atleast_1d(m)), a, axes=(1, i)), 0, i)
        return a.real if (r.r2c or d['dtype'] == 'd') else a

    # padded transforms, several factors in sequence
    pfs = []
    for _ in range(2):
        pfs.append(tuple(float(rs.choice([1, 1.25, 1.5, 2])) for _ in range(n)))
    pfs += [1.5, pfs[0]]
    for pf in pfs:
        pft = pf if isinstance(pf, tuple) else (pf,)*n
        if all(q == 1 for q in pft):
            continue
        ua = guard(mon, 'nd:backward padded', lambda: u.backward(padding_factor=pf), lab+' pf=%s' % (pf,))
        if ua is None:
            continue
        S = u.get_dealiased_space(pf)
        M = [int(np.floor(N*q+1e-12)) for N, q in zip(Ns, pft)]
        ms = S.mesh()
        if not mon.check(tuple(ua.shape) == tuple(M), 'nd:padded shape', '%s %s %s' % (ua.shape, M, lab)):
            continue
        mon.check(S.shape(True) == T.shape(True) and S.shape(False) == tuple(M) and S.global_shape(True) == T.global_shape(True), 'nd:padded space shapes', lab)
        mon.check(S.local_slice(True) == tuple(slice(0, q) for q in T.shape(True)) and S.local_slice(False) == tuple(slice(0, q) for q in M), 'nd:padded slices', '%s %s %s' % (S.local_slice(True), S.local_slice(False), lab))
        # unpadded even axes: the Nyquist mode is not split but the values agree
        close(mon, np.asarray(ua), pad_values(u0, M), 'nd:backward padded', lab+' pf=%s' % (pf,), 1e-8, sc)
        back = guard(mon, 'nd:forward padded', lambda: np.array(S.forward(np.array(ua), sf.Function(S))), lab)
        if back is not None and not inhom:
            close(mon, back, expected(u0, r, Ns), 'nd:forward padded', lab+' pf=%s' % (pf,), 1e-7, sc)
    mon.check(np.array_equal(u0, np.array(u)), 'nd:coefficients changed', lab)
    # products
    if all(d['bases'][i]['cls'] == 'Orthogonal' and d['bases'][i]['fam'] not in ('laguerre', 'hermite') or i in F for i in range(n)):
        v = coeffs(T, r, rs)
        v0 = np.array(v)
        full = convolve(modes(u0, r), modes(v0, r), F)
        if len(F) == n:
            for pf in (1.5, 2.):
                S = T.get_dealiased(pf)
                M = [int(np.floor(N*pf)) for N in Ns]
                want = restrict(full, r, Ns)
                ok = np.ones(want.shape, bool)
                for i in F:
                    # modes free of aliasing
                    k = np.abs(r.refs[i].ks())
                    good = k < M[i]-2*(Ns[i]//2)
                    ok &= good.reshape([-1 if j == i else 1 for j in range(n)])
                for nm, f in (('convolve', lambda: np.array(S.convolve(u, v, sf.Function(S)))),
                              ('product', lambda: np.array(S.forward(np.array(u.backward(padding_factor=pf))*np.array(v.backward(padding_factor=pf)), sf.Function(S))))):
                    w = guard(mon, 'nd:'+nm, f, lab)
                    if w is not None:
                        close(mon, np.where(ok, w, 0), np.where(ok, want, 0), 'nd:'+nm, lab+' pf=%s' % pf, 1e-9, float(np.abs(full).max()))
            # without truncation
            pf = 2.
            S = T.get_dealiased(pf)
            C = guard(mon, 'nd:Convolve', lambda: sf.tensorproductspace.Convolve(S), lab)
            if C is not None:
                w = guard(mon, 'nd:Convolve call', lambda: C(u, v), lab)
                if w is not None:
                    want = restrict(full, r, [2*N for N in Ns])
                    close(mon, np.asarray(w), want, 'nd:Convolve', lab, 1e-9, float(np.abs(full).max()))
                    Tn = w.function_space()
                    mon.check([b.domain == c.domain for b, c in zip(Tn.bases, T.bases)] == [True]*n, 'nd:Convolve space', lab)
        else:
            S = T.get_dealiased(2.)
            w = guard(mon, 'nd:convolve', lambda: np.array(S.convolve(u, v, sf.Function(S))), lab)
            # reference: exact product, quadrature projection in the polynomial directions with very many points
            if w is not None:
                xs = []
                A, B = modes(u0, r), modes(v0, r)
                for i in range(n):
                    if i not in F:
                        b = d['bases'][i]
                        X, W = ref.gauss(b['fam'], 3*Ns[i]+4, r.refs[i].al if hasattr(r.refs[i], 'al') else 0, r.refs[i].be if hasattr(r.refs[i], 'be') else 0)
                        V = r.vander(i, np.asarray(r.refs[i].x(X)).astype(float))
                        A = np.moveaxis(np.tensordot(V, A, axes=(1, i)), 0, i)
                        B = np.moveaxis(np.tensordot(V, B, axes=(1, i)), 0, i)
                        xs.append((i, V, np.asarray(W).astype(float)))
                P = convolve(A, B, F)
                for i, V, W in xs:
                    G = (V.T*W).dot(V)
                    Pi = np.linalg.solve(G, V.T*W)
                    P = np.moveaxis(np.tensordot(Pi, P, axes=(1, i)), 0, i)
                if all(b['fam'] in ('chebyshev', 'legendre', 'chebyshevu') for i, b in enumerate(d['bases']) if i not in F):
                    close(mon, w, restrict(P, r, Ns), 'nd:convolve', lab, 1e-8, float(np.abs(P).max()))
    # direct dealiasing, also after the same factor without it
    if F == list(range(n)) and n < 4:
        S = guard(mon, 'nd:dealias_direct', lambda: T.get_dealiased(1, dealias_direct=True), lab)
        if S is not None:
            a = np.asarray(S.backward(u, sf.Array(S)))
            w = u0.copy()
            for i in F:
                k = np.abs(r.refs[i].ks())
                w = np.where((k >= Ns[i]//3).reshape([-1 if j == i else 1 for j in range(n)]), 0, w)
            ms = S.mesh()
            close(mon, a, pad_values(w, Ns), 'nd:dealias_direct', lab, 1e-9, sc)
            mon.check(np.array_equal(u0, np.array(u)), 'nd:coefficients changed', lab)
            S2 = T.get_dealiased((1.,)*n)
            a = np.asarray(S2.backward(u, sf.Array(S2)))
            close(mon, a, pad_values(u0, Ns), 'nd:no dealiasing', lab, 1e-9, sc)
    # refine
    targets = [[N+int(rs.integers(0, 5)) for N in Ns], [2*N for N in Ns], [N+int(rs.integers(0, 2))*3 for N in Ns]]
    for M in targets:
        v = guard(mon, 'nd:refine', lambda: u.refine(M), lab+' to %s' % M)
        if v is None:
            continue
        want = expected(u0, r, M)
        close(mon, np.asarray(v), want, 'nd:refine', lab+' to %s' % M, TOL, sc)
        T2 = v.function_space()
        mon.check([b.N for b in T2.bases] == list(M) and [type(b) for b in T2.bases] == [type(b) for b in T.bases] and [b.domain for b in T2.bases] == [b.domain for b in T.bases], 'nd:refined space', lab)
        v2 = sf.Function(T2)
        v2[:] = 7
        if guard(mon, 'nd:assign', lambda: u.assign(v2), lab) is not None:
            close(mon, np.asarray(v2), want, 'nd:assign', lab+' to %s' % M, TOL, sc)
        z = sf.Function(T)
        z[:] = 2
        if guard(mon, 'nd:assign back', lambda: v2.assign(z), lab) is not None:
            # the real Nyquist plane of a truncation is a convention
            w = expected(u0, r, Ns)
            g = np.array(z)
            for i in evenR:
                s = [slice(None)]*n
                s[i] = Ns[i]//2
                g[tuple(s)] = w[tuple(s)] = 0
            close(mon, g, w, 'nd:assign back', lab+' from %s' % M, TOL, sc)
    # truncation of every mode above
    M = [max(N-int(rs.integers(0, 3)), 4 if i in F else spaces_min(d['bases'][i])+1, 3) for i, N in enumerate(Ns)]
    M = [min(a, b) for a, b in zip(M, Ns)]
    v = guard(mon, 'nd:truncate', lambda: u.refine(M), lab+' to %s' % M)
    if v is not None:
        w = expected(u0, r, M)
        g = np.array(v)
        for i in r.r2c:
            if M[i] % 2 == 0 and g.shape == w.shape:
                s = [slice(None)]*n
                s[i] = M[i]//2
                g[tuple(s)] = w[tuple(s)] = 0
        close(mon, g, w, 'nd:truncate', lab+' to %s' % M, TOL, sc)
    mon.check(np.array_equal(u0, np.array(u)), 'nd:coefficients changed', lab)
    # masks
    if F:
        w = u0.copy()
        for i in F:
            if Ns[i] % 2 == 0:
                s = [slice(None)]*n
                s[i] = Ns[i]//2
                w[tuple(s)] = 0
        z = u.copy()
        z.mask_nyquist()
        close(mon, np.asarray(z), w, 'nd:mask_nyquist', lab)
        if n < 4:
            for W in (sf.VectorSpace(T), sf.CompositeSpace([T, T]), sf.TensorSpace(T)):
                Z = sf.Function(W)
                Zr = np.asarray(Z).reshape((-1,)+u0.shape)
                for c in range(Zr.shape[0]):
                    Zr[c] = u0*(c+1)
                guard(mon, 'nd:vector mask_nyquist', lambda: Z.mask_nyquist(), lab)
                for c in range(Zr.shape[0]):
                    close(mon, np.asarray(Z).reshape((-1,)+u0.shape)[c], w*(c+1), 'nd:vector mask_nyquist', lab)
    # vectors and tensors
    if n in (2, 3):
        W = sf.VectorSpace(T) if rs.random() < .5 else sf.TensorSpace(T)
        nm = type(W).__name__
        U = sf.Function(W)
        Ur = np.asarray(U).reshape((-1,)+u0.shape)
        for c in range(Ur.shape[0]):
            Ur[c] = u0*(c+1.)
        if not inhom:
            pf = pfs[1]
            if not all(q == 1 for q in pf):
                Ua = guard(mon, 'nd:%s backward padded' % nm, lambda: U.backward(padding_factor=pf), lab)
                if Ua is not None:
                    M = [int(np.floor(N*q+1e-12)) for N, q in zip(Ns, pf)]
                    ms = T.get_dealiased(pf).mesh()
                    a = pad_values(u0, M)
                    got = np.asarray(Ua).reshape((-1,)+a.shape)
                    for c in range(len(got)):
                        close(mon, got[c], a*(c+1), 'nd:%s backward padded' % nm, lab, 1e-8, sc)
            M = targets[0]
            V = guard(mon, 'nd:%s refine' % nm, lambda: U.refine(M), lab)
            if V is not None:
                want = expected(u0, r, M)
                got = np.asarray(V)
                if mon.check(got.size == Ur.shape[0]*want.size, 'nd:%s refine:shape' % nm, '%s %s' % (got.shape, lab)):
                    got = got.reshape((-1,)+want.shape)
                    for c in range(len(got)):
                        close(mon, got[c], want*(c+1), 'nd:%s refine' % nm, lab, TOL, sc*(c+1))
                    mon.check(type(V.function_space()) is type(W), 'nd:%s refined space' % nm, lab)
                    Z = sf.Function(W)
                    if nm == 'VectorSpace' and guard(mon, 'nd:VectorSpace assign', lambda: U.assign(sf.Function(V.function_space())), lab) is not None:
                        V2 = U.assign(sf.Function(V.function_space()))
                        close(mon, np.asarray(V2), np.asarray(V), 'nd:VectorSpace assign', lab)


def adaptive(case, mon):
    import shenfun as sf
    import sympy as sp
    rs = np.random.default_rng(case['s'])
    np.random.seed(case['s'] % 1000)
    x = sp.Symbol('x', real=True)
    f, c = case['f'], case['c']
    if f == 'fourier':
        k = int(rs.integers(1, 30))
        fun = sp.cos(k*x)+sp.sin(2*x)*sp.Rational(int(rs.integers(1, 9)), 4)
        T = sf.FunctionSpace(0, 'F', dtype='d' if c == 'R2C' else 'D')
    else:
        n = int(rs.integers(2, 25))
        fun = x**n-3*x+sp.exp(x/2) if rs.random() < .5 else sp.cos(int(rs.integers(1, 12))*x)
        if rs.random() < .5:
            fun = fun*(1-x**2)
            T = sf.FunctionSpace(0, {'chebyshev': 'C', 'legendre': 'L', 'chebyshevu': 'U'}[f], bc=(0, 0))
        else:
            T = sf.FunctionSpace(0, {'chebyshev': 'C', 'legendre': 'L', 'chebyshevu': 'U'}[f])
    A = guard(mon, 'adaptive', lambda: T.get_adaptive(fun), str(fun))
    if A is None:
        return
    mon.seen('adaptive', f, A.N)
    u = sf.Function(A, buffer=fun)
    a, b = [float(q) for q in A.domain]
    xs = a+(b-a)*rs.random(20)
    want = np.array([float(fun.subs(x, q)) for q in xs])
    close(mon, u.eval(xs), want.astype(u.eval(xs).dtype), 'adaptive', '%s %s N=%d' % (type(A).__name__, fun, A.N), 1e-6)


if __name__ == '__main__':
    vh.main('P13', cases, run, RULE)
