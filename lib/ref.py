"""Independent reference mathematics (extended precision where it matters).

Nothing in this module uses shenfun.  The definitions are those of the
textbook families the package documents.
"""
import numpy as np

LD = np.longdouble


def _jacobi_abc(a, b, n):
    """P_{n+1} = (A x + B) P_n - C P_{n-1} for standard Jacobi polynomials"""
    a, b, n = LD(a), LD(b), LD(n)
    if n == 0:
        return (a+b+2)/2, (a-b)/2, LD(0)
    s = 2*n+a+b
    den = 2*(n+1)*(n+a+b+1)*s
    A = (s+1)*(s+2)*s/den
    B = (s+1)*(a*a-b*b)/den
    C = 2*(n+a)*(n+b)*(s+2)/den
    return A, B, C


def _abc(family, n, alpha, beta):
    if family == 'chebyshev':
        return (LD(1), LD(0), LD(0)) if n == 0 else (LD(2), LD(0), LD(1))
    if family == 'chebyshevu':
        return (LD(2), LD(0), LD(0)) if n == 0 else (LD(2), LD(0), LD(1))
    if family == 'legendre':
        return LD(2*n+1)/(n+1), LD(0), LD(n)/(n+1)
    if family in ('jacobi', 'ultraspherical'):
        return _jacobi_abc(alpha, beta, n)
    if family == 'laguerre':
        return -LD(1)/(n+1), LD(2*n+1)/(n+1), LD(n)/(n+1)
    raise ValueError(family)


def _poly(family, x, N, kmax, alpha=0, beta=0):
    """list over derivative order k of (len(x), N) arrays, plain polynomials"""
    x = np.asarray(x, dtype=LD)
    V = [np.zeros((x.size, max(N, 2)), dtype=LD) for _ in range(kmax+1)]
    V[0][:, 0] = 1
    for n in range(max(N, 2)-1):
        A, B, C = _abc(family, n, alpha, beta)
        for k in range(kmax+1):
            t = (A*x+B)*V[k][:, n]
            if k:
                t = t+k*A*V[k-1][:, n]
            if n:
                t = t-C*V[k][:, n-1]
            V[k][:, n+1] = t
    return [v[:, :N] for v in V]


def basis(family, X, N, k=0, alpha=0, beta=0, wavenumbers=None):
    """k'th derivative of the first N orthogonal basis functions at reference
    points X: longdouble (complex for fourier) array (len(X), N)"""
    X = np.atleast_1d(np.asarray(X))
    if family == 'fourier':
        kk = np.asarray(wavenumbers, dtype=LD)
        ph = np.multiply.outer(X.astype(LD), kk)
        E = np.cos(ph)+1j*np.sin(ph)
        return E*(1j*kk)**k if k else E
    if family == 'hermite':
        M = N+k+1
        x = X.astype(LD)
        V = np.zeros((x.size, M+1), dtype=LD)
        V[:, 0] = np.exp(-x*x/2)/LD(np.pi)**LD(0.25)
        V[:, 1] = np.sqrt(LD(2))*x*V[:, 0]
        for n in range(1, M):
            V[:, n+1] = np.sqrt(LD(2)/(n+1))*x*V[:, n]-np.sqrt(LD(n)/(n+1))*V[:, n-1]
        for _ in range(k):
            W = np.zeros_like(V)
            for n in range(V.shape[1]-1):
                W[:, n] = -np.sqrt(LD(n+1)/2)*V[:, n+1]
                if n:
                    W[:, n] += np.sqrt(LD(n)/2)*V[:, n-1]
            V = W[:, :-1]
        return V[:, :N]
    if family == 'laguerre':
        P = _poly(family, X, N, k)
        from math import comb
        e = np.exp(-X.astype(LD)/2)[:, None]
        return sum(comb(k, j)*LD(-0.5)**(k-j)*P[j] for j in range(k+1))*e
    V = _poly(family, X, N, k, alpha, beta)[k]
    if family == 'ultraspherical':
        one = _poly(family, [1], N, 0, alpha, beta)[0][0]
        V = V/one
    return V


def weight(family, X, alpha=0, beta=0):
    X = np.asarray(X, dtype=LD)
    if family == 'chebyshev':
        return 1/np.sqrt(1-X*X)
    if family == 'chebyshevu':
        return np.sqrt(1-X*X)
    if family in ('jacobi', 'ultraspherical'):
        return (1-X)**LD(alpha)*(1+X)**LD(beta)
    return np.ones_like(X)


def gauss(family, M, alpha=0, beta=0):
    """Gauss rule (points, weights incl. the family's weight) with M points in
    double precision, refined in extended precision for the polynomials."""
    if family == 'chebyshev':
        j = np.arange(M, dtype=LD)
        return np.cos((2*j+1)*LD(np.pi)/(2*M)), np.full(M, LD(np.pi)/M)
    if family == 'chebyshevu':
        j = np.arange(1, M+1, dtype=LD)
        return np.cos(j*LD(np.pi)/(M+1)), LD(np.pi)/(M+1)*np.sin(j*LD(np.pi)/(M+1))**2
    if family == 'legendre':
        return leggauss(M)
    if family in ('jacobi', 'ultraspherical'):
        from scipy.special import roots_jacobi
        x, w = roots_jacobi(M, alpha, beta)
        return x.astype(LD), w.astype(LD)
    if family == 'laguerre':
        # integral_0^inf f(x) dx with f decaying like exp(-x)
        from numpy.polynomial.laguerre import laggauss
        x, w = laggauss(M)
        x = x.astype(LD)
        return x, w.astype(LD)*np.exp(x)
    if family == 'hermite':
        from numpy.polynomial.hermite import hermgauss
        x, w = hermgauss(M)
        x = x.astype(LD)
        return x, w.astype(LD)*np.exp(x*x)
    if family == 'fourier':
        j = np.arange(M, dtype=LD)
        p = 2*LD(np.pi)
        return j*p/M, np.full(M, p/M)
    raise ValueError(family)


PI = LD('3.14159265358979323846264338327950288')


def leggauss(M):
    x = np.cos(PI*(np.arange(M, 0, -1).astype(LD)-LD(0.25))/(M+LD(0.5)))
    for _ in range(8):
        p0, p1 = np.ones_like(x), x
        for n in range(1, M):
            p0, p1 = p1, ((2*n+1)*x*p1-n*p0)/(n+1)
        if M == 0:
            break
        dp = M*(p0-x*p1)/(1-x*x)
        dx = p1/dp
        x = x-dx
        if np.max(np.abs(dx)) < 1e-19:
            break
    p0, p1 = np.ones_like(x), x
    for n in range(1, M):
        p0, p1 = p1, ((2*n+1)*x*p1-n*p0)/(n+1)
    dp = M*(p0-x*p1)/(1-x*x)
    return x, 2/((1-x*x)*dp*dp)


# fix gauss() helpers to use the accurate pi
def _acc(family, M):
    j = np.arange(M, dtype=LD)
    if family == 'chebyshev':
        return np.cos((2*j+1)*PI/(2*M)), np.full(M, PI/M)
    if family == 'chebyshevu':
        return np.cos((j+1)*PI/(M+1)), PI/(M+1)*np.sin((j+1)*PI/(M+1))**2
    return j*2*PI/M, np.full(M, 2*PI/M)


_gauss0 = gauss


def gauss(family, M, alpha=0, beta=0):   # noqa: F811
    if family in ('chebyshev', 'chebyshevu', 'fourier'):
        return _acc(family, M)
    return _gauss0(family, M, alpha, beta)


def fourier_wavenumbers(N, real):
    if real:
        return np.arange(N//2+1)
    return np.fft.fftfreq(N, 1./N).astype(int)
