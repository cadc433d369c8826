"""Catalogue of one-dimensional function spaces, described by JSON-able
dictionaries, and their independent reference descriptions."""
import importlib
import numpy as np
import ref
from ref import LD

# family -> class -> list of conditions in the order of the dofs.
L2 = ['LD', 'RD']
BCS = {
    'chebyshev': {
        'Orthogonal': [], 'ShenDirichlet': ['LD', 'RD'], 'Heinrichs': ['LD', 'RD'], 'ShenNeumann': ['LN', 'RN'],
        'CombinedShenNeumann': ['LN', 'RN'], 'MikNeumann': ['LN', 'RN'], 'ShenBiharmonic': ['LD', 'LN', 'RD', 'RN'],
        'UpperDirichlet': ['RD'], 'LowerDirichlet': ['LD'], 'UpperDirichletNeumann': ['RD', 'RN'],
        'LowerDirichletNeumann': ['LD', 'LN'], 'ShenBiPolar': ['LD', 'LN', 'RD', 'RN'],
        'DirichletNeumann': ['LD', 'RN'], 'NeumannDirichlet': ['LN', 'RD'],
        'Compact3': ['LD', 'LN', 'LN2', 'RD', 'RN', 'RN2'],
        'Compact4': ['LD', 'LN', 'LN2', 'LN3', 'RD', 'RN', 'RN2', 'RN3'],
        'Phi1': ['LD', 'RD'], 'Phi2': ['LD', 'LN', 'RD', 'RN'], 'Phi3': ['LD', 'LN', 'LN2', 'RD', 'RN', 'RN2'],
        'Phi4': ['LD', 'LN', 'LN2', 'LN3', 'RD', 'RN', 'RN2', 'RN3'],
        'Phi6': ['LD', 'LN', 'LN2', 'LN3', 'LN4', 'LN5', 'RD', 'RN', 'RN2', 'RN3', 'RN4', 'RN5']},
    'chebyshevu': {
        'Orthogonal': [], 'CompactDirichlet': ['LD', 'RD'], 'CompactNeumann': ['LN', 'RN'],
        'UpperDirichlet': ['RD'], 'LowerDirichlet': ['LD'], 'CompactBiharmonic': ['LD', 'LN', 'RD', 'RN'],
        'Compact3': ['LD', 'LN', 'LN2', 'RD', 'RN', 'RN2'],
        'Phi1': ['LD', 'RD'], 'Phi2': ['LD', 'LN', 'RD', 'RN'], 'Phi3': ['LD', 'LN', 'LN2', 'RD', 'RN', 'RN2'],
        'Phi4': ['LD', 'LN', 'LN2', 'LN3', 'RD', 'RN', 'RN2', 'RN3'],
        'Phi6': ['LD', 'LN', 'LN2', 'LN3', 'LN4', 'LN5', 'RD', 'RN', 'RN2', 'RN3', 'RN4', 'RN5']},
    'legendre': {
        'Orthogonal': [], 'ShenDirichlet': ['LD', 'RD'], 'ShenNeumann': ['LN', 'RN'],
        'ShenBiharmonic': ['LD', 'LN', 'RD', 'RN'], 'BeamFixedFree': ['LD', 'LN', 'RN2', 'RN3'],
        'UpperDirichlet': ['RD'], 'LowerDirichlet': ['LD'], 'ShenBiPolar': ['LD', 'LN', 'RD', 'RN'],
        'DirichletNeumann': ['LD', 'RN'], 'NeumannDirichlet': ['LN', 'RD'], 'UpperDirichletNeumann': ['RD', 'RN'],
        'Phi1': ['LD', 'RD'], 'Phi2': ['LD', 'LN', 'RD', 'RN'], 'Phi3': ['LD', 'LN', 'LN2', 'RD', 'RN', 'RN2'],
        'Phi4': ['LD', 'LN', 'LN2', 'LN3', 'RD', 'RN', 'RN2', 'RN3'],
        'Phi6': ['LD', 'LN', 'LN2', 'LN3', 'LN4', 'LN5', 'RD', 'RN', 'RN2', 'RN3', 'RN4', 'RN5']},
    'jacobi': {
        'Orthogonal': [], 'CompactDirichlet': ['LD', 'RD'], 'CompactNeumann': ['LN', 'RN'],
        'UpperDirichlet': ['RD'], 'LowerDirichlet': ['LD'],
        'Phi1': ['LD', 'RD'], 'Phi2': ['LD', 'LN', 'RD', 'RN'], 'Phi3': ['LD', 'LN', 'LN2', 'RD', 'RN', 'RN2'],
        'Phi4': ['LD', 'LN', 'LN2', 'LN3', 'RD', 'RN', 'RN2', 'RN3']},
    'ultraspherical': {
        'Orthogonal': [], 'CompactDirichlet': ['LD', 'RD'], 'CompactNeumann': ['LN', 'RN'],
        'UpperDirichlet': ['RD'], 'LowerDirichlet': ['LD'], 'CompactBiharmonic': ['LD', 'LN', 'RD', 'RN'],
        'Phi1': ['LD', 'RD'], 'Phi2': ['LD', 'LN', 'RD', 'RN'], 'Phi3': ['LD', 'LN', 'LN2', 'RD', 'RN', 'RN2'],
        'Phi4': ['LD', 'LN', 'LN2', 'LN3', 'RD', 'RN', 'RN2', 'RN3'],
        'Phi6': ['LD', 'LN', 'LN2', 'LN3', 'LN4', 'LN5', 'RD', 'RN', 'RN2', 'RN3', 'RN4', 'RN5']},
    'laguerre': {'Orthogonal': [], 'CompactDirichlet': ['LD'], 'CompactNeumann': ['LN']},
    'hermite': {'Orthogonal': []},
    'fourier': {'R2C': [], 'C2C': []},
}
QUADS = {'chebyshev': ['GC', 'GL', 'GU'], 'chebyshevu': ['GU', 'GC'], 'legendre': ['LG', 'GL'], 'jacobi': ['JG'],
         'ultraspherical': ['QG'], 'laguerre': ['LG'], 'hermite': ['HG'], 'fourier': ['']}
KINDS = {'chebyshev': ['fast', 'recursive', 'vandermonde'], 'chebyshevu': ['fast', 'recursive', 'vandermonde'],
         'legendre': ['fast', 'recursive', 'vandermonde'], 'jacobi': ['recursive', 'vandermonde'],
         'ultraspherical': ['recursive', 'vandermonde'], 'laguerre': ['vandermonde'],
         'hermite': ['vandermonde'], 'fourier': ['fast', 'vandermonde']}
FAMKEY = {'chebyshev': 'C', 'chebyshevu': 'U', 'legendre': 'L', 'jacobi': 'J', 'ultraspherical': 'Q',
          'laguerre': 'La', 'hermite': 'H', 'fourier': 'F'}
POLY = ('chebyshev', 'chebyshevu', 'legendre', 'jacobi', 'ultraspherical')
# scaled by the map: which derivative a condition is
ORDER = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}


def bc_arg(names, vals):
    """dictionary form of conditions"""
    d = {'left': {}, 'right': {}}
    for n, v in zip(names, vals):
        d['left' if n[0] == 'L' else 'right'][n[1:]] = v
    return d


def build(desc):
    """instantiate the class named by desc"""
    import shenfun as sf
    mod = importlib.import_module('shenfun.%s.bases' % desc['fam'])
    cls = getattr(mod, desc['cls'])
    kw = {}
    if desc.get('quad'):
        kw['quad'] = desc['quad']
    if desc.get('domain'):
        a, b = desc['domain']
        kw['domain'] = mod.Domain(a, b) if hasattr(mod, 'Domain') else importlib.import_module('shenfun.spectralbase').Domain(a, b)
    names = BCS[desc['fam']].get(desc['cls'], [])
    if desc.get('bcv') is not None and names:
        if desc['fam'] == 'laguerre':
            kw['bc'] = bc_arg(names, desc['bcv'])
            kw.setdefault('domain', importlib.import_module('shenfun.spectralbase').Domain(0, np.inf))
        else:
            kw['bc'] = bc_arg(names, desc['bcv'])
    if desc.get('alpha') is not None:
        kw['alpha'] = desc['alpha']
    if desc.get('beta') is not None:
        kw['beta'] = desc['beta']
    if desc.get('dtype') and desc['fam'] != 'fourier':
        kw['dtype'] = desc['dtype']
    if desc.get('pf') and desc['pf'] != 1:
        kw['padding_factor'] = desc['pf']
    if desc.get('direct'):
        kw['dealias_direct'] = True
    if desc.get('scaled'):
        kw['scaled'] = True
    return cls(desc['N'], **kw)


def label(d):
    s = '%s.%s' % (d['fam'], d['cls'])
    if d.get('quad'):
        s += ':'+d['quad']
    return s


class Ref:
    """Reference view of a 1D space.  The only things taken from the package
    are the stencil coefficients (whose correctness P02 decides)."""

    def __init__(self, desc, space):
        self.desc = desc
        self.space = space
        self.fam = desc['fam']
        self.N = desc['N']
        if self.fam == 'ultraspherical':
            self.alpha = desc.get('alpha', 0) or 0
            self.beta = self.alpha
        elif self.fam == 'jacobi':
            self.alpha = desc.get('alpha', 0) or 0
            self.beta = desc.get('beta', 0) or 0
        else:
            self.alpha = self.beta = 0
        a, b = self.domain()
        if self.fam == 'fourier':
            self.df = 2*ref.PI/(LD(b)-LD(a))
        elif self.fam in ('laguerre', 'hermite'):
            self.df = LD(1)
        else:
            self.df = 2/(LD(b)-LD(a))
        self.nbc = 0
        self.S = None
        if hasattr(space, 'stencil_matrix') and desc['cls'] != 'Orthogonal':
            S = space.stencil_matrix(self.N).diags().toarray()
            self.nbc = self.N-space.dim()
            self.S = np.array(S[:space.dim(), :self.N], dtype=float)
            if self.nbc:
                B = space.get_bc_space().stencil_matrix()
                self.B = np.array(B.tolist(), dtype=float)

    def domain(self):
        if self.desc.get('domain'):
            return self.desc['domain']
        return {'fourier': (0, 2*ref.PI), 'laguerre': (0, np.inf), 'hermite': (-np.inf, np.inf)}.get(self.fam, (-1, 1))

    def X(self, x):
        """true domain -> reference"""
        a, b = self.domain()
        x = np.atleast_1d(np.asarray(x)).astype(LD)
        if self.fam == 'fourier':
            return (x-LD(a))*self.df
        if self.fam in ('laguerre', 'hermite'):
            return x
        return -1+(x-LD(a))*self.df

    def x(self, X):
        a, b = self.domain()
        X = np.asarray(X).astype(LD)
        if self.fam == 'fourier':
            return LD(a)+X/self.df
        if self.fam in ('laguerre', 'hermite'):
            return X
        return LD(a)+(X+1)/self.df

    def ks(self):
        return ref.fourier_wavenumbers(self.N, self.desc['cls'] == 'R2C')

    def ortho(self, x, k=0, N=None, scale=True):
        """orthogonal family at true points, k'th derivative w.r.t. true x"""
        N = N or self.N
        V = ref.basis(self.fam, self.X(x), N, k, self.alpha, self.beta,
                      wavenumbers=self.ks() if self.fam == 'fourier' else None)
        return V*self.df**k if scale else V

    def trial(self, x, k=0):
        """all N trial functions (boundary functions last)"""
        if self.S is None:
            return self.ortho(x, k)
        M = max(self.N, self.B.shape[1] if self.nbc else 0)
        V = self.ortho(x, k, N=M)
        P = V[:, :self.N].dot(self.S.T.astype(LD))
        if self.nbc:
            P = np.hstack([P, V[:, :self.B.shape[1]].dot(self.B.T.astype(LD))])
        return P

    def test(self, x, k=0):
        if self.S is None:
            return self.ortho(x, k)
        return self.ortho(x, k).dot(self.S.T.astype(LD))

    def weight(self, x):
        return ref.weight(self.fam, self.X(x), self.alpha, self.beta)

    def gauss(self, M):
        """points in the true domain and weights of the weighted integral over
        the true domain"""
        X, w = ref.gauss(self.fam, M, self.alpha, self.beta)
        return self.x(X), w/self.df

    def bcweights(self):
        return None


def nboundary(desc):
    return len(BCS[desc['fam']].get(desc['cls'], []))


def value(u, V):
    return V.dot(u)


def rdomain(rng, kind=None):
    k = kind or rng.choice(['ref', 'shift', 'small', 'big', 'rand'])
    if k == 'ref':
        return None
    if k == 'shift':
        return [0, 1]
    if k == 'small':
        return [0.5, 0.75]
    if k == 'big':
        return [-3, 5]
    a = round(rng.uniform(-2, 2), 3)
    return [a, round(a+rng.uniform(0.3, 3), 3)]
