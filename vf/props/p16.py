"""P16 - prior precisions are symmetric and their derivatives are true derivatives; combinations are block structured"""
import math, random
import numpy as np
import scipy.sparse
from scipy.special import gamma
from .. import sym, snp, smat, load
from ..contract import Contract, NS, Reject, oblige, oblige_forall
from ..load import Inv, SymSeq, SymList, SymRange
from ..smat import SMat, Dual, Blocks
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, elem, Only
from .p15 import dense, small, quiet

CONTRACTS, contract = contract_list()
ADV = 'eustace.analysis.advanced_standard.'
SPH, LAT, E = ADV + 'stats.spde.spherical', ADV + 'stats.spde.lattice', ADV + 'elements.'
KR, FA, LO, SE, CV, CB, LS, LH, BI, GM, SB, EL, ST, KA = [E + n for n in 'kronecker factor local seasonal covariate combination latitudespline latitudeharmonics bias grandmean spatial_bias element spacetimespde kronecker_annual'.split()]
VIE = ADV + 'stats.spde.spherical_view'
PRELOAD = (SPH, VIE, LAT, KR, FA, LO, SE, CV, CB, LS, LH, BI, GM, SB, KA)
F8 = np.float64
ASSUMPTIONS = ['floating-point sums and products are treated as exact real arithmetic in the proofs; the bounded search allows a relative difference of 1e-6 (1e-5 against numerical derivatives)',
               'scipy.sparse implements the matrix algebra (+, *, transpose, kron, block_diag, hstack, diags) it documents; matrix identities are proved in the free algebra with transposition over generator matrices of any size',
               'the derivative of exp is exp, and the chain and product rule']

def near(a, b, tol=1e-6):
    a, b = dense(a), dense(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol * (1e-6 + np.abs(b).max() if b.size else 1)))
def eqm(C, name, got, want, tol=1e-6):
    if C.symbolic:
        C.holds(name, got._vf_eq(want) if isinstance(got, SMat) else False)
    else: C.holds(name, near(got, want, tol))
def bare(cls, **k):
    s = cls.__new__(cls)
    for n, v in k.items(): setattr(s, n, v)
    return s
def central(f, x, p, h=1e-4):
    """fourth-order central difference of the matrix f(x) with respect to x[p]"""
    def at(d): y = list(x); y[p] += d; return dense(f(y))
    return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)

# ------------------------------------------------------------------ SPDE precision on the sphere

@contract
class SphereNative(Contract):
    """precision tau K (C^-1 K)^(alpha-1) tau with K = kappa C kappa + G, and its derivative by the product rule"""
    name = 'sphere.native'; functions = (SPH + ':SphereMeshSPDE.build_Q_native', SPH + ':SphereMeshSPDE.build_dQdp_native')
    timeout_ms = 20000
    assumptions = ('C is diagonal and G symmetric (decided by sphere.matrices, bounded)',)
    def setup(self, B):
        n = B.size('n', 1)
        a = NS(n=n, alpha=B.choice('alpha', [1, 2, 3, 4, 5, 6, 7]))
        if B.symbolic:
            g = lambda nm: SMat.gen(nm, (n, n), diag=True)
            a.C, a.G = SMat.gen('C', (n, n), diag=True, inv='invC'), SMat.gen('G', (n, n), symmetric=True)
            a.k, a.t, a.dk, a.dt = g('kappa'), g('tau'), g('dkappa'), g('dtau')
            a.iC = SMat.gen('invC', (n, n), diag=True, inv='C')
        else:
            d = lambda nm, f=small: scipy.sparse.diags(B.array(nm, (n,), F8, gen=f), format='csr')
            pos = lambda r: r.choice([1.0, .5, 2.0, 1.5])
            a.C, a.k, a.t, a.dk, a.dt = d('C', pos), d('kappa', pos), d('tau', pos), d('dkappa'), d('dtau')
            g = B.array('G', (n, n), F8, gen=small); a.G = scipy.sparse.csr_matrix(g + g.T)
            a.iC = scipy.sparse.diags(1.0 / a.C.diagonal())
        return a
    def run(self, M, a):
        s = bare(M(SPH).SphereMeshSPDE, sparse_format='csr', build_Q_C_tilde=lambda: a.C, build_Q_G=lambda: a.G)
        sy = a.k.__class__ is SMat
        k, t = (a.k.scale(Dual(1, 0)) + a.dk.scale(Dual(0, 1)), a.t.scale(Dual(1, 0)) + a.dt.scale(Dual(0, 1))) if sy else (a.k, a.t)
        return s.build_Q_native(kappa=k, tau=t, alpha=a.alpha), s.build_dQdp_native(kappa=a.k, tau=a.t, alpha=a.alpha, dkappa=a.dk, dtau=a.dt)
    def post(self, C, a, out):
        Q, dQ = out.value
        K, dK = a.k.dot(a.C).dot(a.k) + a.G, a.dk.dot(a.C).dot(a.k) + a.k.dot(a.C).dot(a.dk)
        X, dX = K, dK
        for _ in range(a.alpha - 1): X, dX = X.dot(a.iC).dot(K), dX.dot(a.iC).dot(K) + X.dot(a.iC).dot(dK)
        ref, dref = a.t.dot(X).dot(a.t), a.dt.dot(X).dot(a.t) + a.t.dot(dX).dot(a.t) + a.t.dot(X).dot(a.dt)
        if C.symbolic:
            if not isinstance(Q, SMat) or not isinstance(dQ, SMat): C.holds('matrix', False); return
            C.holds('precision', wrapz(Q.value() == ref.value())); C.holds('symmetric', wrapz(Q.value() == Q.T.value()))
            C.holds('derivative_of_precision', wrapz(Q.value('d') == dQ.value()))
        else: C.holds('precision', near(Q, ref)); C.holds('symmetric', near(Q, Q.T)); C.holds('derivative_of_precision', near(dQ, dref))
        if C.symbolic: C.holds('derivative', wrapz(dQ.value() == dref.value()))

def sphere_params(alpha, d, p, th, sig, rho, exp):
    """the documented map from (log sigma, log rho) to (kappa, tau)"""
    nu = alpha - d / 2.0
    b0k = float(np.log(8.0 * nu) / 2.0)
    b0t = float(0.5 * np.log(gamma(nu) / (gamma(alpha) * (4 * np.pi) ** (0.5 * d))) - nu * b0k)
    ls, lr = sum(sig(j) * th[j] for j in range(p)), sum(rho(j) * th[j] for j in range(p))
    return exp(b0k - lr), exp(b0t - ls + nu * lr), (lambda q: -rho(q)), (lambda q: -sig(q) + nu * rho(q))

class Params(Contract):
    weight = .7
    def designs(self, B):
        n, p = B.size('n', 1), B.choice('p', [2, 3])
        a = NS(n=n, p=p, q=B.choice('q', list(range(p))), th=[B.real('th%d' % k, gen=lambda r: r.choice([0.0, 1.0, -.5, .25, math.log(2), r.uniform(-1, 1)])) for k in range(p)])
        a.sig, a.rho = B.array('sig', (n, p), F8, gen=small), B.array('rho', (n, p), F8, gen=small)
        a.B = B
        return a
    def native(self, a, rec):
        def q(kappa, tau, alpha, *r, **k): rec['Q'] = (kappa, tau, alpha, r, k); return 'Q'
        def d(kappa, tau, alpha, dkappa, dtau, *r, **k): rec['dQ'] = (kappa, tau, alpha, dkappa, dtau, r, k); return 'dQ'
        return q, d
    def check(self, C, a, rec, d):
        def ref(i):
            s, r = (lambda j: elem(a.sig, i, j)), (lambda j: elem(a.rho, i, j))
            e = (lambda x: wrapz(sym.ufun1('exp')(sym.toreal(lift(x))))) if C.symbolic else (lambda x: math.exp(x))
            k, t, fk, ft = sphere_params(a.alpha, d, a.p, a.th, s, r, e)
            return [k, t, fk(a.q) * k, ft(a.q) * t]
        for nm, vecs in (('Q', rec['Q'][:2]), ('dQ', rec['dQ'][:2] + rec['dQ'][3:5])):
            for j, v in enumerate(vecs):
                v = v.diagonal()
                lab = '%s.%s' % (nm, ('kappa', 'tau', 'dkappa', 'dtau')[j])
                C.holds(lab + '.shape', Eq(v.shape[0], a.n))
                if C.symbolic: C.forall(lab, (a.n,), lambda i, v=v, j=j: Eq(elem(v, i), ref(i)[j]))
                else: C.holds(lab, all(abs(v[i] - ref(i)[j]) <= 1e-9 * (1 + abs(ref(i)[j])) for i in range(a.n)))
        C.holds('alpha', And(rec['Q'][2] == a.alpha, rec['dQ'][2] == a.alpha))

@contract
class SphereParams(Params):
    """kappa and tau follow the log-linear model of sigma and rho; their derivatives are those of that model"""
    name = 'sphere.parameters'; functions = (SPH + ':SphereMeshSPDE.build_Q', SPH + ':SphereMeshSPDE.build_dQdp')
    def setup(self, B):
        a = self.designs(B); a.alpha = B.choice('alpha', [1, 2, 3, 4])
        return a
    def run(self, M, a):
        rec = {}
        q, d = self.native(a, rec)
        s = bare(M(SPH).SphereMeshSPDE, sparse_format='csr', build_Q_native=q, build_dQdp_native=d, n_latent_variables=lambda: a.n)
        mk = (lambda x: x) if a.B.symbolic else scipy.sparse.csr_matrix
        th = M(SPH).np.array(a.th)
        return s.build_Q(th, a.alpha, mk(a.sig), mk(a.rho)), s.build_dQdp(th, a.alpha, mk(a.sig), mk(a.rho), a.q), rec
    def post(self, C, a, out):
        if a.alpha == 1: C.holds('rejected', out.raises(ValueError)); return
        Q, dQ, rec = out.value
        C.holds('returned', Q == 'Q' and dQ == 'dQ')
        self.check(C, a, rec, 2)

@contract
class LatticeParams(Params):
    name = 'lattice.parameters'; functions = (LAT + ':LatticeSPDE.build_Q', LAT + ':LatticeSPDE.build_dQdp')
    def setup(self, B):
        a = self.designs(B); a.d = B.choice('d', [1, 2, 3]); a.alpha = B.choice('alpha', [1, 2]); a.H = B.choice('H', [None, 1.0, 2.5] if not B.symbolic else [None, 2.5])
        if 2 * a.alpha <= a.d: raise Reject()
        return a
    def run(self, M, a):
        rec = {}
        q, d = self.native(a, rec)
        s = bare(M(LAT).LatticeSPDE, lattice=NS(n_dims=a.d, n_nodes=a.n), build_Q_native=q, build_dQdp_native=d)
        th = M(LAT).np.array([[t] for t in a.th])
        return s.build_Q(th, a.sig, a.rho, a.alpha, a.H, 'csc'), s.build_dQdp(th, a.sig, a.rho, a.alpha, a.H, a.q, 'csc'), rec
    def post(self, C, a, out):
        Q, dQ, rec = out.value
        C.holds('returned', Q == 'Q' and dQ == 'dQ')
        self.check(C, a, rec, a.d)
        for n in ('Q', 'dQ'): C.holds('range_scale', rec[n][-1].get('H', 0) == a.H)

def triangles(B):
    n = B.int('points', 3, 6)
    pts = B.array('xyz', (n, 3), F8, gen=lambda r: r.uniform(-1, 1))
    m = B.int('triangles', 1, 6)
    t = [[k] + B.r.sample(range(n), 3) for k in range(m)]
    t[0][1:] = [n - 1, 0, 1] if n > 2 else t[0][1:]
    B.log['t'] = t
    return pts, np.array(t)
def fem(pts, tri):
    """lumped mass and stiffness matrix, element by element"""
    n = int(tri[:, 1:].max()) + 1
    C, G = np.zeros((n, n)), np.zeros((n, n))
    for t in tri[:, 1:]:
        v = [pts[int(x)] for x in t]
        area = .5 * np.linalg.norm(np.cross(v[1] - v[0], v[2] - v[0]))
        e = [v[(k + 2) % 3] - v[(k + 1) % 3] for k in range(3)]
        for i in range(3):
            C[int(t[i]), int(t[i])] += area / 3
            for j in range(3): G[int(t[i]), int(t[j])] += e[i].dot(e[j]) / (4 * area)
    return C, G

@contract
class SphereMatrices(Contract):
    """mass and stiffness matrices equal the finite-element sums over the triangles"""
    name = 'sphere.matrices'; functions = (SPH + ':SphereMeshSPDE.build_Q_C_tilde', SPH + ':SphereMeshSPDE.build_Q_G', SPH + ':SphereMeshSPDE.triangle_area', SPH + ':SphereMeshSPDE.triangle_edges')
    prove = False
    assumptions = ('meshes of up to 6 random triangles, and the icosahedron meshes of level 0 to 2 (bounded)',)
    def setup(self, B):
        lv = B.choice('level', [None, None, None, 0, 1, 2])
        if lv is not None: return NS(level=lv)
        p, t = triangles(B)
        return NS(level=None, p=p, t=t)
    def run(self, M, a):
        S = M(SPH).SphereMeshSPDE
        s = S(a.level) if a.level is not None else bare(S, sparse_format='csr', triangulation=NS(points=a.p, triangles=a.t))
        return s.build_Q_C_tilde(), s.build_Q_G(), s.triangulation.points, s.triangulation.triangles
    def post(self, C, a, out):
        c, g, p, t = out.value
        if any(np.linalg.norm(np.cross(p[int(x[2])] - p[int(x[1])], p[int(x[3])] - p[int(x[1])])) < 1e-3 for x in t): return
        rc, rg = fem(p, t)
        C.holds('mass', near(c, rc)); C.holds('stiffness', near(g, rg)); C.holds('symmetric', near(g, g.T))
        C.holds('diagonal', np.count_nonzero(dense(c) - np.diag(np.diag(dense(c)))) == 0)

@contract
class ViewMatrices(Contract):
    """mass, stiffness and precision of a view are those of the mesh made of its own triangles"""
    name = 'view.matrices'; functions = (VIE + ':SphereMeshView.build_Q_C_tilde', VIE + ':SphereMeshView.build_Q_G', SPH + ':SphereMeshSPDE.build_Q_stationary', SPH + ':SphereMeshSPDE.build_dQdp_stationary')
    prove = False; weight = .4
    assumptions = ('views of the icosahedron meshes of level 0 to 2: random sets of triangles, super triangles and neighbourhoods (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), level=B.choice('level', [0, 1, 2]), kind=B.choice('kind', ['any', 'any', 'local', 'super', 'global']), fmt=B.choice('fmt', ['csr', 'csc']))
    def run(self, M, a):
        r = random.Random(a.seed); V = M(VIE); l = r.randint(0, a.level); k = r.randrange(20 * 4**l)
        if a.kind == 'any':
            n = 20 * 4**a.level; t = r.sample(range(n), r.randint(1, min(n, 12)))
            if r.random() < .5: t = sorted(t)
            v = V.SphereMeshView(a.level, np.array(t), sparse_format=a.fmt)
        else: v = {'local': lambda: V.SphereMeshViewLocal(a.level, l, k, sparse_format=a.fmt), 'super': lambda: V.SphereMeshViewSuperTriangle(a.level, l, k, sparse_format=a.fmt), 'global': lambda: V.SphereMeshViewGlobal(a.level, sparse_format=a.fmt)}[a.kind]()
        a.h = (r.uniform(-1, 1), r.uniform(-1, 1)); a.p = r.choice([0, 1])
        f = lambda h: v.build_Q_stationary(h[0], h[1], 2)
        g = v.build_dQdp_stationary(a.h[0], a.h[1], 2, a.p)
        return v.build_Q_C_tilde(), v.build_Q_G(), f(a.h), g, central(f, a.h, a.p), v.triangulation.points, v.triangulation.triangles[np.ravel(v.active_triangle_indices)], v.n_latent_variables()
    def post(self, C, a, out):
        c, g, q, dq, num, p, t, n = out.value
        used = sorted(set(int(x) for x in t[:, 1:].ravel())); at = {x: k for k, x in enumerate(used)}
        rc, rg = fem(p[used], np.array([[0] + [at[int(x)] for x in row[1:]] for row in t]))
        C.holds('size', n == len(used) and dense(q).shape == (n, n))
        C.holds('mass', near(c, rc)); C.holds('stiffness', near(g, rg))
        s, rho = math.exp(a.h[0]), math.exp(a.h[1]); kap = math.sqrt(8.0) / rho; tau = 1 / math.sqrt(4 * math.pi) / (kap * s)
        K = kap ** 2 * rc + rg
        C.holds('precision', near(q, tau ** 2 * K.dot(np.linalg.inv(rc)).dot(K), 1e-6)); C.holds('symmetric', near(q, q.T)); C.holds('derivative', near(dq, num, 1e-5))

SPHERES = {}
def sphere(M, level, fmt='csr'):
    k = (id(M(SPH).SphereMeshSPDE), level, fmt)
    if k not in SPHERES: SPHERES[k] = (M(SPH).SphereMeshSPDE(level, fmt), M(SPH))
    return SPHERES[k][0]

@contract
class SphereEndToEnd(Contract):
    """stationary and node-by-node precision on the icosahedron mesh against a dense reference, derivatives against central differences"""
    name = 'sphere.end_to_end'; functions = (SPH + ':SphereMeshSPDE.build_Q_stationary', SPH + ':SphereMeshSPDE.build_dQdp_stationary', SPH + ':SphereMeshSPDE.build_Q_expanded', SPH + ':SphereMeshSPDE.build_dQdp_expanded', SPH + ':SphereMeshSPDE.sigma_design_matrix_stationary', SPH + ':SphereMeshSPDE.rho_design_matrix_stationary', SPH + ':SphereMeshSPDE.sigma_design_matrix_expanded', SPH + ':SphereMeshSPDE.rho_design_matrix_expanded')
    prove = False; weight = .6
    assumptions = ('icosahedron meshes of level 0 and 1, alpha 2 to 5 (bounded)',)
    def setup(self, B):
        a = NS(level=B.choice('level', [0, 0, 1]), alpha=B.choice('alpha', [2, 2, 3, 4, 5]), kind=B.choice('kind', ['stationary', 'expanded']), p=B.int('p', 0, 10 ** 6))
        n = 12 if a.level == 0 else 42
        g = lambda r: r.uniform(-1, .6)
        a.n = n
        a.s, a.r = (B.real('s', gen=g), B.real('r', gen=g)) if a.kind == 'stationary' else (B.array('s', (n,), F8, gen=g), B.array('r', (n,), F8, gen=g))
        return a
    def run(self, M, a):
        s = sphere(M, a.level)
        f, d = getattr(s, 'build_Q_' + a.kind), getattr(s, 'build_dQdp_' + a.kind)
        np_ = 2 if a.kind == 'stationary' else 2 * a.n
        p = a.p % np_
        split = (lambda x: (x[0], x[1])) if a.kind == 'stationary' else (lambda x: (np.array(x[:a.n]), np.array(x[a.n:])))
        x = [a.s, a.r] if a.kind == 'stationary' else list(a.s) + list(a.r)
        return f(a.s, a.r, a.alpha), d(a.s, a.r, a.alpha, p), central(lambda y: f(*(split(y) + (a.alpha,))), x, p), s.triangulation
    def post(self, C, a, out):
        Q, dQ, num, m = out.value
        c, g = fem(m.points, m.triangles)
        one = np.ones(a.n)
        ls, lr = a.s * one, a.r * one
        nu = a.alpha - 1.0
        k = np.exp(math.log(8 * nu) / 2 - lr)
        t = np.sqrt(math.gamma(nu) / (math.gamma(a.alpha) * 4 * math.pi)) / (np.exp(ls) * k ** nu)
        # tau with the node's own range: sigma^2 = gamma(nu) / (gamma(alpha) 4 pi kappa^2nu tau^2)
        K = k[:, None] * c * k + g
        X = K
        for _ in range(a.alpha - 1): X = X.dot(np.linalg.inv(c)).dot(K)
        C.holds('precision', near(Q, t[:, None] * X * t, 1e-7))
        C.holds('symmetric', near(Q, Q.T, 1e-9))
        C.holds('derivative', near(dQ, num, 1e-5))

# ------------------------------------------------------------------ SPDE precision on a lattice

def lattice_shapes(B):
    nd = B.choice('nd', [1, 1, 2, 2, 3] if not B.symbolic else [1, 2])
    spec = []
    n = B.choice('n', ([2, 3, 4, 5] if nd < 3 else [2, 3]) if not B.symbolic else [2, 3, 4] if nd == 1 else [3])           # LatticeMesh cannot be built with unequal counts under this numpy
    for k in range(nd):
        lo, sp = B.choice('lo%d' % k, [0.0, -90.0] if not B.symbolic or nd == 1 else [0.0]), B.choice('sp%d' % k, [1.0, .5, 2.0] if not B.symbolic else [1.0, .5])
        spec.append((lo, sp, n))
    w = B.choice('wrap', [False, True])
    wrap = [B.choice('w%d' % k, [False, True]) for k in range(nd)] if w else None
    out = []
    for k, (lo, sp, n) in enumerate(spec): out.append((lo, lo + sp * (n if wrap and wrap[k] else n - 1), n))
    return out, wrap, [s[1] for s in spec]
def lattice_laplacian(shape, scales, wrap):
    """neighbour couplings of the nodes in the order of LatticeMesh.nodes (first dimension varies fastest)"""
    N = int(np.prod(shape)); A = np.zeros((N, N))
    pos = lambda ix: int(sum(i * int(np.prod(shape[:k])) for k, i in enumerate(ix)))
    for ix in np.ndindex(*shape):
        for d in range(len(shape)):
            j = list(ix); j[d] += 1
            if j[d] == shape[d]:
                if not (wrap and wrap[d]): continue
                j[d] = 0
            a, b = pos(ix), pos(j)
            if a != b: A[a, b] = A[b, a] = -scales[d]
    return A

class LatticeBase(Contract):
    def lattice(self, M, a): return M(LAT).LatticeMesh(dimension_specification=a.spec, basis_function=M(LAT).WendlandC4Basis(), overlap_factor=2.5, wrap_dimensions=a.wrap)
    def geometry(self, B):
        a = NS()
        a.spec, a.wrap, a.sp = lattice_shapes(B)
        a.shape = [s[2] for s in a.spec]; a.N = int(np.prod(a.shape))
        if any(w and n < 3 for w, n in zip(a.wrap or [], a.shape)): raise Reject()
        a.H = B.choice('H', [None, 1.0, 2.5] if not B.symbolic else [None, 2.5]); a.h = 1.0 if a.H is None else a.H
        a.scales = [a.h / s ** 2 for s in a.sp]
        return a

@contract
class LatticeNative(LatticeBase):
    """spacing * tau K^alpha tau with K = kappa^2 + the lattice Laplacian (wrapped where declared), and its derivative"""
    name = 'lattice.native'; functions = (LAT + ':LatticeSPDE.build_Q_native', LAT + ':LatticeSPDE.build_dQdp_native', LAT + ':LatticeMesh.__init__')
    assumptions = ('proved for lattices of one or two dimensions with 2 to 4 nodes each (any kappa and tau), searched up to three dimensions', 'a wrapped dimension has at least three nodes')
    max_paths = 400
    def setup(self, B):
        a = self.geometry(B)
        a.alpha = B.choice('alpha', [1, 2])
        n = a.N
        if B.symbolic:
            g = lambda nm: SMat.gen(nm, (n, n), diag=True)
            a.k, a.t, a.dk, a.dt = g('kappa'), g('tau'), g('dkappa'), g('dtau')
        else:
            d = lambda nm, f=small: scipy.sparse.diags(B.array(nm, (n,), F8, gen=f), format='csc')
            pos = lambda r: r.choice([1.0, .5, 2.0, 1.5])
            a.k, a.t, a.dk, a.dt = d('kappa', pos), d('tau', pos), d('dkappa'), d('dtau')
        return a
    def run(self, M, a):
        s = M(LAT).LatticeSPDE(self.lattice(M, a))
        sy = a.k.__class__ is SMat
        k, t = (a.k.scale(Dual(1, 0)) + a.dk.scale(Dual(0, 1)), a.t.scale(Dual(1, 0)) + a.dt.scale(Dual(0, 1))) if sy else (a.k, a.t)
        return s.build_Q_native(kappa=k, tau=t, alpha=a.alpha, H=a.H), s.build_dQdp_native(kappa=a.k, tau=a.t, alpha=a.alpha, dkappa=a.dk, dtau=a.dt, H=a.H), s.lattice.nodes, s.lattice.node_spacing
    def post(self, C, a, out):
        Q, dQ, nodes, sp = out.value
        L = lattice_laplacian(a.shape, a.scales, a.wrap)
        diag = 2.0 * sum(a.scales)
        if C.symbolic: K, dK = a.k.dot(a.k) + SMat.eye(a.N).scale(diag) + SMat.const(L), a.dk.dot(a.k) + a.k.dot(a.dk)
        else: k, dk = dense(a.k), dense(a.dk); K, dK = k.dot(k) + diag * np.eye(a.N) + L, dk.dot(k) + k.dot(dk)
        s = float(np.prod(a.sp))
        X, dX = K, dK
        for _ in range(a.alpha - 1): X, dX = X.dot(K), dX.dot(K) + X.dot(dK)
        t, dt = (a.t, a.dt) if C.symbolic else (dense(a.t), dense(a.dt))
        ref, dref = t.dot(X).dot(t), dt.dot(X).dot(t) + t.dot(dX).dot(t) + t.dot(X).dot(dt)
        if C.symbolic:
            if not isinstance(Q, SMat) or not isinstance(dQ, SMat): C.holds('matrix', False); return
            C.holds('precision', wrapz(Q.value() == ref.scale(s).value())); C.holds('symmetric', wrapz(Q.value() == Q.T.value()))
            C.holds('derivative', wrapz(Q.value('d') == dQ.value()))
        else: C.holds('precision', near(Q, s * ref)); C.holds('symmetric', near(Q, Q.T)); C.holds('derivative', near(dQ, s * dref))
        want = np.array([[lo + a.sp[d] * ((i // int(np.prod(a.shape[:d]))) % a.shape[d]) for d, (lo, hi, n) in enumerate(a.spec)] for i in range(a.N)])
        C.holds('nodes', near(nodes, want)); C.holds('spacing', near(sp, np.array(a.sp)))

@contract
class LatticeEndToEnd(LatticeBase):
    name = 'lattice.end_to_end'; functions = (LAT + ':LatticeSPDE.build_Q_stationary', LAT + ':LatticeSPDE.build_dQdp_stationary', LAT + ':LatticeSPDE.sigma_design_matrix_stationary', LAT + ':LatticeSPDE.rho_design_matrix_stationary', LAT + ':LatticeSPDE.construct')
    prove = False; weight = .5
    assumptions = ('lattices of up to three dimensions and 5 nodes per dimension (bounded)',)
    def setup(self, B):
        a = self.geometry(B); a.alpha = B.choice('alpha', [1, 2])
        if 2 * a.alpha <= len(a.shape): raise Reject()
        g = lambda r: r.uniform(-1, 1)
        a.s, a.r, a.p = B.real('s', gen=g), B.real('r', gen=g), B.choice('p', [0, 1])
        return a
    def run(self, M, a):
        s = M(LAT).LatticeSPDE.construct(dimension_specification=a.spec, basis_function=M(LAT).WendlandC4Basis(), overlap_factor=2.5, wrap_dimensions=a.wrap)
        f = lambda x: s.build_Q_stationary(x[0], x[1], a.alpha, a.H, 'csr')
        return f([a.s, a.r]), s.build_dQdp_stationary(a.s, a.r, a.alpha, a.H, a.p, 'csr'), central(f, [a.s, a.r], a.p)
    def post(self, C, a, out):
        Q, dQ, num = out.value
        d = len(a.shape); nu = a.alpha - d / 2.0
        k = math.exp(math.log(8 * nu) / 2 - a.r)
        t = math.sqrt(math.gamma(nu) / (math.gamma(a.alpha) * (4 * math.pi) ** (d / 2.0))) / (math.exp(a.s) * k ** nu)
        K = (k * k + 2 * sum(a.scales)) * np.eye(a.N) + lattice_laplacian(a.shape, a.scales, a.wrap)
        C.holds('precision', near(Q, np.prod(a.sp) * t * t * np.linalg.matrix_power(K, a.alpha), 1e-7))
        C.holds('symmetric', near(Q, Q.T, 1e-9)); C.holds('derivative', near(dQ, num, 1e-5))

# ------------------------------------------------------------------ elements built on SPDE models

class FakeModel:
    """a spatial or temporal model known only by its precision as a function of (log_sigma, log_rho, alpha) and its derivatives"""
    def __init__(self, B, name, n, temporal):
        self.B, self.name, self.n, self.temporal = B, name, n, temporal
        if not B.symbolic:
            m = [B.array('%s%d' % (name, k), (n, n), F8, gen=small) for k in range(3)]
            self.m = [x + x.T for x in m]
    def n_latent_variables(self): return self.n
    n_bases = n_latent_variables
    def Q(self, s, r, alpha):
        if self.B.symbolic: return SMat.gen('Q_%s_%s' % (self.name, alpha), (self.n, self.n), (s, r), symmetric=True)
        return scipy.sparse.csr_matrix(math.exp(s) * self.m[0] + math.exp(-2 * r) * alpha * self.m[1] + math.exp(s + r) * self.m[2])
    def dQ(self, s, r, alpha, p):
        if self.B.symbolic:
            if isinstance(p, sym.Sym): return SMat.gen('dQ_%s_%s_p' % (self.name, alpha), (self.n, self.n), (s, r, p), symmetric=True)
            return SMat.gen('dQ_%s_%s_%d' % (self.name, alpha, p), (self.n, self.n), (s, r), symmetric=True)
        if p == 0: x = math.exp(s) * self.m[0] + math.exp(s + r) * self.m[2]
        elif p == 1: x = -2 * math.exp(-2 * r) * alpha * self.m[1] + math.exp(s + r) * self.m[2]
        else: raise ValueError('parameter')
        return scipy.sparse.csr_matrix(x)
    def build_Q_stationary(self, log_sigma, log_rho, alpha, H=None, sparse_format=None):
        self.checkH(H); return self.Q(log_sigma, log_rho, alpha)
    def checkH(self, H):
        if self.temporal: oblige_h(H, self.H)
        elif H is not None: raise TypeError('a spatial model has no H')
    def __getattr__(self, n):
        if n == 'build_dQdp_stationary':
            if self.temporal:
                def f(log_sigma, log_rho, alpha, H, parameter_index, sparse_format): self.checkH(H); return self.dQ(log_sigma, log_rho, alpha, parameter_index)
            else:
                def f(log_sigma, log_rho, alpha, parameter_index): return self.dQ(log_sigma, log_rho, alpha, parameter_index)
            return f
        raise AttributeError(n)
class WrongH(Exception): pass
def oblige_h(have, want):
    if have is not want: raise WrongH()

def hyper(B, n): return [B.real('h%d' % k, gen=lambda r: r.choice([0.0, .5, -.5, 1.0, r.uniform(-1, 1)])) for k in range(n)]

class ElementPriorContract(Contract):
    """precision and derivative for each hyperparameter; concretely also against a numerical derivative"""
    weight = .6
    def post(self, C, a, out):
        Q, dQs, nums, n = out.value
        self.compare(C, 'precision', Q, self.want(a))
        for p, dQ in enumerate(dQs): self.compare(C, 'derivative%d' % p, dQ, self.dwant(a, p))
        if not C.symbolic:
            C.holds('symmetric', near(Q, Q.T, 1e-12))
            for p, dQ in enumerate(dQs): C.holds('numerical_derivative%d' % p, near(dQ, nums[p], 1e-5))
        C.holds('size', Eq(n, self.dim(a)))
    def compare(self, C, name, got, want):
        if C.symbolic and isinstance(want, list):
            if not isinstance(got, Blocks) or got.kind != 'd' or len(got.seq) != len(want): C.holds(name, False); return
            for k, (g, w) in enumerate(zip(got.seq, want)): C.holds('%s.%d' % (name, k), g._vf_eq(w) if isinstance(g, SMat) else False)
            return
        if isinstance(want, list): want = scipy.sparse.block_diag(want)
        eqm(C, name, got, want)
    def evaluate(self, a, make, h, np_):
        p = make(h)
        Q, dQ = p.prior_precision(), [p.prior_precision_derivative(k) for k in range(np_)]
        nums = None if a.B.symbolic else [central(lambda x: make(x).prior_precision(), h, k) for k in range(np_)]
        return Q, dQ, nums, p.prior_number_of_state_parameters()
def zero(a, n): return SMat.zero((n, n)) if a.B.symbolic else np.zeros((n, n))
def kron(a, x, y): return smat.kron(x, y) if a.B.symbolic else scipy.sparse.kron(x, y)

class SpaceTime(ElementPriorContract):
    def setup(self, B):
        n, m = B.size('n', 1), B.size('m', 1)
        a = NS(B=B, n=n, m=m, S=FakeModel(B, 'S', n, False), T=FakeModel(B, 'T', m, True), h=hyper(B, 3), alpha=B.choice('alpha', [2, 3]))
        a.H = object(); a.T.H = a.H
        return a
    def run(self, M, a):
        P, HP = getattr(M(self.mod), self.cls), M(ST).SpaceTimeSPDEHyperparameters
        el = bare(getattr(M(self.mod), self.cls.replace('Prior', 'Element')), spatial_model=a.S, temporal_model=a.T, alpha=a.alpha, H=a.H)
        return self.evaluate(a, lambda h: el.element_prior(HP(*h)), a.h, 3)

@contract
class Kronecker(SpaceTime):
    """the product of the temporal precision (unit scale) and the spatial precision; one factor is differentiated"""
    name = 'prior.kronecker'; mod, cls = KR, 'SpaceTimeKroneckerPrior'
    functions = (KR + ':SpaceTimeKroneckerPrior.prior_precision', KR + ':SpaceTimeKroneckerPrior.prior_precision_derivative', KR + ':SpaceTimeKroneckerPrior.prior_number_of_state_parameters', KR + ':SpaceTimeKroneckerElement.element_prior', ST + ':SpaceTimeSPDEPrior.__init__', ST + ':SpaceTimeSPDEHyperparameters.__init__')
    def want(self, a): return kron(a, a.T.Q(0.0, a.h[2], 1), a.S.Q(a.h[0], a.h[1], a.alpha))
    def dwant(self, a, p):
        if p < 2: return kron(a, a.T.Q(0.0, a.h[2], 1), a.S.dQ(a.h[0], a.h[1], a.alpha, p))
        return kron(a, a.T.dQ(0.0, a.h[2], 1, 1), a.S.Q(a.h[0], a.h[1], a.alpha))
    def dim(self, a): return a.n * a.m

@contract
class Factor(SpaceTime):
    """independent spatial and temporal factors"""
    name = 'prior.factor'; mod, cls = FA, 'SpaceTimeFactorPrior'
    functions = (FA + ':SpaceTimeFactorPrior.prior_precision', FA + ':SpaceTimeFactorPrior.prior_precision_derivative', FA + ':SpaceTimeFactorPrior.prior_number_of_state_parameters', FA + ':SpaceTimeFactorElement.element_prior')
    def want(self, a): return [a.S.Q(a.h[0], a.h[1], a.alpha), a.T.Q(0.0, a.h[2], a.alpha)]
    def dwant(self, a, p):
        if p < 2: return [a.S.dQ(a.h[0], a.h[1], a.alpha, p), zero(a, a.m)]
        return [zero(a, a.n), a.T.dQ(0.0, a.h[2], a.alpha, 1)]
    def dim(self, a): return a.n + a.m

@contract
class Local(ElementPriorContract):
    name = 'prior.local'; functions = (LO + ':LocalPrior.prior_precision', LO + ':LocalPrior.prior_precision_derivative', LO + ':LocalElement.element_prior', SB + ':SpatialBiasElement.element_prior', LO + ':LocalHyperparameters.get_dictionary', LO + ':LocalPrior.prior_number_of_state_parameters')
    def setup(self, B):
        n = B.size('n', 1)
        return NS(B=B, n=n, S=FakeModel(B, 'S', n, False), h=hyper(B, 2), bias=B.choice('bias', [False, True]))
    def run(self, M, a):
        el = bare(M(SB).SpatialBiasElement if a.bias else M(LO).LocalElement, spde=a.S)
        return self.evaluate(a, lambda h: el.element_prior(M(LO).LocalHyperparameters(*h)), a.h, 2)
    def want(self, a): return a.S.Q(a.h[0], a.h[1], 2)
    def dwant(self, a, p): return a.S.dQ(a.h[0], a.h[1], 2, p)
    def dim(self, a): return a.n

@contract
class Spline(Local):
    name = 'prior.latitude_spline'; functions = (LS + ':LatitudeSplineElementPrior.prior_precision', LS + ':LatitudeSplineElementPrior.prior_precision_derivative', LS + ':LatitudeSplineElement.element_prior', LS + ':LatitudeSplineElementPrior.prior_number_of_state_parameters')
    def setup(self, B):
        n = B.size('n', 1)
        a = NS(B=B, n=n, S=FakeModel(B, 'S', n, True), h=hyper(B, 2), alpha=B.choice('alpha', [1, 2]), H=object())
        a.S.H = a.H
        return a
    def run(self, M, a):
        el = bare(M(LS).LatitudeSplineElement, spde=a.S, alpha=a.alpha, H=a.H)
        return self.evaluate(a, lambda h: el.element_prior(M(LO).LocalHyperparameters(*h)), a.h, 2)
    def want(self, a): return a.S.Q(a.h[0], a.h[1], a.alpha)
    def dwant(self, a, p): return a.S.dQ(a.h[0], a.h[1], a.alpha, p)

# ------------------------------------------------------------------ seasonal, covariate

def only_list(view):
    """name of the local list that the loop fills"""
    n = [k for k, v in view.entry.items() if isinstance(v, list) and not v]
    return n[0] if len(n) == 1 else None

@contract
class Seasonal(Contract):
    """one block per spatial component with the parameters of its harmonic; the derivative is that of the blocks which share the parameter"""
    name = 'prior.seasonal'; functions = (SE + ':SeasonalElementPrior.prior_precision', SE + ':SeasonalElementPrior.prior_precision_derivative', SE + ':SeasonalElementPrior.n_spatial_components', SE + ':SeasonalElementPrior.harmonic_index_for_spatial_component', SE + ':SeasonalElementPrior.prior_number_of_state_parameters', SE + ':SeasonalHyperparameters.harmonic_parameters', SE + ':SeasonalHyperparameters.set_array', SE + ':SeasonalElement.element_prior', SE + ':SPDEScalarParameters.get_dictionary')
    def setup(self, B):
        n = B.size('n', 1)
        a = NS(B=B, n=n, mean=B.choice('mean', [False, True]), alpha=B.choice('alpha', [2, 3]), S=FakeModel(B, 'S', n, False))
        a.nh = B.size('harmonics', 1)
        a.groups = a.nh + int(a.mean)
        a.h = B.array('h', (2 * a.groups,), F8, gen=lambda r: r.uniform(-1, 1))
        a.p = B.int('p', 0)
        B.assume(a.p < 2 * a.groups)
        return a
    def hp(self, a, q): return elem(a.h, 2 * q), elem(a.h, 2 * q + 1)
    def block(self, a, k): return a.S.Q(*(self.hp(a, (k + int(a.mean)) // 2) + (a.alpha,)))
    def dblock(self, a, k):
        """zero unless component k belongs to the harmonic of the parameter"""
        q = (k + int(a.mean)) // 2
        if not a.B.symbolic: return a.S.dQ(*(self.hp(a, q) + (a.alpha, a.p % 2))) if a.p // 2 == q else np.zeros((a.n, a.n))
        return a.S.dQ(*(self.hp(a, q) + (a.alpha, a.p % 2))).scale(If(Eq(a.p // 2, q), wrapz(sym.z3.RealVal(1)), wrapz(sym.z3.RealVal(0))))
    def get_invariants(self, B, a):
        if not B.symbolic: return {}
        def inv(view):
            nm = only_list(view)
            if nm is None: return Inv(facts=[False])
            f = self.dblock if 'derivative' in view.func else self.block
            return Inv(locals={nm: SymList(view.k, lambda j: f(a, j))})
        return {'*': inv}
    def run(self, M, a):
        el = bare(M(SE).SeasonalElement, spde=a.S, n_harmonics=a.nh, include_local_mean=a.mean, alpha=a.alpha)
        def make(h):
            hp = bare(M(SE).SeasonalHyperparameters); hp.set_array(h)
            return el.element_prior(hp)
        p = make(a.h)
        num = None if a.B.symbolic else central(lambda x: make(np.array(x)).prior_precision(), list(a.h), a.p)
        return p.prior_precision(), p.prior_precision_derivative(a.p), p.prior_number_of_state_parameters(), num
    def post(self, C, a, out):
        Q, dQ, n, num = out.value
        m = 2 * a.nh + int(a.mean)
        C.holds('size', Eq(n, m * a.n))
        if C.symbolic:
            for nm, got, f in (('precision', Q, self.block), ('derivative', dQ, self.dblock)):
                if not isinstance(got, Blocks) or got.kind != 'd' or load.seq_of(got.seq) is None: C.holds(nm, False); continue
                C.holds(nm + '.count', Eq(got.seq.n, m))
                C.forall(nm, (m,), lambda k, got=got, f=f: got.seq.elem(k)._vf_eq(f(a, k)))
            return
        C.holds('precision', near(Q, scipy.sparse.block_diag([self.block(a, k) for k in range(m)])))
        C.holds('derivative', near(dQ, scipy.sparse.block_diag([self.dblock(a, k) for k in range(m)])))
        C.holds('numerical', near(dQ, num, 1e-5)); C.holds('symmetric', near(Q, Q.T, 1e-12))

@contract
class SeasonalHyper(Contract):
    """every harmonic starts with the common parameters; set replaces what get returns"""
    name = 'hyperparameters.roundtrip'; functions = (SE + ':SeasonalHyperparameters.__init__', SE + ':SeasonalHyperparameters.get_array', LO + ':LocalHyperparameters.get_array', LO + ':LocalHyperparameters.set_array', ST + ':SpaceTimeSPDEHyperparameters.get_array', ST + ':SpaceTimeSPDEHyperparameters.set_array', CV + ':CovariateHyperparameters.get_array', CV + ':CovariateHyperparameters.set_array')
    def setup(self, B): return NS(B=B, kind=B.choice('kind', ['seasonal', 'local', 'spacetime', 'covariate']), n=B.int('n', 1, 4) if not B.symbolic else 3, s=B.real('s'), r=B.real('r'), v=[B.real('v%d' % k) for k in range(8)])
    def run(self, M, a):
        if a.kind == 'seasonal':
            h = M(SE).SeasonalHyperparameters(a.n, a.s, a.r)
            return (h.get_array(), [(lambda p: (p.log_sigma, p.log_rho))(h.harmonic_parameters(k)) for k in range(a.n)])
        n = {'local': 2, 'spacetime': 3, 'covariate': 1}[a.kind]
        mk = {'local': M(LO).LocalHyperparameters, 'spacetime': M(ST).SpaceTimeSPDEHyperparameters, 'covariate': M(CV).CovariateHyperparameters}[a.kind]
        h = mk(*a.v[:n]); first = h.get_array()
        h.set_array(M(CV).np.array(a.v[3:3 + n]))
        names = {'local': ['log_sigma', 'log_rho'], 'spacetime': ['space_log_sigma', 'space_log_rho', 'time_log_rho'], 'covariate': ['value']}[a.kind]
        return first, h.get_array(), [getattr(h, x) for x in names], n
    def post(self, C, a, out):
        if a.kind == 'seasonal':
            arr, hp = out.value
            C.holds('length', Eq(arr.shape[0], 2 * a.n))
            for k in range(a.n): C.holds('common', And(Eq(elem(arr, 2 * k), a.s), Eq(elem(arr, 2 * k + 1), a.r), Eq(hp[k][0], a.s), Eq(hp[k][1], a.r)))
            return
        x, y, z, n = out.value
        C.holds('length', And(Eq(x.shape[0], n), Eq(y.shape[0], n)))
        for k in range(n): C.holds('values', And(Eq(elem(x, k), a.v[k]), Eq(elem(y, k), a.v[3 + k]), Eq(z[k], a.v[3 + k])))

@contract
class Covariate(Contract):
    """exp(-2 value) on the diagonal, derivative -2 exp(-2 value); no other parameter exists"""
    name = 'prior.covariate'; functions = (CV + ':CovariatePrior.prior_precision', CV + ':CovariatePrior.prior_precision_derivative', CV + ':CovariatePrior.prior_number_of_state_parameters', BI + ':BiasElement.element_prior', GM + ':GrandMeanElement.element_prior')
    def setup(self, B): return NS(B=B, n=B.size('n', 1), v=B.real('v', gen=lambda r: r.uniform(-2, 2)), p=B.choice('p', [0, 0, 1, 2]), kind=B.choice('kind', ['bias', 'mean']))
    def run(self, M, a):
        el = bare(M(BI).BiasElement, groupname='g', number_of_biases=a.n) if a.kind == 'bias' else M(GM).GrandMeanElement()
        p = el.element_prior(M(CV).CovariateHyperparameters(a.v))
        return p.prior_precision(), p.prior_number_of_state_parameters(), p.prior_precision_derivative(a.p)
    def post(self, C, a, out):
        if a.p != 0: C.holds('rejected', out.raises(ValueError)); return
        Q, m, dQ = out.value
        n = a.n if a.kind == 'bias' else 1
        C.holds('size', Eq(m, n))
        e = wrapz(sym.ufun1('exp')(sym.toreal(lift(-2 * a.v)))) if C.symbolic else math.exp(-2 * a.v)
        for nm, got, w in (('precision', Q, e), ('derivative', dQ, -2 * e)):
            if not C.symbolic: C.holds(nm, near(got, w * np.eye(n))); continue
            v = got.diagonal()
            C.holds(nm + '.size', Eq(v.shape[0], n)); C.forall(nm, (n,), lambda i, v=v, w=w: Eq(elem(v, i), w))

# ------------------------------------------------------------------ combination

class Combined(Contract):
    """any number of elements"""
    def elements(self, B):
        a = NS(B=B, m=B.size('elements', 1))
        a.nh = B.func('nh', 1, gen=lambda r, k: r.choice([1, 1, 2, 3]))
        a.ns = B.func('ns', 1, gen=lambda r, k: r.choice([1, 2, 3, 4]))
        a.oh = B.fold('oh', lambda *c: 0, lambda k, prev, *c: prev + a.nh(k))
        a.os = B.fold('os', lambda *c: 0, lambda k, prev, *c: prev + a.ns(k))
        if not B.symbolic:
            a.H, a.N = a.oh(a.m), a.os(a.m)
            a.Q = [scipy.sparse.csr_matrix((lambda x: x + x.T)(B.array('Q%d' % k, (a.ns(k),) * 2, F8, gen=small))) for k in range(a.m)]
            a.D = [[scipy.sparse.csr_matrix((lambda x: x + x.T)(B.array('D%d_%d' % (k, q), (a.ns(k),) * 2, F8, gen=small))) for q in range(a.nh(k))] for k in range(a.m)]
        return a
    def seq(self, a, f): return SymSeq(a.m, f) if a.B.symbolic else [f(k) for k in range(a.m)]
    def q(self, a, k): return SMat.gen('Q', (a.ns(k),) * 2, (k,), symmetric=True) if a.B.symbolic else a.Q[k]
    def dq(self, a, k, p): return SMat.gen('dQ', (a.ns(k),) * 2, (k, p), symmetric=True) if a.B.symbolic else a.D[k][p]
    def offsets(self, view, a, per, off, entry):
        """startindex-like local: offset of element k; list-like local: filled up to k"""
        loc = {}
        for n, v in view.entry.items():
            if isinstance(v, int) and not isinstance(v, bool) and v == 0: loc[n] = off(view.k)
            elif isinstance(v, list) and not v: loc[n] = SymList(view.k, entry)
        return loc
    def ranges_inv(self, a):
        def inv(view):
            loc = self.offsets(view, a, a.nh, a.oh, lambda j: SymRange(a.oh(j), a.oh(j + 1)))
            return Inv(locals=loc)
        return inv

@contract
class Ranges(Combined):
    """element k owns the hyperparameters from the sum of the counts before it"""
    name = 'combination.ranges'; functions = (CB + ':CombinationHyperparameters.get_element_ranges', CB + ':CombinationHyperparameters.__init__')
    def setup(self, B):
        a = self.elements(B)
        if B.symbolic: a.assume = B.assume
        return a
    def get_invariants(self, B, a):
        return {'*': self.ranges_inv(a)} if B.symbolic else {}
    def count(self, a, k):
        if a.B.symbolic: a.B.assume(a.nh(k) >= 1); return snp.from_fn((a.nh(k),), lambda ix: sym.toreal(lift(a.B.h(k, wrapz(ix[0])))), 'r')
        return np.arange(a.nh(k)) + 100.0 * k
    def run(self, M, a):
        if a.B.symbolic: a.B.h = a.B.func('h', 2, 'r')
        return M(CB).CombinationHyperparameters(self.seq(a, lambda k: NS(get_array=lambda: self.count(a, k)))).get_element_ranges()
    def post(self, C, a, out):
        r = out.value
        if not C.symbolic:
            C.holds('ranges', [list(x) for x in r] == [list(range(a.oh(k), a.oh(k) + a.nh(k))) for k in range(a.m)]); return
        C.holds('count', Eq(r.n, a.m))
        C.forall('ranges', (a.m,), lambda k: r.elem(k)._vf_eq(SymRange(a.oh(k), a.oh(k) + a.nh(k))))

@contract
class CombinedPrecision(Combined):
    """block diagonal of the elements' precisions"""
    name = 'combination.precision'; functions = (CB + ':CombinationPrior.prior_precision', CB + ':CombinationElement.element_prior', CB + ':CombinationPrior.__init__')
    def setup(self, B): return self.elements(B)
    def run(self, M, a):
        hp = NS(elementparameters=self.seq(a, lambda k: ('h', k)))
        def prior(k, h):
            if a.B.symbolic: oblige('combination.precision.own_parameters', Eq(h[1], k))
            elif h != ('h', k): raise WrongH()
            return NS(prior_precision=lambda: self.q(a, k))
        el = bare(M(CB).CombinationElement, combination=self.seq(a, lambda k: NS(element_prior=lambda h: prior(k, h))))
        return el.element_prior(hp).prior_precision()
    def post(self, C, a, out):
        Q = out.value
        if not C.symbolic: C.holds('blocks', near(Q, scipy.sparse.block_diag(a.Q))); return
        if not isinstance(Q, Blocks) or Q.kind != 'd': C.holds('blocks', False); return
        s = Q.seq
        C.holds('count', Eq(s.n, a.m)); C.forall('blocks', (a.m,), lambda k: s.elem(k)._vf_eq(self.q(a, k)))

@contract
class CombinedDerivative(Combined):
    """the derivative of the one element that owns the parameter, by its own index, zero elsewhere"""
    name = 'combination.derivative'; functions = (CB + ':CombinationPrior.prior_precision_derivative',)
    assumptions = ('the ranges of hyperparameters are those of combination.ranges',)
    def setup(self, B):
        a = self.elements(B); a.p = B.int('p', 0)
        if B.symbolic:
            # the offsets increase (a consequence of the counts being positive, by induction)
            a.inc = lambda j: And(a.nh(j) >= 1, a.oh(j + 1) >= a.oh(j) + 1)
        else: B.assume(a.p < a.H)
        return a
    def want(self, a, k):
        z = lambda: SMat.zero((a.ns(k),) * 2) if a.B.symbolic else np.zeros((a.ns(k),) * 2)
        if not a.B.symbolic: return self.dq(a, k, a.p - a.oh(k)) if a.oh(k) <= a.p < a.oh(k) + a.nh(k) else z()
        own = And(a.p >= a.oh(k), a.p < a.oh(k) + a.nh(k))
        return self.dq(a, k, a.p - a.oh(k)).scale(If(own, wrapz(sym.z3.RealVal(1)), wrapz(sym.z3.RealVal(0))))
    def get_invariants(self, B, a):
        if not B.symbolic: return {}
        def inv(view):
            nm = only_list(view)
            return Inv(locals={nm: SymList(view.k, lambda j: self.want(a, j))}) if nm else Inv(facts=[False])
        return {'*': inv}
    def run(self, M, a):
        if a.B.symbolic: rng = lambda: SymSeq(a.m, lambda k: SymRange(a.oh(k), a.oh(k) + a.nh(k)))
        else: rng = lambda: [list(range(a.oh(k), a.oh(k) + a.nh(k))) for k in range(a.m)]
        ps = self.seq(a, lambda k: NS(prior_precision_derivative=lambda p: self.dq(a, k, p), prior_number_of_state_parameters=lambda: a.ns(k), prior_precision=lambda: self.q(a, k)))
        return M(CB).CombinationPrior(NS(get_element_ranges=rng, elementparameters=self.seq(a, lambda k: ('h', k))), ps).prior_precision_derivative(a.p)
    def post(self, C, a, out):
        Q = out.value
        if not C.symbolic: C.holds('blocks', near(Q, scipy.sparse.block_diag([self.want(a, k) for k in range(a.m)]))); return
        if not isinstance(Q, Blocks) or Q.kind != 'd': C.holds('blocks', False); return
        s = Q.seq
        C.holds('count', Eq(s.n, a.m)); C.forall('blocks', (a.m,), lambda k: s.elem(k)._vf_eq(self.want(a, k)))

class Splits(Combined):
    """each element gets its own part of the state"""
    def setup(self, B):
        a = self.elements(B)
        a.none = B.choice('none', [False, True])
        a.x = B.array('x', (a.os(a.m),), F8, gen=small)
        if B.symbolic: B.assume(a.os(a.m) >= 0)
        return a
    def part(self, a, j):
        return snp.from_fn((a.ns(j),), lambda ix: a.x.at((lift(a.os(j)) + ix[0],)), 'r')
    def get_invariants(self, B, a):
        if not B.symbolic: return {}
        def inv(view):
            loc = self.offsets(view, a, a.ns, a.os, lambda j: self.part(a, j))
            k = view.k
            # the offsets are sums of counts, so they increase (mathematics, stated at the iteration)
            B.assume(And(a.os(k) >= 0, a.ns(k) >= 0, Implies(And(k >= 0, k < a.m), a.os(k) + a.ns(k) <= a.os(a.m))))
            return Inv(locals=loc)
        return {'*': inv}
    def run(self, M, a):
        return self.subject(M, a).element_states(None if a.none else a.x)
    def post(self, C, a, out):
        r = out.value
        if C.symbolic:
            C.holds('count', Eq(r.n if isinstance(r, SymSeq) else len(r), a.m))
            if a.none: C.forall('none', (a.m,), lambda k: r.elem(k) is None); return
            C.forall('sizes', (a.m,), lambda k: Eq(r.elem(k).shape[0], a.ns(k)))
            i = a.B.int('i', 0); j = a.B.int('j', 0); a.B.assume(And(j < a.m, i < a.ns(j)))
            C.holds('parts', wrapz(r.elem(j).at((lift(i),)) == a.x.at((lift(a.os(j) + i),))))
            return
        C.holds('count', len(r) == a.m)
        if a.none: C.holds('none', all(x is None for x in r)); return
        C.holds('parts', all(np.array_equal(r[k], a.x[a.os(k):a.os(k) + a.ns(k)]) for k in range(a.m)))

@contract
class DesignSplits(Splits):
    name = 'combination.design_states'; functions = (CB + ':CombinationDesign.element_states',)
    assumptions = ('the state has as many entries as the elements together; sums of counts increase',)
    def subject(self, M, a): return M(CB).CombinationDesign(self.seq(a, lambda k: NS(design_number_of_state_parameters=lambda: a.ns(k))))
@contract
class PriorSplits(Splits):
    name = 'combination.prior_states'; functions = (CB + ':CombinationPrior.element_states',)
    assumptions = DesignSplits.assumptions
    def subject(self, M, a): return M(CB).CombinationPrior(None, self.seq(a, lambda k: NS(prior_number_of_state_parameters=lambda: a.ns(k))))

@contract
class CombinedEndToEnd(Combined):
    """random combinations: hyperparameters, states, designs, initial states and derivatives end to end"""
    name = 'combination.end_to_end'; functions = tuple(CB + ':' + n for n in 'CombinationHyperparameters.get_array CombinationHyperparameters.set_array CombinationElement.isnonlinear CombinationElement.element_design CombinationDesign.isnonlinear CombinationDesign.design_number_of_state_parameters CombinationDesign.design_initial_state CombinationDesign.element_states CombinationDesign.design_function CombinationDesign.design_jacobian CombinationDesign.design_matrix CombinationPrior.prior_number_of_state_parameters CombinationPrior.element_states CombinationPrior.prior_precision_derivative'.split())
    prove = False
    assumptions = ('up to 5 elements of up to 4 state parameters (bounded)',)
    def setup(self, B):
        a = self.elements(B)
        a.n = B.int('n', 1, 4)
        a.J = [B.array('J%d' % k, (a.n, a.ns(k)), F8, gen=small) for k in range(a.m)]
        a.nl = [B.choice('nl%d' % k, [False, False, True]) for k in range(a.m)]
        a.x0 = [B.array('x0%d' % k, (a.ns(k),), F8, gen=small) for k in range(a.m)]
        a.x = B.array('x', (a.N,), F8, gen=small); a.h = B.array('h', (a.H,), F8, gen=small)
        a.wrong = B.choice('wrong', [0, 0, 0, 1, -1])
        a.none = B.choice('none', [False, True])
        a.rect = B.choice('rect', [False, True])
        return a
    def run(self, M, a):
        cb, el = M(CB), M(EL)
        class H:
            def __init__(s, k): s.v = np.zeros(a.nh(k))
            def get_array(s): return s.v
            def set_array(s, v): s.v = np.array(v)
        hs = [H(k) for k in range(a.m)]
        hp = cb.CombinationHyperparameters(hs)
        bad = None
        if a.wrong:
            try: hp.set_array(np.zeros(a.H + a.wrong))
            except ValueError: bad = True
            else: bad = False
        hp.set_array(a.h)
        class D:
            def __init__(s, k): s.k = k
            def isnonlinear(s): return a.nl[s.k]
            def design_number_of_state_parameters(s): return a.ns(s.k)
            def design_initial_state(s): return a.x0[s.k] if a.nl[s.k] else None
            def design_matrix(s): return scipy.sparse.csr_matrix(a.J[s.k])
            def design_function(s, x, rectified=False): return (np.abs(a.J[s.k]) if rectified else a.J[s.k]).dot(x) ** (2 if a.nl[s.k] else 1)
            def design_jacobian(s, x):
                if not a.nl[s.k] and x is None: return s.design_matrix()
                return scipy.sparse.csr_matrix(a.J[s.k] * (2 * a.J[s.k].dot(x)[:, None] if a.nl[s.k] else 1))
        class P:
            def __init__(s, k, h): s.k, s.h = k, h
            def prior_number_of_state_parameters(s): return a.ns(s.k)
            def prior_precision(s): return a.Q[s.k]
            def prior_precision_derivative(s, q):
                if not 0 <= q < a.nh(s.k): raise IndexError('parameter')
                return a.D[s.k][q]
        class El:
            def __init__(s, k): s.k = k
            def isnonlinear(s): return a.nl[s.k]
            def element_design(s, o): return D(s.k)
            def element_prior(s, h):
                if h is not hs[s.k]: raise WrongH()
                return P(s.k, h)
        e = cb.CombinationElement([El(k) for k in range(a.m)])
        d, p = quiet(lambda: e.element_design(None)), e.element_prior(hp)
        any_nl = any(a.nl)
        x = None if a.none and not any_nl else a.x
        r = dict(bad=bad, get=hp.get_array(), each=[h.v for h in hs], nonlinear=(e.isnonlinear(), d.isnonlinear()), n=(d.design_number_of_state_parameters(), p.prior_number_of_state_parameters()),
                 x0=d.design_initial_state(), states=d.element_states(x), pstates=p.element_states(x), J=d.design_jacobian(x), A=quiet(d.design_matrix), f=d.design_function(a.x, a.rect),
                 Q=p.prior_precision(), dQ=[p.prior_precision_derivative(q) for q in range(a.H)], x=x)
        return r
    def post(self, C, a, out):
        r = NS(**out.value)
        sl = [slice(a.os(k), a.os(k) + a.ns(k)) for k in range(a.m)]
        if a.wrong: C.holds('wrong_size_rejected', r.bad)
        C.holds('set_get', np.array_equal(r.get, a.h) and all(np.array_equal(v, a.h[a.oh(k):a.oh(k) + a.nh(k)]) for k, v in enumerate(r.each)))
        C.holds('nonlinear', r.nonlinear == (any(a.nl), any(a.nl))); C.holds('size', r.n == (a.N, a.N))
        if any(a.nl): C.holds('initial_state', r.x0 is not None and np.array_equal(r.x0, np.concatenate([a.x0[k] if a.nl[k] else np.zeros(a.ns(k)) for k in range(a.m)])))
        else: C.holds('initial_state', r.x0 is None)
        for st in (r.states, r.pstates):
            C.holds('states', len(st) == a.m and all((s is None) if r.x is None else np.array_equal(s, a.x[sl[k]]) for k, s in enumerate(st)))
        J = [a.J[k] * (2 * a.J[k].dot(a.x[sl[k]])[:, None] if a.nl[k] else 1) for k in range(a.m)]
        C.holds('jacobian', near(r.J, np.hstack(J))); C.holds('design', near(r.A, np.hstack(a.J)))
        C.holds('function', near(r.f, sum((np.abs(a.J[k]) if a.rect else a.J[k]).dot(a.x[sl[k]]) ** (2 if a.nl[k] else 1) for k in range(a.m))))
        C.holds('precision', near(r.Q, scipy.sparse.block_diag(a.Q)))
        want = [(k, q) for k in range(a.m) for q in range(a.nh(k))]
        for i, (k, q) in enumerate(want):
            C.holds('derivative', near(r.dQ[i], scipy.sparse.block_diag([a.D[j][q] if j == k else np.zeros((a.ns(j),) * 2) for j in range(a.m)])))

@contract
class Harmonics(Contract):
    """latitude harmonics: one independent parameter per harmonic; the number of hyperparameters must match; the design is the harmonics of latitude"""
    name = 'prior.latitude_harmonics'; functions = (LH + ':LatitudeHarmonicsPrior.__init__', LH + ':LatitudeHarmonicsElementDesign.design_matrix', LH + ':LatitudeFunction.compute', LH + ':LatitudeHarmonicsElement.element_prior')
    prove = False; weight = .4
    assumptions = ('bounded',)
    def setup(self, B): return NS(n=B.choice('n', [4, 4, 4, 3, 5, 1]), v=[B.real('v%d' % k, gen=lambda r: r.uniform(-1, 1)) for k in range(5)], lat=B.array('lat', (B.int('m', 1, 5), 2), F8, gen=lambda r: r.uniform(-90, 90)))
    def run(self, M, a):
        el = M(LH).LatitudeHarmonicsElement()
        hs = [M(CV).CovariateHyperparameters(x) for x in a.v[:a.n]]
        p = el.element_prior(M(CB).CombinationHyperparameters(hs))
        d = el.element_design(NS(location_polar_coordinates=lambda: a.lat))
        return p.prior_precision(), [p.prior_precision_derivative(k) for k in range(4)], p.prior_number_of_state_parameters(), d.design_matrix(), d.design_number_of_state_parameters()
    def post(self, C, a, out):
        if a.n != 4: C.holds('rejected', out.raises(ValueError)); return
        Q, dQ, n, A, m = out.value
        e = np.exp(-2 * np.array(a.v[:4]))
        C.holds('precision', near(Q, np.diag(e))); C.holds('size', n == 4 and m == 4)
        for k in range(4): C.holds('derivative', near(dQ[k], np.diag([-2 * e[k] if j == k else 0.0 for j in range(4)])))
        x = np.radians(a.lat[:, 0])
        C.holds('design', near(A, np.array([np.cos(2 * x), np.sin(2 * x), np.cos(4 * x), np.sin(4 * x)]).T))

@contract
class Designs(Contract):
    """design matrices of the elements: one for every observation and its own bias, the grand mean everywhere, the product of time and space weights"""
    name = 'designs'; functions = (BI + ':BiasDesign.design_matrix', BI + ':BiasDesign.__init__', GM + ':GrandMeanDesign.design_matrix', GM + ':GrandMeanElement.element_design', SB + ':SpatialBiasDesign.design_matrix', LO + ':LocalDesign.design_matrix', KR + ':SpaceTimeKroneckerDesign.design_matrix', KR + ':SpaceTimeKroneckerDesign.design_function', KA + ':AnnualKroneckerDesign.design_matrix', SE + ':SeasonalElementDesign.design_matrix', SE + ':SeasonalElementDesign.build_A_time', FA + ':SpaceTimeFactorDesign.design_jacobian', FA + ':SpaceTimeFactorDesign.design_function', FA + ':SpaceTimeFactorDesign.design_initial_state', EL + ':ElementLinearDesign.design_function', EL + ':ElementLinearDesign.design_jacobian')
    prove = False
    assumptions = ('up to 6 observations and 5 weights (bounded)',)
    def setup(self, B):
        a = NS(B=B, kind=B.choice('kind', ['bias', 'mean', 'spatial_bias', 'local', 'kronecker', 'annual', 'seasonal', 'factor']), n=B.int('n', 1, 6), s=B.int('s', 1, 5), t=B.int('t', 1, 4))
        a.A = B.array('A', (a.n, a.s), F8, gen=small); a.At = B.array('At', (1, a.t), F8, gen=small)
        a.effect = None
        if B.choice('effect', [True, True, False]):
            rows = B.r.sample(range(a.n), B.r.randrange(0, a.n + 1)); B.log['rows'] = rows
            a.effect = np.array([[r, B.r.randrange(a.s)] for r in rows], np.int64).reshape(-1, 2); B.log['e'] = a.effect.tolist()
        a.time = B.datetime('time'); a.mean = B.choice('m', [False, True]); a.nh = B.int('nh', 0, 3)
        if not a.mean and not a.nh: a.nh = 1
        a.rect = B.choice('rect', [False, True])
        a.seed = B.int('seed', 0, 10 ** 6)
        return a
    def run(self, M, a):
        loc = np.random.RandomState(a.seed).uniform(-80, 80, (a.n, 2))
        seen = []
        def build_A(x): seen.append(np.array(x)); return scipy.sparse.csr_matrix(a.A)
        tseen = []
        def build_At(x): tseen.append(np.array(x)); return scipy.sparse.csr_matrix(a.At)
        obs = NS(number_of_observations=lambda: a.n, covariate_effect=lambda g: a.effect if g == 'G' else 'wrong', location_polar_coordinates=lambda: loc, time_index=lambda: 17, time_datetime=lambda: a.time)
        sp, tm = NS(build_A=build_A, n_latent_variables=lambda: a.s), NS(build_A=build_At, n_latent_variables=lambda: a.t)
        k = a.kind
        if k == 'bias': el = M(BI).BiasElement('G', a.s)
        elif k == 'mean': el = M(GM).GrandMeanElement()
        elif k == 'spatial_bias': el = bare(M(SB).SpatialBiasElement, spde=sp, groupname='G', number_of_biases=a.s)
        elif k == 'local': el = bare(M(LO).LocalElement, spde=sp)
        elif k == 'seasonal': el = bare(M(SE).SeasonalElement, spde=sp, n_harmonics=a.nh, include_local_mean=a.mean, alpha=2)
        else: el = bare({'kronecker': M(KR).SpaceTimeKroneckerElement, 'annual': M(KA).AnnualKroneckerElement, 'factor': M(FA).SpaceTimeFactorElement}[k], spatial_model=sp, temporal_model=tm, alpha=2, H=1.0)
        d = quiet(lambda: el.element_design(obs))
        m = d.design_number_of_state_parameters()
        x = np.random.RandomState(a.seed + 1).randint(-4, 5, m) / 2.0
        f = quiet(lambda: d.design_function(x, rectified=True) if a.rect else d.design_function(x))
        J = quiet(lambda: d.design_jacobian(x))
        return NS(m=m, x=x, f=f, J=J, x0=d.design_initial_state(), seen=seen, tseen=tseen, loc=loc, nl=(el.isnonlinear(), d.isnonlinear()))
    def post(self, C, a, out):
        r = out.value; k = a.kind
        J = dense(r.J)
        if k in ('local', 'kronecker', 'annual', 'seasonal', 'factor'): C.holds('locations', len(r.seen) > 0 and all(np.array_equal(s, r.loc) for s in r.seen))
        if k == 'bias':
            want = np.zeros((a.n, a.s))
            if a.effect is not None:
                for i, b in a.effect: want[i, b] = 1
        elif k == 'mean': want = np.ones((a.n, 1))
        elif k == 'spatial_bias': want = a.A if a.effect is not None else np.zeros((a.n, a.s))
        elif k == 'local': want = a.A
        elif k in ('kronecker', 'annual'):
            want = np.kron(a.At, a.A)
            if k == 'kronecker': C.holds('time', all(np.array_equal(t.ravel(), [17]) for t in r.tseen))
        elif k == 'seasonal':
            y = a.time.year; d0, d1 = a.time.replace(month=1, day=1, hour=0, minute=0, second=0, microsecond=0), None
            d1 = d0.replace(year=y + 1) if y < 9999 else None
            if d1 is None: return
            ph = 2 * np.pi * (y + (a.time - d0).total_seconds() / (d1 - d0).total_seconds())
            row = ([1.0] if a.mean else []) + [f(q * ph) for q in range(1, a.nh + 1) for f in (math.sin, math.cos)]
            want = np.kron(np.array([row]), a.A)
            C.holds('size', r.m == want.shape[1]); C.holds('jacobian', J.shape == want.shape and np.allclose(J, want, atol=1e-7)); return
        elif k == 'factor':
            xs, xt = r.x[:a.s], r.x[a.s:]
            want = np.hstack([a.At.dot(xt)[0] * a.A, np.kron(a.At, a.A.dot(xs)[:, None])])
            C.holds('size', r.m == a.s + a.t); C.holds('jacobian', near(J, want))
            if not a.rect: C.holds('function', near(r.f, a.A.dot(xs) * a.At.dot(xt)[0]))
            C.holds('initial', np.array_equal(r.x0, [0.0] * a.s + [1.0] * a.t)); C.holds('nonlinear', r.nl == (True, True))
            return
        C.holds('size', r.m == want.shape[1]); C.holds('jacobian', near(J, want)); C.holds('linear', r.nl == (False, False))
        C.holds('function', near(r.f, (np.abs(want) if a.rect else want).dot(r.x)))
