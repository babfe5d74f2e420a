"""P19 - model elements evaluate the state at each observation's own place and time"""
import math, random, os, json, tempfile, shutil, datetime
import numpy as np
import scipy.sparse
from .. import sym, snp, smat, load
from ..contract import Contract, NS, Reject
from ..smat import SMat, Blocks
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, elem, Only
from .p15 import dense, small, quiet
from .p16 import near, eqm, bare
from .p12 import unit, directions, corners
from .p01 import Decimal

CONTRACTS, contract = contract_list()
ADV = 'eustace.analysis.advanced_standard.'
SPH, VIEW, LAT, E = ADV + 'stats.spde.spherical', ADV + 'stats.spde.spherical_view', ADV + 'stats.spde.lattice', ADV + 'elements.'
KR, FA, LO, LV, SE, CV, CB, LS, LH, BI, GM, SB, EL, ST, KA, GB = [E + n for n in 'kronecker factor local local_view seasonal covariate combination latitudespline latitudeharmonics bias grandmean spatial_bias element spacetimespde kronecker_annual geography_based'.split()]
PRELOAD = (SPH, VIEW, LAT, KR, FA, LO, LV, SE, CV, CB, LS, LH, BI, GM, SB, KA, GB)
BUDGET = dict(quick=dict(search=75), thorough=dict(search=400))
F8 = np.float64
ASSUMPTIONS = ('proofs treat floating point as real arithmetic; the bounded search allows differences of 1e-9 relative to the weights',
               'scipy.sparse stores and combines matrices as documented',
               'a point of the sphere that lies within 1e-6 of the edge of a triangle may be given to either of its triangles')

# ------------------------------------------------------------------ basis functions

class Basis(Contract):
    timeout_ms = 20000
    abstract = True
    def setup(self, B):
        a = NS(n=B.size('n', 1), d=B.choice('d', [1, 2, 3]))
        a.x = B.array('x', (a.n, a.d), F8, gen=lambda r: r.choice([0.0, .5, -1.0, 1.0, 2.0, -2.5, r.uniform(-3, 3)]))
        a.s = B.array('s', (a.d,), F8, gen=lambda r: r.choice([1.0, .5, 2.0, 2.5, r.uniform(.1, 3)]))
        for k in range(a.d): B.assume(elem(a.s, k) > 0)
        return a
    def run(self, M, a):
        x0 = a.x.copy()
        f = getattr(M(LAT), self.cls)(basis_span=a.s)
        r = f.evaluate(a.x)
        return r, x0, a.x
    def post(self, C, a, out):
        r, x0, x1 = out.value
        C.holds('one value for each row', And(len(r.shape) == 1, Eq(r.shape[0], a.n)))
        C.forall('value', (a.n,), lambda i: self.value(C, a, i, elem(r, i), x0))
    def scaled(self, a, i, x): return [elem(x, i, k) / elem(a.s, k) for k in range(a.d)]
    def value(self, C, a, i, got, x):
        """got is f(t) with t the scaled distance: t >= 0, t*t = sum of squares"""
        z = self.scaled(a, i, x)
        q = sum(c * c for c in z)
        if not C.symbolic:
            return abs(got - self.radial(min(math.sqrt(q), 1.0))) < 1e-9
        t = wrapz(sym.zsqrt(sym.toreal(lift(q))))
        return If(t > 1, Eq(got, self.radial(1)), Eq(got, self.radial(t)))

@contract
class BaseBasis(Basis):
    """one minus the scaled distance inside the span, zero beyond"""
    name = 'basis.cone'; cls = 'BasisFunction'; functions = (LAT + ':BasisFunction.evaluate',)
    def radial(self, t): return 1 - t

@contract
class Wendland(Basis):
    """the Wendland C4 polynomial of the scaled distance inside the span, zero beyond"""
    name = 'basis.wendland'; cls = 'WendlandC4Basis'; functions = (LAT + ':WendlandC4Basis.evaluate',)
    def radial(self, t):
        u = (1 - t) * (1 - t)
        return u * u * u * (35 * t * t + 18 * t + 3) / 3

@contract
class Linear(Basis):
    """the product over the dimensions of the linear interpolation weights"""
    name = 'basis.linear'; cls = 'PiecewiseLinearBasis'; functions = (LAT + ':PiecewiseLinearBasis.evaluate',)
    abstract = False
    def value(self, C, a, i, got, x):
        p = 1.0
        for c in self.scaled(a, i, x):
            m = abs(c) if not C.symbolic else If(c >= 0, c, -c)
            p = p * (max(0.0, 1 - m) if not C.symbolic else If(m > 1, 0, 1 - m))
        if C.symbolic: return Eq(got, p)
        return abs(got - p) < 1e-9

# ------------------------------------------------------------------ lattices

def lattice_spec(r, dmax=3):
    d = r.choice([1, 1, 2, 2, 3][:dmax + 2])
    spec, wrap = [], []
    for _ in range(d):
        lo = r.choice([0.0, -10.0, r.uniform(-50, 50)])
        spec.append((lo, lo + r.choice([1.0, 10.0, r.uniform(.5, 60)]), r.randrange(2, [13, 7, 5][d - 1])))
        wrap.append(r.random() < .5)
    if r.random() < .5: wrap = None
    over = r.choice([None, 1.0, 1.5, 2.5, r.uniform(.3, 4)])
    return spec, wrap, over
def axes(spec, wrap):
    sp = [(hi - lo) / (n - 1 + (1 if wrap and w else 0)) for (lo, hi, n), w in zip(spec, wrap or [False] * len(spec))]
    return sp, [[lo + k * s for k in range(n)] for (lo, hi, n), s in zip(spec, sp)]
def nodes(spec, wrap):
    """every node, first dimension fastest"""
    sp, ax = axes(spec, wrap)
    out = [()]
    for a in reversed(ax): out = [(v,) + t for t in out for v in a]
    return sp, np.array(out)
def radial(kind, z):
    t = min(1.0, math.sqrt(sum(c * c for c in z)))
    if kind == 'WendlandC4Basis': return (1 - t) ** 6 * (35 * t * t + 18 * t + 3) / 3
    if kind == 'BasisFunction': return 1 - t
    p = 1.0
    for c in z: p *= max(0.0, 1 - abs(c))
    return p
def lattice_weights(spec, wrap, kind, span, x):
    """dense design matrix: each basis function of the lattice at each location, distances round the circle where an axis wraps"""
    sp, N = nodes(spec, wrap)
    A = np.zeros((len(x), len(N)))
    per = [n * s for (lo, hi, n), s in zip(spec, sp)]
    for i, loc in enumerate(x):
        for j, nd in enumerate(N):
            z = []
            for k in range(len(spec)):
                d = abs(loc[k] - nd[k])
                if wrap and wrap[k]: d = d % per[k]; d = min(d, per[k] - d)
                z.append(d / span[k])
            A[i, j] = radial(kind, z)
    return A
def lattice_locations(r, spec, wrap, n):
    sp, ax = axes(spec, wrap)
    out = []
    for _ in range(n):
        loc = []
        for (lo, hi, m), s, a, w in zip(spec, sp, ax, wrap or [False] * len(spec)):
            k = r.random()
            if k < .25: v = r.choice(a)
            elif k < .4: v = r.choice(a) + s * r.choice([.5, -.5, .25, .999999])
            elif k < .5: v = r.choice([lo, hi])
            elif k < .65: v = lo - r.uniform(0, 2) * s if r.random() < .5 else hi + r.uniform(0, 2) * s
            else: v = r.uniform(lo, hi)
            if w and r.random() < .3: v += (hi - lo) * r.choice([-2, -1, 1, 3])
            loc.append(v)
        out.append(loc)
    return np.array(out, F8).reshape(n, len(spec))

@contract
class LatticeDesign(Contract):
    """every weight is the basis function of that node at that location; nodes are evenly spaced, first dimension fastest"""
    name = 'lattice.design'; prove = False; weight = 1.5
    functions = tuple(LAT + ':' + n for n in 'LatticeMesh.__init__ LatticeMesh.locate_nearby_basis_indices LatticeMesh.build_A LatticeSPDE.build_A LatticeSPDE.construct LatticeSPDE.n_latent_variables'.split())
    assumptions = ('up to 12 nodes in one dimension, 6 x 6 in two and 4 x 4 x 4 in three, and 6 locations (bounded)', 'at least two nodes in each dimension')
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), kind=B.choice('kind', ['BasisFunction', 'WendlandC4Basis', 'PiecewiseLinearBasis']))
    def case(self, a):
        r = random.Random(a.seed)
        spec, wrap, over = lattice_spec(r)
        sp, N = nodes(spec, wrap)
        span = [s * over for s in sp] if over else [r.uniform(.4, 3) * s for s in sp]
        x = lattice_locations(r, spec, wrap, r.randrange(1, 7))
        return r, spec, wrap, over, span, x, N, sp
    def run(self, M, a):
        r, spec, wrap, over, span, x, N, sp = self.case(a)
        L = M(LAT)
        f = getattr(L, a.kind)() if over else getattr(L, a.kind)(basis_span=np.array(span))
        s = L.LatticeSPDE.construct(dimension_specification=spec, basis_function=f, overlap_factor=over, wrap_dimensions=wrap)
        x0 = x.copy()
        one = len(spec) == 1 and r.random() < .5
        A = s.build_A(x[:, 0] if one else x, *(['csr'] if r.random() < .3 else []))
        return A, np.array(s.lattice.nodes), s.n_latent_variables(), np.array_equal(x, x0), np.array(s.lattice.node_spacing)
    def post(self, C, a, out):
        r, spec, wrap, over, span, x, N, sp = self.case(a)
        A, got, n, same, spacing = out.value
        C.holds('nodes', got.reshape(len(got), -1).shape == N.shape and np.allclose(got.reshape(N.shape), N, atol=1e-9))
        C.holds('number', n == len(N)); C.holds('spacing', np.allclose(spacing, sp)); C.holds('locations kept', same)
        W = lattice_weights(spec, wrap, a.kind, span, x)
        C.holds('weights', A.shape == W.shape and np.allclose(dense(A), W, atol=1e-7))

# ------------------------------------------------------------------ the sphere

def polar(v):
    """latitude and longitude in degrees of a direction"""
    v = v / np.linalg.norm(v)
    return [math.degrees(math.asin(max(-1, min(1, v[2])))), math.degrees(math.atan2(v[1], v[0]))]
def sphere_locations(r, mesh, n):
    out = []
    for _ in range(n):
        k = r.random()
        if k < .5: out.append(polar(directions(r, mesh, 1)[0]))
        elif k < .7: out.append([r.choice([90.0, -90.0, 0.0, 45.0]), r.choice([180.0, -180.0, 0.0, 90.0, 360.0, -359.5])])
        else: out.append([r.uniform(-90, 90), r.uniform(-180, 360)])
    return np.array(out, F8)
def cartesian(p):
    la, lo = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
def sphere_weights(mesh, p):
    """every triangle of the mesh that holds the direction (up to 1e-6), with the weights of its corners"""
    v = cartesian(p)
    T = mesh.triangles[:, 1:].astype(int); P = mesh.points
    M3 = np.stack([P[T[:, k]] for k in range(3)], axis=2)          # columns are corners
    w = np.linalg.solve(M3, np.repeat(v[None, :, None], len(T), 0))[:, :, 0]
    s = w.sum(1)
    ok = (s > 0)
    w = np.where(ok[:, None], w / np.where(ok, s, 1)[:, None], -9)
    idx = np.where(w.min(1) > -1e-6)[0]
    return [(t, T[t], w[t]) for t in idx]
def row_ok(mesh, p, row, columns=None):
    """the row holds the weights of one triangle that holds the location and nothing else"""
    for t, cs, w in sphere_weights(mesh, p):
        want = np.zeros(len(mesh.points))
        for c, x in zip(cs, w): want[c] += x
        if np.allclose(want if columns is None else want[columns], row, atol=2e-6): return True
    return False

@contract
class SphereDesign(Contract):
    """each row holds the barycentric weights of the corners of the triangle that holds the location, and nothing else"""
    name = 'sphere.design'; prove = False
    functions = (SPH + ':SphereMeshSPDE.build_A', SPH + ':SphereMeshSPDE.n_latent_variables', SPH + ':SphereMeshSPDE.__init__', SPH + ':SphereMeshSPDE.n_triangles_at_level')
    assumptions = ('subdivision levels 0 to 4 and up to 8 locations (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), level=B.choice('level', [0, 1, 1, 2, 2, 3, 4]), n=B.int('n', 1, 8), fmt=B.choice('fmt', ['csr', 'csc']))
    def run(self, M, a):
        s = M(SPH).SphereMeshSPDE(a.level, a.fmt)
        x = sphere_locations(random.Random(a.seed), s.triangulation, a.n); x0 = x.copy()
        A = s.build_A(x)
        return NS(A=A, x=x0, same=np.array_equal(x, x0), mesh=s.triangulation, n=s.n_latent_variables(), t=s.n_triangles_at_level(a.level))
    def post(self, C, a, out):
        r = out.value
        D = dense(r.A)
        C.holds('size', D.shape == (a.n, r.n) and r.n == len(r.mesh.points) and r.t == len(r.mesh.triangles) == 20 * 4 ** a.level)
        C.holds('locations kept', r.same); C.holds('format', r.A.format == a.fmt)
        for i in range(a.n):
            C.holds('sums to one', abs(D[i].sum() - 1) < 1e-9); C.holds('not negative', D[i].min() > -1e-9)
            v = D[i].dot(r.mesh.points)
            C.holds('interpolates the direction', np.linalg.norm(unit(v) - cartesian(r.x[i])) < 1e-6)
            C.holds('weights', row_ok(r.mesh, r.x[i], D[i]))

@contract
class ViewDesign(Contract):
    """a view of some triangles: the weights of the whole sphere for locations inside them, zero rows elsewhere, one column for each of their vertices in order"""
    name = 'view.design'; prove = False; weight = .5
    functions = tuple(VIEW + ':' + n for n in 'SphereMeshView.__init__ SphereMeshView.get_active_vertex_indices SphereMeshView.get_vertex_mappings SphereMeshView.get_triangulation_mappings SphereMeshView.n_latent_variables SphereMeshView.build_A SphereMeshView.in_domain SphereMeshViewGlobal.__init__ SphereMeshViewLocal.__init__ SphereMeshViewSuperTriangle.__init__'.split()) + \
        (SPH + ':SphereMeshSPDE.neighbours_at_level', SPH + ':SphereMeshSPDE.super_triangle_at_level', SPH + ':SphereMeshSPDE.mesh_at_level')
    assumptions = ('subdivision levels 0 to 3 and up to 8 locations (bounded)',)
    def setup(self, B):
        a = NS(seed=B.int('seed', 0, 10 ** 9), level=B.choice('level', [0, 1, 2, 2, 3]), kind=B.choice('kind', ['any', 'global', 'local', 'super', 'local', 'super']), n=B.int('n', 1, 8))
        a.sup = B.int('sup', 0, a.level); a.index = B.int('index', 0, 20 * 4 ** a.sup - 1)
        return a
    def run(self, M, a):
        V = M(VIEW); r = random.Random(a.seed)
        if a.kind == 'any':
            T = 20 * 4 ** a.level
            act = r.sample(range(T), r.randrange(1, min(T, 12)))
            s = V.SphereMeshView(a.level, np.array(act))
        elif a.kind == 'global': act = None; s = V.SphereMeshViewGlobal(a.level)
        elif a.kind == 'local': act = None; s = V.SphereMeshViewLocal(a.level, a.sup, a.index)
        else: act = None; s = V.SphereMeshViewSuperTriangle(a.level, a.sup, a.index)
        m = s.triangulation
        x = sphere_locations(r, m, a.n)
        for i in range(a.n):
            if r.random() < .6:                                       # often inside the view or next to it
                t = int(r.choice(list(s.active_triangle_indices)))
                c = [m.points[int(k)] for k in m.triangles[t, 1:]]
                w = [r.uniform(-.1, 1) for _ in range(3)]
                x[i] = polar(sum(q * p for q, p in zip(w, c)))
        return NS(act=act, A=dense(s.build_A(x)), inside=np.array(s.in_domain(x)), n=s.n_latent_variables(), x=x, mesh=m, tri=np.array(s.active_triangle_indices), vert=np.array(s.active_vertex_indices),
                  vm=dense(s.get_vertex_mappings()), tm=dense(s.get_triangulation_mappings()), low=s.mesh_at_level(a.sup) if a.kind in ('local', 'super') else None)
    def post(self, C, a, out):
        r = out.value
        m = r.mesh; T = m.triangles[:, 1:].astype(int)
        if a.kind == 'any': want = sorted(r.act)
        elif a.kind == 'global': want = list(range(len(T)))
        else:
            L = r.low.triangles[:, 1:].astype(int)
            P = r.low.points
            if a.kind == 'super': big = [a.index]
            else: big = [t for t in range(len(L)) if any(np.allclose(P[i], P[j], atol=1e-9) for i in L[t] for j in L[a.index])]
            # a fine triangle belongs to the coarse triangle that holds its centre
            C.holds('coarse mesh', len(L) == 20 * 4 ** a.sup)
            cen = m.points[T].mean(1)
            want = []
            for t in range(len(T)):
                for b in big:
                    w = np.linalg.solve(P[L[b]].T, cen[t])
                    if w.min() > 0: want.append(t); break
            if a.sup == a.level: want = [t for t in range(len(T)) if t in big]
        C.holds('triangles', list(r.tri) == want)
        vs = sorted({int(v) for t in want for v in T[t]})
        C.holds('vertices', list(r.vert) == vs and r.n == len(vs))
        C.holds('vertex mapping', np.array_equal(r.vm, np.eye(len(m.points))[vs])); C.holds('triangle mapping', np.array_equal(r.tm, np.eye(len(T))[want]))
        C.holds('size', r.A.shape == (a.n, len(vs)) and r.inside.shape == (a.n,))
        if r.A.shape != (a.n, len(vs)): return
        ws = set(want)
        for i in range(a.n):
            cand = sphere_weights(m, r.x[i])
            if len(cand) == 1: C.holds('in domain', bool(r.inside[i]) == (cand[0][0] in ws))
            elif not any(c[0] in ws for c in cand): C.holds('out of domain', not r.inside[i])
            if not r.inside[i]: C.holds('zero outside', not r.A[i].any())
            else: C.holds('weights', row_ok(m, r.x[i], r.A[i], vs))

# ------------------------------------------------------------------ elements on any spatial and temporal model (proved in the free algebra)

class Seen:
    def __init__(self, B, name, n, s): self.B, self.name, self.n, self.s, self.at = B, name, n, s, []
    def n_latent_variables(self): return self.s
    def build_A(self, x):
        self.at.append(x)
        if self.B.symbolic: return SMat.gen('A_' + self.name, (self.n, self.s))
        return scipy.sparse.csr_matrix(self.M)
class DesignOf(Contract):
    weight = .5
    def setup(self, B):
        n, s, t = B.size('n', 1), B.size('s', 1), B.size('t', 1)
        a = NS(B=B, n=n, s=s, t=t, space=Seen(B, 'space', n, s), time=Seen(B, 'time', 1, t), index=B.int('index', -10 ** 6, 10 ** 6))
        a.loc = B.array('loc', (n, 2), F8, gen=lambda r: r.uniform(-90, 90))
        if not B.symbolic:
            a.space.M = B.array('A', (n, s), F8, gen=small); a.time.M = B.array('At', (1, t), F8, gen=small)
        return a
    def obs(self, a): return NS(number_of_observations=lambda: a.n, location_polar_coordinates=lambda: a.loc, time_index=lambda: a.index, time_datetime=lambda: a.when)
    def mats(self, a):
        if a.B.symbolic: return SMat.gen('A_space', (a.n, a.s)), SMat.gen('A_time', (1, a.t))
        return scipy.sparse.csr_matrix(a.space.M), scipy.sparse.csr_matrix(a.time.M)
    def places(self, C, a):
        for x in a.space.at:
            C.holds('places.shape', And(Eq(x.shape[0], a.n), Eq(x.shape[1], 2)))
            C.forall('places', (a.n, 2), lambda i, k, x=x: Eq(elem(x, i, k), elem(a.loc, i, k)))
        C.holds('places used', len(a.space.at) > 0)

@contract
class KroneckerDesign(DesignOf):
    """space-time element: the product of the temporal weights at the time of the observations and the spatial weights at their places, time major"""
    name = 'design.kronecker'; functions = (KR + ':SpaceTimeKroneckerElement.element_design', KR + ':SpaceTimeKroneckerDesign.design_matrix', KR + ':SpaceTimeKroneckerDesign.design_jacobian', KR + ':SpaceTimeKroneckerDesign.design_number_of_state_parameters', ST + ':SpaceTimeSPDEDesign.__init__')
    def run(self, M, a):
        el = bare(M(KR).SpaceTimeKroneckerElement, spatial_model=a.space, temporal_model=a.time, alpha=2, H=1.0)
        d = el.element_design(self.obs(a))
        return d.design_matrix(), d.design_jacobian(None), d.design_number_of_state_parameters()
    def post(self, C, a, out):
        A, J, m = out.value
        S, T = self.mats(a)
        W = smat.kron(T, S) if C.symbolic else scipy.sparse.kron(T, S)
        eqm(C, 'matrix', A, W); eqm(C, 'jacobian', J, W); C.holds('size', Eq(m, a.s * a.t))
        self.places(C, a)
        C.holds('time used', len(a.time.at) > 0)
        for x in a.time.at: C.holds('time', And(x.shape == (1, 1), Eq(elem(x, 0, 0), self.time_of(a))))
    def time_of(self, a): return a.index

@contract
class LocalDesign(DesignOf):
    """local element: the spatial weights at the places of the observations"""
    name = 'design.local'; functions = (LO + ':LocalElement.element_design', LO + ':LocalDesign.design_matrix', LO + ':LocalDesign.design_number_of_state_parameters')
    def run(self, M, a):
        d = bare(M(LO).LocalElement, spde=a.space).element_design(self.obs(a))
        return d.design_matrix(), d.design_number_of_state_parameters()
    def post(self, C, a, out):
        A, m = out.value
        eqm(C, 'matrix', A, self.mats(a)[0]); C.holds('size', Eq(m, a.s)); self.places(C, a)

@contract
class AnnualDesign(KroneckerDesign):
    """annual space-time element: the same product, at the decimal year of the observations"""
    name = 'design.annual'; functions = (KA + ':AnnualKroneckerElement.element_design', KA + ':AnnualKroneckerDesign.design_matrix', KA + ':AnnualKroneckerDesign.design_jacobian', KA + ':AnnualKroneckerDesign.design_number_of_state_parameters', KA + ':AnnualKroneckerDesign.__init__')
    assumptions = ('decimaltime.datetime_to_decimal_year is the decimal year (P01 decimaltime, proved)',)
    def setup(self, B):
        a = super().setup(B)
        a.year = B.real('year', gen=lambda r: r.uniform(1850, 2050)); a.when = object()
        return a
    def stubs(self, B, a): return {KA + ':datetime_to_decimal_year': lambda t: self.year(a, t)}
    def year(self, a, t):
        if t is not a.when: raise WrongTime()
        return a.year
    def run(self, M, a):
        el = bare(M(KA).AnnualKroneckerElement, spatial_model=a.space, temporal_model=a.time, alpha=2, H=1.0)
        d = el.element_design(self.obs(a))
        return d.design_matrix(), d.design_jacobian(None), d.design_number_of_state_parameters()
    def time_of(self, a): return a.year
class WrongTime(Exception): pass

@contract
class SeasonalTime(DesignOf):
    """seasonal element: a constant if asked for, then sine and cosine of each multiple of the time of year"""
    name = 'design.seasonal_time'; functions = (SE + ':SeasonalElementDesign.build_A_time', SE + ':cosine_seasonal_harmonic', SE + ':sine_seasonal_harmonic')
    abstract = True
    assumptions = ('seasonal.datetime_to_decimal_year is the decimal year (seasonal.decimal_year, proved)', 'up to 3 harmonics')
    def setup(self, B):
        a = NS(B=B, nh=B.choice('nh', [0, 1, 2, 3]), mean=B.choice('mean', [False, True]), year=B.real('year', gen=lambda r: r.choice([2000.0, 1999.5, r.uniform(1850, 2050)])), when=object())
        return a
    def stubs(self, B, a): return {SE + ':datetime_to_decimal_year': lambda t: a.year if t is a.when else 1 / 0}
    def run(self, M, a): return quiet(lambda: M(SE).SeasonalElementDesign(NS(time_datetime=lambda: a.when), None, a.nh, a.mean).build_A_time())
    def post(self, C, a, out):
        r = out.value
        m = 2 * a.nh + int(a.mean)
        C.holds('shape', len(r.shape) == 2 and r.shape[0] == 1 and r.shape[1] == m)
        if not C.symbolic:
            w = ([1.0] if a.mean else []) + [f(2 * math.pi * q * a.year) for q in range(1, a.nh + 1) for f in (math.sin, math.cos)]
            C.holds('harmonics', np.allclose(r, [w], atol=1e-7)); return
        w = [1.0] if a.mean else []
        for q in range(1, a.nh + 1):
            ph = sym.toreal(lift(q * 2.0 * np.pi * a.year))
            w += [wrapz(sym.ufun1('sin')(ph)), wrapz(sym.ufun1('cos')(ph))]
        for k in range(m): C.holds('harmonic%d' % k, Eq(elem(r, 0, k), w[k]))

@contract
class SeasonalYear(Decimal):
    """the time of year of the seasonal element is the elapsed fraction of the calendar year"""
    name = 'seasonal.decimal_year'; functions = (SE + ':datetime_to_decimal_year',)
    def run(self, M, a): return M(SE).datetime_to_decimal_year(a.d)

@contract
class SeasonalDesign(DesignOf):
    """seasonal element: the product of the seasonal terms and the spatial weights, time major"""
    name = 'design.seasonal'; functions = (SE + ':SeasonalElement.element_design', SE + ':SeasonalElementDesign.design_matrix', SE + ':SeasonalElementDesign.build_A_space', SE + ':SeasonalElementDesign.design_number_of_state_parameters')
    def setup(self, B):
        a = super().setup(B); a.nh = B.choice('nh', [0, 1, 3, 4]); a.mean = B.choice('mean', [False, True]); a.t = 2 * a.nh + int(a.mean)
        if a.t == 0: raise Reject()
        if not B.symbolic: a.time.M = B.array('At2', (1, a.t), F8, gen=small)
        return a
    def run(self, M, a):
        el = bare(M(SE).SeasonalElement, spde=a.space, n_harmonics=a.nh, include_local_mean=a.mean, alpha=2)
        d = el.element_design(self.obs(a))
        d.build_A_time = lambda: SMat.gen('A_time', (1, a.t)) if a.B.symbolic else a.time.M
        return d.design_matrix(), d.design_number_of_state_parameters()
    def post(self, C, a, out):
        A, m = out.value
        S, T = self.mats(a)
        eqm(C, 'matrix', A, smat.kron(T, S) if C.symbolic else scipy.sparse.kron(T, S)); C.holds('size', Eq(m, a.s * a.t)); self.places(C, a)

@contract
class SpatialBias(DesignOf):
    """spatial bias element: the spatial weights if its group affects the observations, otherwise nothing"""
    name = 'design.spatial_bias'; functions = (SB + ':SpatialBiasElement.element_design', SB + ':SpatialBiasDesign.__init__', SB + ':SpatialBiasDesign.design_matrix', SB + ':SpatialBiasDesign.design_number_of_state_parameters')
    def setup(self, B): a = super().setup(B); a.effect = B.choice('effect', [False, True]); a.group = B.choice('group', ['G', 'H']); return a
    def run(self, M, a):
        o = self.obs(a); o.covariate_effect = lambda g: object() if g == a.group and a.effect else None
        d = bare(M(SB).SpatialBiasElement, spde=a.space, groupname='G', number_of_biases=a.s).element_design(o)
        return d.design_matrix(), d.design_number_of_state_parameters()
    def post(self, C, a, out):
        A, m = out.value
        C.holds('size', Eq(m, a.s))
        if a.effect and a.group == 'G': eqm(C, 'matrix', A, self.mats(a)[0]); self.places(C, a)
        else: eqm(C, 'nothing', A, SMat.zero((a.n, a.s)) if C.symbolic else np.zeros((a.n, a.s)))

# ------------------------------------------------------------------ interpolated geography

def grid_interpolate(lat, lon, f, p, pole):
    """bilinear in latitude and longitude, longitudes round the circle; beyond the first and last row towards the constant given for that pole"""
    h = lat[1] - lat[0]; n, m = len(lat), len(lon)
    y = (p[0] - lat[0]) / h; x = (p[1] - lon[0]) / h
    j = math.floor(x); u = x - j
    i = math.floor(y); v = y - i
    def cell(r, c):
        if r < 0: return pole[0] if r == -1 else 0.0
        if r >= n: return pole[1] if r == n else 0.0
        return f[r][c % m]
    def row(r): return (1 - u) * cell(r, j) + u * cell(r, j + 1)
    return (1 - v) * row(i) + v * row(i + 1)

@contract
class Geography(Contract):
    """the covariate is the gridded field interpolated bilinearly at each observation, times the scale factor; longitudes are circular"""
    name = 'geography'; prove = False; weight = .6
    functions = tuple(GB + ':' + n for n in 'GeographyBasedCovariateFunction.bilinear_interpolation GeographyBasedCovariateFunction.compute GeographyBasedElement.load GeographyBasedElement.element_design GeographyBasedElementDesign.design_matrix GeographyBasedElementDesign.design_number_of_state_parameters GeographyBasedElement.element_prior'.split())
    assumptions = ('global grids with the same spacing in latitude and longitude, which has no more than two decimals, and latitudes that increase, up to 18 x 36 (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), h=B.choice('h', [10.0, 20.0, 30.0, 45.0, 22.5]), file=B.choice('file', [False, False, True]), bad=B.choice('bad', [False] * 9 + [True]))
    def case(self, a):
        r = random.Random(a.seed)
        lat = np.arange(-90 + a.h / 2, 90, a.h); lon = np.arange(-180 + a.h / 2, 180, a.h)
        f = np.array([[r.choice([0.0, 1.0, r.uniform(-5, 9)]) for _ in lon] for _ in lat])
        x = []
        for _ in range(r.randrange(1, 8)):
            k = r.random()
            if k < .2: x.append([r.choice(list(lat)), r.choice(list(lon))])
            elif k < .4: x.append([r.choice([90.0, -90.0, r.uniform(-90, 90)]), r.choice([180.0, -180.0, 179.999, -179.999])])
            elif k < .6: x.append([r.choice(list(lat)) + a.h * r.choice([.5, -.5, .25]), r.choice(list(lon)) + a.h * r.choice([.5, -.5])])
            else: x.append([r.uniform(-90, 90), r.uniform(-180, 180)])
        return r, lat, lon, f, np.array(x), r.choice([1.0, .001, 2.5, -1.0])
    def run(self, M, a):
        r, lat, lon, f, x, scale = self.case(a)
        G = M(GB)
        la, lo = np.meshgrid(lat, lon, indexing='ij')
        if a.bad: lo = lo * .5
        d = tempfile.mkdtemp()
        try:
            el = G.GeographyBasedElement(os.path.join(d, 'c.nc'), 'la', 'lo', 'field', scale)
            if a.file:
                from netCDF4 import Dataset
                nc = Dataset(el.filename, 'w'); nc.createDimension('y', len(lat)); nc.createDimension('x', len(lon))
                for n, v in (('la', la), ('lo', lo), ('field', f)): nc.createVariable(n, 'f8', ('y', 'x'))[:] = v
                nc.close(); el.load()
            else: el.latitude, el.longitude, el.covariate = la, lo, f.copy()
            c0 = np.array(el.covariate)
            de = el.element_design(NS(location_polar_coordinates=lambda: x.copy(), number_of_observations=lambda: len(x)))
            A = de.design_matrix(); A2 = de.design_matrix()
            x0 = np.array([.75])
            return dense(A), dense(A2), de.design_number_of_state_parameters(), np.array_equal(c0, np.array(el.covariate)), de.design_function(x0), el.element_prior(M(CV).CovariateHyperparameters(.5)).prior_precision()
        finally: shutil.rmtree(d)
    def post(self, C, a, out):
        r, lat, lon, f, x, scale = self.case(a)
        if a.bad: C.holds('uneven spacing refused', out.raises(ValueError)); return
        A, A2, m, kept, fx, Q = out.value
        C.holds('size', A.shape == (len(x), 1) and m == 1); C.holds('repeatable', np.array_equal(A, A2) and kept)
        C.holds('prior', near(Q, [[math.exp(-1.0)]]))
        for i, p in enumerate(x):
            ok = False
            for means in ((f[0].mean(), f[-1].mean()), ((f[0].sum() + f[0][0] + f[0][-1]) / (len(lon) + 2), (f[-1].sum() + f[-1][0] + f[-1][-1]) / (len(lon) + 2))):
                ok = ok or abs(A[i, 0] - scale * grid_interpolate(lat, lon, f, p, means)) < 1e-6
            C.holds('value', ok); C.holds('function', abs(fx[i] - .75 * A[i, 0]) < 1e-9)

# ------------------------------------------------------------------ whole elements

def decimal_year(t):
    s, e = datetime.datetime(t.year, 1, 1), datetime.datetime(t.year + 1, 1, 1)
    return t.year + (t - s).total_seconds() / (e - s).total_seconds()

@contract
class Elements(Contract):
    """each element as the analysis builds it: row i of its design depends on observation i alone and holds the weights of that place and time"""
    name = 'elements'; prove = False; weight = 1.2
    functions = (SE + ':SeasonalElement.element_design', SE + ':SeasonalElementDesign.build_A_time', SE + ':SeasonalElementDesign.build_A_space', SE + ':SeasonalElementDesign.design_matrix', SE + ':SeasonalElementDesign.design_number_of_state_parameters',
                 SE + ':SeasonalElement.__init__', SE + ':datetime_to_decimal_year', SE + ':cosine_seasonal_harmonic', SE + ':sine_seasonal_harmonic', LO + ':LocalElement.__init__', LV + ':LocalSubRegion.__init__', LV + ':LocalSuperTriangle.__init__', LV + ':NonStationaryLocal.__init__',
                 ST + ':SpaceTimeSPDEElement.__init__', KA + ':AnnualKroneckerDesign.__init__', KA + ':AnnualKroneckerElement.element_design', FA + ':SpaceTimeFactorElement.element_design', FA + ':SpaceTimeFactorDesign.design_function', FA + ':SpaceTimeFactorDesign.design_jacobian', FA + ':SpaceTimeFactorDesign.design_initial_state',
                 LS + ':LatitudeSplineElement.__init__', LS + ':LatitudeSplineElementDesign.design_matrix', LS + ':LatitudeSplineElementDesign.__init__', LH + ':LatitudeHarmonicsElementDesign.design_matrix', LH + ':LatitudeHarmonicsElementDesign.__init__', LH + ':LatitudeFunction.compute', SB + ':SpatialBiasElement.__init__', SB + ':SpatialBiasDesign.design_matrix',
                 GM + ':GrandMeanDesign.design_matrix', EL + ':ElementLinearDesign.design_function', EL + ':ElementLinearDesign.design_jacobian', EL + ':ElementLinearDesign.design_initial_state', EL + ':ElementNonlinear.isnonlinear', KR + ':SpaceTimeKroneckerDesign.design_function', KA + ':AnnualKroneckerDesign.design_function')
    assumptions = ('subdivision levels 0 to 2, up to 7 observations and 8 temporal nodes (bounded)',)
    KINDS = ['seasonal', 'local', 'kronecker', 'annual', 'factor', 'spline', 'harmonics', 'spatial_bias', 'mean', 'subregion', 'supertriangle', 'nonstationary']
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), kind=B.choice('kind', self.KINDS), level=B.choice('level', [0, 1, 2]), n=B.int('n', 1, 7))
    def run(self, M, a):
        r = random.Random(a.seed)
        g = NS(); k = a.kind
        g.wrap = [r.random() < .5] if r.random() < .5 else None
        g.start = r.choice([0.0, 10.0, 1990.0]); g.nodes = r.randrange(2, 9); g.end = g.start + r.choice([7.0, 30.0, 4.0]); g.over = r.choice([1.0, 2.5, 1.3])
        if k == 'annual': g.start = 1980.0; g.end = g.start + r.choice([20.0, 40.0, 4.0])
        g.nh, g.mean = r.randrange(0, 4), r.random() < .5
        if not g.nh: g.mean = True
        g.index = r.choice([g.start, g.end, int(g.start + (g.end - g.start) * r.random()), g.start + (g.end - g.start) * r.random()])
        g.when = datetime.datetime(r.choice([1980, 1984, 1999, 2000, 2001, 2018]), 1, 1) + datetime.timedelta(seconds=r.randrange(0, 366 * 86400) if r.random() < .6 else r.choice([0, 59 * 86400, 364 * 86400 + 86399]))
        if k == 'seasonal': el = M(SE).SeasonalElement(a.level, g.nh, g.mean)
        elif k == 'local': el = M(LO).LocalElement(a.level)
        elif k in ('kronecker', 'annual', 'factor'):
            el = {'kronecker': M(KR).SpaceTimeKroneckerElement, 'annual': M(KA).AnnualKroneckerElement, 'factor': M(FA).SpaceTimeFactorElement}[k](a.level, 2, g.start, g.end, g.nodes, g.over, 1.0, *([g.wrap] if g.wrap else []))
        elif k == 'spline': g.nodes = r.randrange(2, 6); el = M(LS).LatitudeSplineElement(2, g.nodes, g.over, 1.0)
        elif k == 'harmonics': el = M(LH).LatitudeHarmonicsElement()
        elif k == 'spatial_bias': el = M(SB).SpatialBiasElement('G', a.level)
        elif k == 'mean': el = M(GM).GrandMeanElement()
        elif k == 'subregion': g.sup = r.randrange(0, a.level + 1); el = M(LV).LocalSubRegion(a.level, g.sup, r.randrange(0, 20 * 4 ** g.sup))
        elif k == 'supertriangle': g.sup = r.randrange(0, a.level + 1); el = M(LV).LocalSuperTriangle(a.level, g.sup, r.randrange(0, 20 * 4 ** g.sup))
        else: el = M(LV).NonStationaryLocal(a.level)
        sp = getattr(el, 'spde', None) if k != 'spline' else None
        sp = sp or getattr(el, 'spatial_model', None) or M(SPH).SphereMeshSPDE(a.level)
        g.mesh = sp.triangulation
        x = sphere_locations(r, g.mesh, a.n)
        g.effect = r.random() < .7
        def obs(x): return NS(number_of_observations=lambda: len(x), location_polar_coordinates=lambda: x.copy(), time_index=lambda: g.index, time_datetime=lambda: g.when,
                              covariate_effect=lambda n: np.array([[0, 0]]) if n == 'G' and g.effect else None)
        d = quiet(lambda: el.element_design(obs(x)))
        g.m = d.design_number_of_state_parameters()
        g.state = np.array([r.choice([0.0, 1.0, -1.0, r.uniform(-3, 3)]) for _ in range(g.m)])
        ev = lambda d: (dense(quiet(lambda: d.design_jacobian(g.state))), np.array(quiet(lambda: d.design_function(g.state))).ravel(), np.array(quiet(lambda: d.design_function(g.state, rectified=True))).ravel())
        g.J, g.f, g.fr = ev(d)
        g.perm = list(range(a.n)); r.shuffle(g.perm); g.perm = g.perm[:r.randrange(1, a.n + 1)]
        g.Jp, g.fp, _ = ev(quiet(lambda: el.element_design(obs(x[g.perm]))))
        g.x = x; g.x0 = np.array(d.design_initial_state()); g.nl = bool(el.isnonlinear())
        if k == 'factor':
            h = 1e-3; g.num = np.zeros((a.n, g.m))
            for q in range(g.m):
                u = g.state.copy(); u[q] += h; w = g.state.copy(); w[q] -= h
                g.num[:, q] = (np.array(d.design_function(u)).ravel() - np.array(d.design_function(w)).ravel()) / (2 * h)
        if k in ('subregion', 'supertriangle'): g.vert = np.array(sp.active_vertex_indices); g.inside = sp.in_domain(x)
        return g
    def post(self, C, a, out):
        g = out.value; k = a.kind; n = a.n
        C.holds('size', g.J.shape == (n, g.m) and g.f.shape == (n,))
        if g.J.shape != (n, g.m): return
        C.holds('own row for each observation', np.allclose(g.Jp, g.J[g.perm], atol=1e-12) and np.allclose(g.fp, g.f[g.perm], atol=1e-9))
        C.holds('linear unless factor', g.nl == (k == 'factor'))
        if k != 'factor':
            C.holds('function', np.allclose(g.f, g.J.dot(g.state), atol=1e-9)); C.holds('rectified', np.allclose(g.fr, np.abs(g.J).dot(g.state), atol=1e-9))
        V = len(g.mesh.points)
        spec = [(g.start, g.end, g.nodes)]
        def time_row(t): sp, _ = nodes(spec, g.wrap); return lattice_weights(spec, g.wrap, 'WendlandC4Basis', [g.over * sp[0]], [[t]])[0]
        if k in ('local', 'nonstationary'): trow, S = np.ones(1), g.J
        elif k == 'spatial_bias':
            if not g.effect: C.holds('no effect', not g.J.any() and g.m == V); return
            trow, S = np.ones(1), g.J
        elif k == 'mean': C.holds('mean', g.m == 1 and (g.J == 1).all()); return
        elif k == 'harmonics':
            y = np.radians(g.x[:, 0]); C.holds('harmonics', np.allclose(g.J, np.array([np.cos(2 * y), np.sin(2 * y), np.cos(4 * y), np.sin(4 * y)]).T, atol=1e-9)); return
        elif k == 'spline':
            h = 180.0 / (g.nodes - 1); N = g.nodes + 360
            C.holds('nodes', g.m == N)
            if g.m != N: return
            nd = -90 + h * (np.arange(N) - 180)
            W = np.array([[radial('WendlandC4Basis', [(y - c) / (h * g.over)]) for c in nd] for y in g.x[:, 0]])
            C.holds('spline', np.allclose(g.J, W, atol=1e-7)); return
        elif k in ('subregion', 'supertriangle'):
            C.holds('vertices', g.m == len(g.vert))
            for i in range(n):
                C.holds('weights', row_ok(g.mesh, g.x[i], g.J[i], g.vert) if g.inside[i] else not g.J[i].any())
            return
        elif k == 'seasonal':
            t = decimal_year(g.when) * 2 * math.pi
            trow = np.array(([1.0] if g.mean else []) + [f(q * t) for q in range(1, g.nh + 1) for f in (math.sin, math.cos)])
        elif k == 'kronecker': trow = time_row(g.index)
        elif k == 'annual': trow = time_row(decimal_year(g.when))
        else:
            trow = time_row(g.index)
            C.holds('state', g.m == V + g.nodes)
            if g.m != V + g.nodes: return
            C.holds('initial', np.array_equal(g.x0, [0.0] * V + [1.0] * g.nodes))
            C.holds('derivative', np.allclose(g.J, g.num, atol=1e-6))
            tv = trow.dot(g.state[V:])
            for i in range(n):
                fine = False
                for t, cs, w in sphere_weights(g.mesh, g.x[i]): fine = fine or abs(sum(q * g.state[c] for c, q in zip(cs, w)) * tv - g.f[i]) < 1e-4
                C.holds('factor', fine)
            return
        C.holds('state', g.m == len(trow) * V)
        if g.m != len(trow) * V: return
        # the spatial weights, recovered from the largest temporal weight, are those of the place; the rest is the product
        q = int(np.argmax(np.abs(trow)))
        if abs(trow[q]) < 1e-3: C.holds('no weight in time', np.allclose(g.J, 0, atol=1e-2)); return
        B = g.J.reshape(n, len(trow), V)
        S = B[:, q] / trow[q]
        for i in range(n):
            C.holds('product', np.allclose(B[i], np.outer(trow, S[i]), atol=1e-6)); C.holds('weights', row_ok(g.mesh, g.x[i], S[i]))

@contract
class CovariateFile(Contract):
    """covariates listed in a descriptor: each element is built with its own parameters and paired with the logarithms of its own hyperparameters; unknown covariates are refused"""
    name = 'covariate.descriptor'; prove = False; weight = .2
    functions = tuple(CV + ':LoadCovariateElement.' + n for n in '__init__ check_keys load_covariates_and_hyperparameters load_covariate load_hyperparameters'.split())
    assumptions = ('bounded',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9))
    def case(self, a):
        r = random.Random(a.seed)
        names = r.sample(['latitude_harmonics', 'altitude', 'coastal_influence'], r.randrange(1, 4))
        if r.random() < .25: names.append('albedo')
        r.shuffle(names)
        vals = {n: [r.uniform(.1, 5) for _ in range(4 if n == 'latitude_harmonics' else 1)] for n in names}
        return r, names, vals, {n: r.uniform(.1, 3) for n in names}
    def run(self, M, a):
        r, names, vals, scale = self.case(a)
        d = tempfile.mkdtemp()
        try:
            from netCDF4 import Dataset
            la, lo = np.meshgrid(np.arange(-75, 90, 30.), np.arange(-165, 180, 30.), indexing='ij')
            nc = Dataset(d + '/c.nc', 'w'); nc.createDimension('y', 6); nc.createDimension('x', 12)
            for n, v in (('la', la), ('lo', lo), ('field', la * 0 + 1)): nc.createVariable(n, 'f8', ('y', 'x'))[:] = v
            nc.close()
            desc = {}
            for n in names:
                if n == 'latitude_harmonics': e = {'python_class': LH + '.LatitudeHarmonicsElement'}
                else: e = {'python_class': GB + '.GeographyBasedElement', 'parameters': dict(filename=d + '/c.nc', latitude_label='la', longitude_label='lo', covariate_label='field', rescale_factor=scale[n])}
                desc[n] = {'element': e, 'hyperparameters': {'p%d' % k: v for k, v in enumerate(vals[n])}}
            with open(d + '/d.json', 'w') as f: json.dump(desc, f)
            M(LH), M(GB)
            L = M(CV).LoadCovariateElement(d + '/d.json')
            try: L.check_keys(); bad = False
            except ValueError: bad = True
            if bad: return bad, None
            es, hs = L.load_covariates_and_hyperparameters()
            return bad, [(e.__class__.__name__, getattr(e, 'rescale_factor', None), hasattr(e, 'covariate'), list(h.get_array()), e.element_prior(h).prior_precision().diagonal()) for e, h in zip(es, hs)], len(es), len(hs)
        finally: shutil.rmtree(d)
    def post(self, C, a, out):
        r, names, vals, scale = self.case(a)
        got = out.value
        C.holds('refused', got[0] == ('albedo' in names))
        if got[1] is None: return
        C.holds('number', got[2] == got[3] == len(names))
        left = list(names)
        for cls, sc, loaded, h, q in got[1]:
            for n in left:
                if (n == 'latitude_harmonics') == (cls == 'LatitudeHarmonicsElement') and (sc is None or abs(sc - scale[n]) < 1e-12) and sorted(np.round(h, 9)) == sorted(np.round(np.log(vals[n]), 9)):
                    left.remove(n); C.holds('loaded', loaded == (cls != 'LatitudeHarmonicsElement')); C.holds('prior', np.allclose(q, np.exp(-2 * np.array(h)))); break
            else: C.holds('pairing', False)
        C.holds('each once', not left)
