"""P17 - analysis outputs: sums over components, combined uncertainty, grid cell averages, projections"""
import contextlib, datetime, io, os, shutil, sys, tempfile
import numpy as np
import scipy.sparse
from .. import sym, snp
from ..contract import Contract, NS, Reject, oblige, oblige_forall
from ..load import Inv, SymSeq
from ..smat import SMat
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, Only, elem
from .p15 import mat, same, Problem, Recorder, small, dense, SP, ST, SD, AS, MEM, LS, NULL, quiet

CONTRACTS, contract = contract_list()
ADV = 'eustace.analysis.advanced_standard.'
OR, OP, EL, CMB, BAT = ADV + 'fileio.output_structure_rectilinear', ADV + 'fileio.output_projector', ADV + 'elements.element', ADV + 'elements.combination', ADV + 'components.storage_files_batch'
PRELOAD = (SP, ST, SD, AS, MEM, OR, OP)
F8 = np.float64
ASSUMPTIONS = ('floating-point sums and products are treated as exact real arithmetic in the proofs; the bounded search allows a relative difference of 1e-9',
               'a component with a stored posterior for an output time reports it; a component without one contributes zero, as the code documents',
               'output grids have at least two latitudes and two longitudes, equally spaced in steps that are multiples of 0.001 degrees, away from the poles at the cell centres',
               'the state, samples and priors that a projector is given are those of its component')
MAP, POST, PRIOR = 'MAP', 'post_STD', 'prior_STD'
A_ = AS + ':AnalysisSystem.'

def value(j, i): pass
def fresh(n, f): return snp.from_fn((n,), lambda ix: sym.toreal(lift(f(wrapz(ix[0])))), 'r')

class Sum(Contract):
    """base: a system of any number of components over any number of output locations"""
    early = False
    def setup(self, B):
        a = NS(B=B, nc=B.size('nc', 1, 4), n=B.size('n', 0, 6))
        a.field = B.choice('field', [MAP, POST, PRIOR])
        a.ev = B.func('ev', 2, 'r', gen=lambda r, *k: r.randint(-400, 400) / 8.0); a.un = B.func('un', 2, 'r', gen=lambda r, *k: r.randint(0, 80) / 8.0)
        term = (lambda j, i: a.ev(j, i)) if a.field == MAP else (lambda j, i: a.un(j, i) * a.un(j, i))
        a.sum = B.fold('sum', lambda i: 0, lambda j, v, i: v + term(j, i), 'r', 1)
        a.matrix = B.choice('matrix', [False, True]) if not B.symbolic else False
        a.asked = []
        a.st = NS(number_of_observations=lambda: a.n, time_index=lambda: 7)
        return a
    def give(self, a, f, j, st):
        if a.B.symbolic:
            oblige(self.name + '.structure', st is a.st)
            return fresh(a.n, lambda i: f(j, i))
        a.asked.append(st is a.st)
        v = np.array([f(j, i) for i in range(a.n)], F8)
        return np.matrix(v).T if a.matrix else v
    def component(self, a, j):
        return NS(component_solution=lambda: NS(j=j, sample_size=3, solution_observation_expected_value=lambda st: self.give(a, a.ev, j, st), solution_observation_expected_uncertainties=lambda st: self.give(a, a.un, j, st)))
    def system(self, M, a):
        comps = SymSeq(a.nc, lambda j: self.component(a, j)) if a.B.symbolic else [self.component(a, j) for j in range(a.nc)]
        return M(AS).AnalysisSystem(comps, 'OBS', NULL)
    def get_invariants(self, B, a):
        def inv(view):
            acc = [n for n, v in view.entry.items() if isinstance(v, snp.SArr) and v.code == 'r']
            return Inv(locals={acc[0]: fresh(a.n, lambda i: a.sum(view.k, i))}, facts=[Eq(view.k, 0)] if a.field == PRIOR and self.early else []) if acc else Inv()
        return {'*': inv}
    def check(self, C, a, r):
        C.holds('size', And(len(r.shape) == 1, Eq(r.shape[0], a.n)))
        if not C.symbolic and np.shape(r) != (a.n,): return
        if C.symbolic:
            if a.field == MAP: C.forall('sum', (a.n,), lambda i: Eq(elem(r, i), a.sum(a.nc, i)))
            else: C.forall('root_sum_square', (a.n,), lambda i: Eq(elem(r, i), wrapz(sym.zsqrt(lift(a.sum(a.nc, i))))))
        else:
            w = [a.sum(a.nc, i) for i in range(a.n)]
            C.holds('value', np.allclose(r, w if a.field == MAP else np.sqrt(w), rtol=1e-9, atol=1e-9)); C.holds('structure', all(a.asked))

@contract
class Pointwise(Sum):
    """the value at a location is the sum of the components' values there, the uncertainty the root of the sum of the squares of theirs"""
    name = 'system.pointwise'; functions = (A_ + 'evaluate_pointwise_expected_value', A_ + 'evaluate_expected_value'); early = True
    def run(self, M, a): return self.system(M, a).evaluate_expected_value(a.field, a.st, 'POINTWISE')
    def post(self, C, a, out):
        if a.field == PRIOR: C.holds('refused', out.raises(ValueError)); return
        self.check(C, a, out.value)

@contract
class CellAverage(Sum):
    """grid cell averages: the sum over components of each one's average, or the root of the sum of the squares"""
    name = 'system.cell_average'; functions = (A_ + 'evaluate_grid_cell_average_expected_value', A_ + 'evaluate_single_component_grid_cell_average_expected_value', A_ + 'evaluate_expected_value')
    def setup(self, B):
        a = Sum.setup(self, B); a.points, a.blocking = [B.int('p0', 1, 4), B.int('p1', 1, 4)], B.int('blocking', 1, 9); a.wrong = []
        return a
    def stubs(self, B, a):
        ct = self
        class Regridder:
            def __init__(s, st, points, blocking=100): s.args = (st, points, blocking)
            def compute_gridded_expected_value(s, field, solution):
                st, points, blocking = s.args
                ok = And(st is a.st, len(points) == 2, Eq(points[0], a.points[0]), Eq(points[1], a.points[1]), field == a.field)
                if B.symbolic:
                    oblige(ct.name + '.request', ok); f = a.ev if field == MAP else a.un
                    return fresh(a.n, lambda i: f(solution.j, i))
                if not ok: a.wrong.append(s.args)
                return np.array([(a.ev if field == MAP else a.un)(solution.j, i) for i in range(a.n)], F8)
        return {AS + ':Regridder': Only(Regridder)}
    def run(self, M, a): return self.system(M, a).evaluate_expected_value(a.field, a.st, 'GRID_CELL_AREA_AVERAGE', a.points, a.blocking)
    def post(self, C, a, out):
        if a.field == PRIOR: C.holds('refused', out.raises(ValueError)); return
        self.check(C, a, out.value); C.holds('request', a.wrong == [])

@contract
class Flags(Sum):
    """unknown fields and unknown kinds of output are refused"""
    name = 'system.flags'; functions = (A_ + 'evaluate_expected_value',); weight = .4
    def setup(self, B):
        a = Sum.setup(self, B); a.badfield, a.badflag = B.choice('badfield', [False, True]), B.choice('badflag', [False, True])
        if a.field == PRIOR or (not a.badfield and not a.badflag): raise Reject()
        return a
    def run(self, M, a): return self.system(M, a).evaluate_expected_value('variance' if a.badfield else a.field, a.st, 'CELLWISE' if a.badflag else 'POINTWISE')
    def post(self, C, a, out): C.holds('refused', out.raises(ValueError))

@contract
class Samples(Contract):
    """projected samples: sample by sample sum of the components; different sample sizes refused"""
    name = 'system.projected_sample'; functions = (A_ + 'evaluate_projected_sample',)
    def setup(self, B):
        a = NS(B=B, nc=B.size('nc', 1, 4), n=B.size('n', 0, 5), s=B.choice('s', [1, 2, 3]))
        a.odd = B.choice('odd', [False, False, True])
        a.ev = B.func('ev', 3, 'r', gen=lambda r, *k: r.randint(-400, 400) / 8.0)
        a.sum = B.fold('sum', lambda i, q: 0, lambda j, v, i, q: v + a.ev(j, i, q), 'r', 2)
        a.st = NS(number_of_observations=lambda: a.n); a.asked = []
        return a
    def component(self, a, j):
        size = a.s + (1 if a.odd and j == a.nc - 1 else 0)
        def sample(st):
            if a.B.symbolic:
                oblige('system.projected_sample.structure', st is a.st)
                return snp.from_fn((a.n, a.s), lambda ix: sym.toreal(lift(a.ev(j, wrapz(ix[0]), wrapz(ix[1])))), 'r')
            a.asked.append(st is a.st)
            return np.array([[a.ev(j, i, q) for q in range(size)] for i in range(a.n)], F8).reshape(a.n, size)
        return NS(component_solution=lambda: NS(sample_size=size, solution_observation_projected_sample=sample))
    def get_invariants(self, B, a):
        def inv(view):
            acc = [n for n, v in view.entry.items() if isinstance(v, snp.SArr) and v.code == 'r']
            if not acc: return Inv()
            return Inv(locals={acc[0]: snp.from_fn((a.n, a.s), lambda ix: sym.toreal(lift(a.sum(view.k, wrapz(ix[0]), wrapz(ix[1])))), 'r')})
        return {'*': inv}
    def run(self, M, a):
        if a.B.symbolic and a.nc_c is not None: comps = [self.component(a, j) for j in range(a.nc_c)]
        else: comps = [self.component(a, j) for j in range(a.nc)]
        return M(AS).AnalysisSystem(comps, 'OBS', NULL).evaluate_projected_sample(a.st)
    def post(self, C, a, out):
        if a.odd and a.nc > 1: C.holds('refused', out.raises(ValueError)); return
        r = out.value
        C.holds('shape', And(Eq(r.shape[0], a.n), Eq(r.shape[1], a.s)))
        if C.symbolic: C.forall('sum', (a.n, a.s), lambda i, q: Eq(elem(r, i, q), a.sum(a.nc, i, q)))
        else: C.holds('sum', np.allclose(r, [[a.sum(a.nc, i, q) for q in range(r.shape[1])] for i in range(a.n)] if a.n else np.zeros((0, r.shape[1])), rtol=1e-9, atol=1e-9)); C.holds('structure', all(a.asked))
Samples_setup = Samples.setup
def _samples_setup(self, B):
    a = Samples_setup(self, B)
    a.nc_c = B.choice('ncc', [1, 2, 3]) if B.symbolic else None
    if B.symbolic: a.nc = a.nc_c
    if a.nc == 1: a.odd = False
    return a
Samples.setup = _samples_setup

@contract
class Climatology(Contract):
    """climatology fraction: posterior over prior variance of the one spatial component; missing where there is not exactly one"""
    name = 'system.climatology_fraction'; functions = (A_ + 'evaluate_climatology_fraction', A_ + 'check_spatial_components', A_ + 'evaluate_single_component_grid_cell_average_expected_value')
    def setup(self, B):
        a = NS(B=B, n=B.size('n', 0, 6), kinds=[B.choice('k%d' % k, ['spatial', 'spacetime', 'delayed']) for k in range(B.choice('nc', [1, 2, 3]))])
        a.points, a.blocking = [B.int('p0', 1, 4), B.int('p1', 1, 4)], B.int('blocking', 1, 9); a.wrong = []
        a.post_, a.prior = B.array('post', (a.n,), F8, gen=lambda r: r.randint(0, 80) / 8.), B.array('prior', (a.n,), F8, gen=lambda r: r.randint(1, 80) / 8.)
        if B.symbolic:
            i = sym.z3.Int('ui')
            B.assume(wrapz(sym.z3.ForAll([i], sym.z3.Implies(sym.z3.And(i >= 0, i < lift(a.n)), a.prior.at((i,)) > 0))))
        a.st = NS(number_of_observations=lambda: a.n)
        return a
    def stubs(self, B, a):
        ct = self
        class Regridder:
            def __init__(s, st, points, blocking=100): s.args = (st, points, blocking)
            def compute_gridded_expected_value(s, field, solution):
                st, points, blocking = s.args
                ok = And(st is a.st, len(points) == 2, Eq(points[0], a.points[0]), Eq(points[1], a.points[1]), field in (POST, PRIOR), a.kinds[solution.j] == 'spatial')
                if B.symbolic: oblige(ct.name + '.request', ok)
                elif not ok: a.wrong.append(field)
                return (a.post_ if field == POST else a.prior).copy()
        return {AS + ':Regridder': Only(Regridder)}
    def run(self, M, a):
        def make(j, kind):
            cls = {'spatial': M(SP).SpatialComponent, 'spacetime': M(ST).SpaceTimeComponent, 'delayed': M(SD).DelayedSpatialComponent}[kind]
            c = cls.__new__(cls); c.component_solution = lambda: NS(j=j); return c
        e, sys.stderr = sys.stderr, io.StringIO()
        try: return M(AS).AnalysisSystem([make(j, k) for j, k in enumerate(a.kinds)], 'OBS', NULL).evaluate_climatology_fraction(a.st, a.points, a.blocking)
        finally: sys.stderr = e
    def post(self, C, a, out):
        r = out.value
        C.holds('size', Eq(r.shape[0], a.n)); C.holds('request', a.wrong == [])
        if a.kinds.count('spatial') != 1: C.forall('missing', (a.n,), lambda i: Eq(elem(r, i), -32768)); return
        if C.symbolic: C.forall('fraction', (a.n,), lambda i: Eq(elem(r, i) * elem(a.prior, i) * elem(a.prior, i), elem(a.post_, i) * elem(a.post_, i)))
        else: C.holds('fraction', np.allclose(r, a.post_ ** 2 / a.prior ** 2, rtol=1e-9))

# ------------------------------------------------------------------ what a component reports

class Reported(Contract):
    """uncertainty and samples of a component: its stored ones of that time through the design of those locations, zero while there are none"""
    cls = None; mod = None; partial = True
    def setup(self, B):
        a = NS(P=Problem(B, nonlinear=False), has=B.choice('has', [False, True]), what=B.choice('what', ['unc', 'sample']), s=B.choice('s', [1, 3]))
        a.rect = []
        return a
    def run(self, M, a):
        P, store = a.P, Recorder(None)
        reads = []
        def rd(kind):
            def f(*t): reads.append((kind,) + t); return P.x if a.has and kind == ('std' if a.what == 'unc' else 'sample') else None
            return f
        for n in ('state_marginal_std_read', 'partial_state_marginal_std_read'): setattr(store, n, rd('std'))
        for n in ('state_sample_read', 'partial_state_sample_read'): setattr(store, n, rd('sample'))
        store.state_read = store.partial_state_read = rd('state')
        e = P.element(); de = e.element_design
        def design(obs):
            d = de(obs); f = d.design_function
            def df(state, rectified=False): a.rect.append(bool(rectified)); return f(state)
            d.design_function = df; return d
        e.element_design = design
        a.reads, a.obs = reads, P.observations()
        s = getattr(M(self.mod), self.cls)(e, P.hyper, store, compute_sample=True, sample_size=a.s)
        return (s.solution_observation_expected_uncertainties if a.what == 'unc' else s.solution_observation_projected_sample)(a.obs)
    def post(self, C, a, out):
        r = out.value
        C.holds('own_store', And(*([len(a.reads) > 0] + [x[0] == ('std' if a.what == 'unc' else 'sample') for x in a.reads] + ([Eq(x[1], a.P.t) for x in a.reads] if self.partial else []))))
        if a.has: same(C, 'value', r, a.P.f); C.holds('at_state', a.P.evals == [a.P.x] and a.P.designed == [a.obs] and a.rect == [a.what == 'unc'])
        elif a.what == 'unc': C.forall('zero', (a.P.n,), lambda i: Eq(elem(r, i), 0)); C.holds('size', And(len(r.shape) == 1, Eq(r.shape[0], a.P.n)))
        else: C.forall('zero', (a.P.n, a.s), lambda i, q: Eq(elem(r, i, q), 0)); C.holds('size', And(Eq(r.shape[0], a.P.n), Eq(r.shape[1], a.s)))
def reported(nm, cls_, mod_, part):
    class R(Reported):
        name = nm + '.reported'; cls = cls_; mod = mod_; partial = part
        functions = (mod_ + ':' + cls_ + '.solution_observation_expected_uncertainties', mod_ + ':' + cls_ + '.solution_observation_projected_sample')
    R.__name__ = cls_ + 'Reported'; contract(R)
reported('spatial', 'SpatialComponentSolution', SP, True); reported('spacetime', 'SpaceTimeComponentSolution', ST, False); reported('delayed', 'DelayedSpatialComponentSolution', SD, True)

@contract
class Rectified(Contract):
    """through a linear design: A x, and |A| x for standard deviations; a combination sums its parts"""
    name = 'design.rectified'; functions = (EL + ':ElementLinearDesign.design_function', CMB + ':CombinationDesign.design_function', CMB + ':CombinationDesign.element_states')
    prove = False
    def setup(self, B):
        n = B.size('n', 1, 4)
        a = NS(n=n, parts=[B.array('A%d' % k, (n, B.choice('p%d' % k, [1, 2, 3])), F8, gen=small) for k in range(B.choice('np', [1, 2, 3]))], sparse=B.choice('sparse', [False, True]), rect=B.choice('rect', [False, True]), vec=B.choice('vec', [True, False]))
        p = sum(A.shape[1] for A in a.parts); a.x = B.array('x', (p,), F8, gen=small)
        return a
    def run(self, M, a):
        E = M(EL)
        def lin(A):
            class D(E.ElementLinearDesign):
                def design_number_of_state_parameters(s): return A.shape[1]
                def design_matrix(s): return scipy.sparse.csc_matrix(A) if a.sparse else A
            return D()
        ds = [lin(A) for A in a.parts]
        x = a.x.copy() if a.vec else a.x.reshape(-1, 1).copy()
        d = M(CMB).CombinationDesign(ds)
        return d.design_function(x, a.rect)
    def post(self, C, a, out):
        A = np.hstack(a.parts)
        C.holds('value', np.allclose(np.asarray(out.value).ravel(), (np.abs(A) if a.rect else A).dot(a.x), rtol=1e-9))

# ------------------------------------------------------------------ grid of output locations

@contract
class Grid(Contract):
    """an output grid lists its locations latitude by latitude, longitudes in order"""
    name = 'grid.locations'; functions = (OR + ':OutputRectilinearGridStructure.location_polar_coordinates', OR + ':OutputRectilinearGridStructure.number_of_observations', OR + ':OutputRectilinearGridStructure.time_index', OR + ':OutputRectilinearGridStructure.time_datetime')
    def setup(self, B):
        p, q = B.size('p', 1, 4), B.size('q', 1, 4)
        return NS(p=p, q=q, lat=B.array('lat', (p,), F8), lon=B.array('lon', (q,), F8), t=B.int('t', 0, 99))
    def run(self, M, a):
        g = M(OR).OutputRectilinearGridStructure(a.t, 'DATE', a.lat, a.lon)
        return g.number_of_observations(), g.location_polar_coordinates(), g.time_index(), g.time_datetime()
    def post(self, C, a, out):
        n, c, t, d = out.value
        C.holds('count', Eq(n, a.p * a.q)); C.holds('shape', And(Eq(c.shape[0], a.p * a.q), Eq(c.shape[1], 2))); C.holds('time', And(Eq(t, a.t), d == 'DATE'))
        if C.symbolic:
            C.forall('latitude', (a.p * a.q,), lambda k: Eq(elem(c, k, 0), wrapz(a.lat.at((lift(k // a.q),)))))
            C.forall('longitude', (a.p * a.q,), lambda k: Eq(elem(c, k, 1), wrapz(a.lon.at((lift(k % a.q),)))))
        else: C.holds('location', np.array_equal(c, [(x, y) for x in a.lat for y in a.lon]))

class World:
    """a component solution whose values are given functions of place and time"""
    def __init__(self, r): self.c = [r.uniform(-2, 2) for _ in range(8)]; self.seen = []
    def f(self, kind, lat, lon, t): c = self.c; return (c[0] + kind) * lat + c[1] * lon + c[2] * lat * lon / 90. + c[3] * np.sin(lat * 3) * np.cos(lon * 2) + c[4] * t + kind
    def at(self, kind, st):
        p = st.location_polar_coordinates(); self.seen.append(p); assert p.shape == (st.number_of_observations(), 2)
        return np.array([self.f(kind, x, y, st.time_index()) for x, y in p])
    def solution_observation_expected_value(self, st): return self.at(0, st)
    def solution_observation_expected_uncertainties(self, st): return self.at(1, st)
    def solution_observation_prior_uncertainties(self, st): return self.at(2, st)

def grid(B):
    a = NS(nlat=B.choice('nlat', [2, 3, 4, 5, 7]), nlon=B.choice('nlon', [2, 3, 5]), dlat=B.choice('dlat', [1., .25, 5., .5, 12.]) , dlon=B.choice('dlon', [1., .25, 5., .5]), down=B.choice('down', [False, False, True]), lat0=B.choice('lat0', [-60., -1.3, 0.125, 10.]), lon0=B.choice('lon0', [-179.875, 0., 100., 170.]), t=B.int('t', 0, 60000), r=B.int('r', 0, 10**6))
    a.lat = a.lat0 + a.dlat * np.arange(a.nlat); a.lon = a.lon0 + a.dlon * np.arange(a.nlon)
    if a.down: a.lat = a.lat[::-1].copy()
    return a
def cell(a, k, N):
    y, x = a.lat[k // a.nlon], a.lon[k % a.nlon]
    return [(y + a.dlat * ((2 * i + 1.) / (2 * N[0]) - .5), x + a.dlon * ((2 * j + 1.) / (2 * N[1]) - .5)) for i in range(N[0]) for j in range(N[1])]
def average(a, k, N, f):
    pts = cell(a, k, N); w = [np.cos(np.radians(y)) for y, x in pts]
    return sum(v * f(y, x) for v, (y, x) in zip(w, pts)) / sum(w)

@contract
class CellMeans(Contract):
    """each output row is the area-weighted mean over its own cell, whatever the block size and the direction of the latitudes"""
    name = 'grid.cell_means'; weight = 3; prove = False
    functions = tuple(OR + ':Regridder.' + n for n in ('__init__', 'compute_gridded_expected_value', 'compute_blocked_gridded_expected_value', 'create_sub_cell_grids', 'weighting_factors', 'normalization_factor', 'harmonic_factor')) + tuple(OR + ':RegriddingRectilinearGridStructure.' + n for n in ('rearrange_latitudes', 'rearrange_longitudes', 'location_polar_coordinates', 'number_of_observations'))
    def setup(self, B):
        a = grid(B); a.N = [B.choice('N0', [1, 2, 3, 4]), B.choice('N1', [1, 2, 3])]; a.block = B.choice('block', [1, 2, 3, 4, 5, 6, 100]); a.field = B.choice('field', [MAP, POST, PRIOR, 'other'])
        return a
    def run(self, M, a):
        import random
        a.w = World(random.Random(a.r))
        g = M(OR).OutputRectilinearGridStructure(a.t, 'DATE', a.lat.copy(), a.lon.copy())
        return M(OR).Regridder(g, list(a.N), a.block).compute_gridded_expected_value(a.field, a.w)
    def post(self, C, a, out):
        if a.field == 'other': C.holds('refused', out.raises(ValueError)); return
        r = out.value; kind = [MAP, POST, PRIOR].index(a.field)
        want = [average(a, k, a.N, lambda y, x: a.w.f(kind, y, x, a.t)) for k in range(a.nlat * a.nlon)]
        C.holds('mean', np.shape(r) == (len(want),) and np.allclose(r, want, rtol=1e-8, atol=1e-6 * abs(a.t) + 1e-8))

@contract
class Blocks(Contract):
    """splitting the latitudes into blocks does not change the result: the rows of every block follow each other in the order of the latitudes"""
    name = 'grid.blocks'; functions = (OR + ':Regridder.compute_gridded_expected_value',)
    assumptions = ('block independence is proved for any number of latitudes and any block size, at 1, 2 and 5 longitudes',)
    def setup(self, B):
        a = NS(B=B, n=B.size('n', 2, 7), q=B.choice('q', [1, 2, 5]), block=B.int('block', 1, 9))
        a.lat = B.array('lat', (a.n,), F8); a.f = B.func('f', 2, 'r', gen=lambda r, *k: r.randint(-400, 400) / 8.0) if False else None
        a.lon = np.arange(a.q) * 1.0
        return a
    def row(self, lat, j): return lat * (j + 1) + 10 * j
    def get_invariants(self, B, a):
        def inv(view):
            acc = [n for n, v in view.entry.items() if isinstance(v, (snp.SArr, np.ndarray)) and len(v.shape) == 1 and not (v is a.lat)]
            if len(acc) != 1: return Inv()
            at = lambda i: lift(self.row(wrapz(a.lat.at((lift(i // a.q),))), i % a.q))
            L = {acc[0]: snp.from_fn((view.k * self.step(a) * a.q,), lambda ix: sym.toreal(at(wrapz(ix[0]))), 'r')}
            if isinstance(view.entry.get('index'), int): L['index'] = If(view.k > 0, view.k - 1, 0)
            return Inv(locals=L)
        return {'Regridder.compute_gridded_expected_value': inv}
    def step(self, a): return If(a.block > a.n, a.n, a.block)
    def run(self, M, a):
        R = M(OR).Regridder; ct = self
        class Sub(R):
            def __init__(s): s.latitudes, s.longitudes, s.blocking = a.lat, a.lon, a.block
            def compute_blocked_gridded_expected_value(s, field, bl, lon, sol):
                if a.B.symbolic: oblige('grid.blocks.request', And(field == MAP, lon is a.lon, sol == 'S')); return snp.from_fn((bl.shape[0] * a.q,), lambda ix: sym.toreal(lift(ct.row(wrapz(bl.at((lift(wrapz(ix[0]) // a.q),))), wrapz(ix[0]) % a.q))), 'r')
                return np.array([ct.row(x, j) for x in bl for j in range(a.q)], F8)
        return Sub().compute_gridded_expected_value(MAP, 'S')
    def post(self, C, a, out):
        r = out.value
        C.holds('size', Eq(r.shape[0], a.n * a.q))
        if C.symbolic: C.forall('row', (a.n * a.q,), lambda i: Eq(elem(r, i), self.row(wrapz(a.lat.at((lift(i // a.q),))), i % a.q)))
        else: C.holds('rows', np.array_equal(r, [self.row(x, j) for x in a.lat for j in range(a.q)]))

@contract
class CellRows(Contract):
    """one block: row k is the area-weighted mean over the cell of latitude k div n, longitude k mod n"""
    name = 'grid.cell_rows'; functions = CellMeans.functions; timeout_ms = 4000
    assumptions = ('cell means are proved for any number of latitudes and any places and values, at 2 and 3 longitudes and one or two points per cell',)
    def setup(self, B):
        a = NS(B=B, n=B.size('n', 2, 5), q=B.choice('q', [2, 3]), N=B.choice('N', [[1, 1], [1, 2], [2, 1]] + ([] if B.symbolic else [[2, 2], [3, 2]])))
        a.lat, a.lon = B.array('lat', (a.n,), F8, gen=lambda r: r.randint(-80, 80) * 1.), B.array('lon', (a.q,), F8)
        a.dlat, a.dlon = B.real('dlat', gen=lambda r: r.choice([1., -1., .5])), B.real('dlon', gen=lambda r: r.choice([1., .25]))
        B.assume(a.dlon > 0)
        a.f = sym.uf('field', sym.RS, sym.RS, sym.RS) if B.symbolic else None
        return a
    def value(self, a, y, x): return wrapz(a.f(sym.toreal(lift(y)), sym.toreal(lift(x)))) if a.B.symbolic else np.sin(y) * 3 + x
    def run(self, M, a):
        R = M(OR).Regridder; g = R.__new__(R); ct = self
        g.latitudes, g.longitudes, g.latitude_spacing, g.longitude_spacing, g.Nlat, g.Nlon = a.lat, a.lon, a.dlat, a.dlon, a.N[0], a.N[1]
        g.time_index_number, g.corresponding_datetime, g.field_flags, g.blocking = 5, 'DATE', [MAP, POST, PRIOR], 100
        class W:
            def solution_observation_expected_value(s, st):
                p = st.location_polar_coordinates()
                if not a.B.symbolic: return np.array([ct.value(a, y, x) for y, x in p])
                return snp.from_fn((p.shape[0],), lambda ix: a.f(sym.toreal(p.at((ix[0], sym.z3.IntVal(0)))), sym.toreal(p.at((ix[0], sym.z3.IntVal(1))))), 'r')
        return g.compute_blocked_gridded_expected_value(MAP, a.lat, a.lon, W())
    def post(self, C, a, out):
        r = out.value
        C.holds('size', Eq(r.shape[0], a.n * a.q))
        if not C.symbolic and np.shape(r) != (a.n * a.q,): return
        def row(k):
            y, x = (wrapz(a.lat.at((lift(k // a.q),))), wrapz(a.lon.at((lift(k % a.q),)))) if C.symbolic else (a.lat[k // a.q], a.lon[k % a.q])
            pts = [(y + a.dlat * sym.Fr(2 * i + 1 - a.N[0], 2 * a.N[0]), x + a.dlon * sym.Fr(2 * j + 1 - a.N[1], 2 * a.N[1])) if C.symbolic else (y + a.dlat * (2. * i + 1 - a.N[0]) / (2 * a.N[0]), x + a.dlon * (2. * j + 1 - a.N[1]) / (2 * a.N[1])) for j in range(a.N[1]) for i in range(a.N[0])]
            w = [self.cos(C, p[0]) for p in pts]
            tot = sum(w[1:], w[0]); v = elem(r, k)
            if not C.symbolic: return abs(v - sum(p * self.value(a, *q) for p, q in zip(w, pts)) / tot) <= 1e-9 * (1 + abs(v))
            t = [wrapz(lift(p) / lift(tot)) * self.value(a, *q) for p, q in zip(w, pts)]
            return Implies(Not(Eq(tot, 0)), Eq(v, sum(t[1:], t[0])))
        C.forall('mean', (a.n * a.q,), row)
    def cos(self, C, y):
        return wrapz(lift(snp.cos(snp.radians(y)))) if C.symbolic else np.cos(np.radians(y))

@contract
class Whole(Contract):
    """the whole chain: several components, on a grid, pointwise or averaged; order of components irrelevant"""
    name = 'system.grid_output'; weight = 2; prove = False
    functions = (A_ + 'evaluate_expected_value',)
    def setup(self, B):
        a = grid(B); a.N = [B.choice('N0', [1, 2, 3]), B.choice('N1', [1, 2, 3])]; a.block = B.choice('block', [1, 2, 3, 100]); a.nc = B.choice('nc', [1, 2, 3]); a.field = B.choice('field', [MAP, POST]); a.flag = B.choice('flag', ['POINTWISE', 'GRID_CELL_AREA_AVERAGE']); a.t = a.t % 50
        return a
    def run(self, M, a):
        import random
        r = random.Random(a.r); a.ws = [World(r) for _ in range(a.nc)]
        g = M(OR).OutputRectilinearGridStructure(a.t, 'DATE', a.lat.copy(), a.lon.copy())
        sysm = lambda ws: M(AS).AnalysisSystem([NS(component_solution=(lambda w: lambda: w)(w)) for w in ws], 'OBS', NULL).evaluate_expected_value(a.field, g, a.flag, list(a.N), a.block)
        return sysm(a.ws), sysm(a.ws[::-1])
    def post(self, C, a, out):
        u, v = out.value; kind = 0 if a.field == MAP else 1
        N = a.N if a.flag != 'POINTWISE' else [1, 1]
        parts = np.array([[average(a, k, N, lambda y, x: w.f(kind, y, x, a.t)) for k in range(a.nlat * a.nlon)] for w in a.ws])
        want = parts.sum(0) if kind == 0 else np.sqrt((parts ** 2).sum(0))
        C.holds('value', np.shape(u) == want.shape and np.allclose(u, want, rtol=1e-8, atol=1e-6)); C.holds('order', np.allclose(u, v, rtol=1e-9, atol=1e-9))

# ------------------------------------------------------------------ projector

P_ = OP + ':Projector.'
def projector(M, a): return M(OP).Projector(a.lat, a.lon, [a.dlat, a.dlon], a.t, a.N, a.block)

@contract
class ProjectorRead(Contract):
    """a projector reads the state, samples and prior samples of its component, those of its own time where the component has one state per time"""
    name = 'projector.read'; weight = .5
    functions = (P_ + 'set_component', P_ + 'read_state_solution', P_ + 'read_state_sample', P_ + 'read_prior_sample', P_ + 'update_time_index', P_ + '__init__')
    def setup(self, B): return NS(kind=B.choice('kind', ['spatial', 'indexed', 'spacetime', 'batched', 'other']), t=B.int('t', 0, 60000), t2=B.int('t2', 0, 60000), keep=B.choice('keep', [False, True]), keep2=B.choice('keep2', [False, True]))
    def run(self, M, a):
        a.timed = a.kind in ('spatial', 'indexed')
        base = {'spatial': M(SP).SpatialComponentSolutionStorage, 'indexed': M(BAT).SpatialComponentSolutionStorageIndexed_Files, 'spacetime': M(ST).SpaceTimeComponentSolutionStorage, 'batched': M(BAT).SpaceTimeComponentSolutionStorageBatched_Files, 'other': object}[a.kind]
        class S(base):
            def __init__(s): pass
            def partial_state_read(s, t): return ('state', t)
            def partial_state_sample_read(s, t): return ('sample', t)
            def partial_state_prior_sample_read(s, t): return ('prior', t)
            def state_read(s): return ('state',)
            def state_sample_read(s): return ('sample',)
            def state_prior_sample_read(s): return ('prior',)
        p = M(OP).Projector(np.array([0., 1.]), np.array([0., 1.]), [1., 1.], a.t, [1, 1], 1)
        def go():
            p.design_matrix = 'D'; c = NS(solutionstorage=S())
            p.set_component(c, a.keep); one = (p.state_solution, p.state_samples, p.prior_samples, p.design_matrix, p.component is c)
            p.design_matrix = 'E'; p.update_time_index(a.t2, a.keep2); d = p.design_matrix
            p.set_component(c, True)
            return one, d, (p.state_solution, p.state_samples, p.prior_samples, p.time_index, p.corresponding_datetime)
        return quiet(go)
    def post(self, C, a, out):
        if a.kind == 'other': C.holds('refused', out.raises(TypeError)); return
        one, d, two = out.value
        w = lambda t: tuple((n, t) if a.timed else (n,) for n in ('state', 'sample', 'prior'))
        eq = lambda x, y: And(len(x) == len(y), *[eq(p, q) if isinstance(q, tuple) else (p == q if q is None or isinstance(q, (str, bool)) else Eq(p, q)) for p, q in zip(x, y)])
        C.holds('read', eq(one, w(a.t) + ('D' if a.keep else None, True))); C.holds('design', d == ('E' if a.keep2 else None))
        C.holds('later', eq(two[:4], w(a.t2) + (a.t2,)))
        if not C.symbolic: C.holds('date', two[4] == datetime.datetime(1850, 1, 1) + datetime.timedelta(days=a.t2))

@contract
class Project(Contract):
    """projections apply the design: to the state, to the samples chosen, row by row"""
    name = 'projector.project'; functions = (P_ + 'project_expected_value', P_ + 'project_sample_values')
    def setup(self, B):
        n, p, s = (B.size(x, 1, 5) for x in 'nps')
        return NS(D=mat(B, 'D', (n, p)), x=mat(B, 'x', (p, 1), sparse=False), S=mat(B, 'S', (p, s), sparse=False), s=s, has=B.choice('has', [False, True]), which=B.choice('which', ['default', None, 'list']) if not B.symbolic else None)
    def run(self, M, a):
        P = M(OP).Projector; q = P.__new__(P)
        q.design_matrix = a.D; q.state_solution = a.x if a.has else None; q.state_samples = a.S if a.has else None
        a.sel = list(range(a.s))[::2] if a.which == 'list' else None
        k = () if a.which == 'default' else (a.sel,)
        return q.project_expected_value(), q.project_sample_values(*k)
    def post(self, C, a, out):
        v, s = out.value
        if not a.has: C.holds('none', v is None and s is None); return
        same(C, 'value', v, a.D.dot(a.x)); same(C, 'samples', s, a.D.dot(a.S if a.sel is None else a.S[:, a.sel]))

@contract
class ProjectStd(Contract):
    """spread of the projected samples, the same for every number of blocks"""
    name = 'projector.spread'; prove = False; weight = 2; functions = (P_ + 'project_sample_std', P_ + 'project_sample_deviation')
    def setup(self, B):
        n, p, s = B.size('n', 1, 9), B.size('p', 1, 4), B.size('s', 1, 5)
        return NS(D=B.array('D', (n, p), F8, gen=small), x=B.array('x', (p, 1), F8, gen=small), S=B.array('S', (p, s), F8, gen=small), Q=B.array('Q', (p, s), F8, gen=small), prior=B.choice('prior', [False, True]), block=B.choice('block', [1, 1, 2, 3, 4, 5, 7, 100]), has=B.choice('has', [True, True, True, False]), dev=B.choice('dev', [False, True]))
    def run(self, M, a):
        P = M(OP).Projector; q = P.__new__(P)
        q.design_matrix = scipy.sparse.csr_matrix(a.D); q.state_solution = a.x if a.has else None; q.state_samples, q.prior_samples, q.blocking = (a.S if a.has else None), (a.Q if a.has else None), a.block
        return quiet(lambda: (q.project_sample_deviation if a.dev else q.project_sample_std)(prior=a.prior))
    def post(self, C, a, out):
        r = out.value
        if not a.has: C.holds('none', r is None); return
        y = a.D.dot(a.Q if a.prior else a.S)
        w = np.sqrt((y ** 2).mean(1)) if a.dev else y.std(1)
        C.holds('spread', np.shape(r) == (len(w), 1) and np.allclose(r[:, 0], w, rtol=1e-9, atol=1e-12))

@contract
class ProjectDesign(Contract):
    """the projector's design: each row the area-weighted mean, over its own cell, of the component's design; saved and loaded unchanged"""
    name = 'projector.design'; prove = False; weight = 2; functions = (P_ + 'evaluate_design_matrix', P_ + 'weight_array', P_ + 'save_projection', P_ + 'load_projection')
    def setup(self, B):
        a = grid(B); a.N = [B.choice('N0', [1, 2, 3]), B.choice('N1', [1, 2, 3])]; a.block = 1; a.t = a.t % 50; a.p = B.choice('p', [1, 3]); a.save = B.choice('save', [False, False, True]); a.twice = B.choice('twice', [False, True])
        return a
    def f(self, y, x, t, j): return np.sin(y * (j + 1)) + x * .01 * j + t + j
    def run(self, M, a):
        ct = self
        class Design:
            def __init__(s, st): s.st = st
            def design_matrix(s): return scipy.sparse.csc_matrix([[ct.f(y, x, s.st.time_index(), j) for j in range(a.p)] for y, x in s.st.location_polar_coordinates()])
        comp = NS(storage=NS(element_read=lambda: NS(element_design=lambda st: Design(st))))
        a.lat1, a.lon1 = a.lat.copy(), a.lon.copy()
        q = M(OP).Projector(a.lat1, a.lon1, [a.dlat, a.dlon], a.t, a.N, a.block); q.component = comp
        def go():
            q.evaluate_design_matrix(); 
            if a.twice: q.evaluate_design_matrix()
            D = q.design_matrix.toarray()
            if not a.save: return D
            q.component = None
            d = tempfile.mkdtemp(prefix='vf_p17_')
            try:
                q.save_projection(os.path.join(d, 'x')); z = M(OP).Projector.load_projection(os.path.join(d, 'x'))
            finally: shutil.rmtree(d)
            a.z = z; return z.design_matrix.toarray()
        return quiet(go)
    def post(self, C, a, out):
        D = out.value
        want = [[average(a, k, a.N, lambda y, x: self.f(y, x, a.t, j)) for j in range(a.p)] for k in range(a.nlat * a.nlon)]
        C.holds('design', np.shape(D) == np.shape(want) and np.allclose(D, want, rtol=1e-8, atol=1e-8))
        C.holds('inputs_kept', np.array_equal(a.lat, a.lat1) and np.array_equal(a.lon, a.lon1))
        if a.save: C.holds('saved', a.z.time_index == a.t and np.array_equal(a.z.centre_latitudes, a.lat) and np.array_equal(a.z.centre_longitudes, a.lon) and list(a.z.cell_sampling) == list(a.N))
