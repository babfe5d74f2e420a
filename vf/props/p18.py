"""P18 - observations as the analysis sees them"""
import contextlib, datetime, io
import numpy as np
from .. import sdt, sym, snp
from ..contract import Contract, NS, Reject
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, Only, elem
from .p04 import size, at

CON = 'eustace.analysis.advanced_standard.fileio.observation_structure_source_connector'
EFF = 'eustace.analysis.advanced_standard.fileio.observation_source_surface_effects'
OBS = 'eustace.analysis.observationsource'
BIL = 'eustace.analysis.advanced_standard.elements.bias_insitu_land'
BIA = 'eustace.analysis.advanced_standard.elements.bias'
CONTRACTS, contract = contract_list()
ASSUMPTIONS = ('break points are listed station by station, stations increasing and times increasing within a station, as the break-point files are; observations of a day are listed by increasing station, each station once',)
F8 = 'f8'
C_ = CON + ':ObservationStructureSourceConnector.'

def same(a, b, tol=1e-9):
    if sym._symbolic(a, b): return Eq(a, b)
    return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))
class Source:
    def __init__(self, obs, lookup, names=()): self.o, self.l = obs, lookup; self.filespecs = {k: NS(filename=n) for k, n in enumerate(names)}
    def observation_location_lookup(self): return self.l
    def observations(self, observable): return self.o[observable]
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)

class ConBase(Contract):
    def setup(self, B):
        n, L = B.size('n', 0, 7), B.size('L', 1, 6)
        a = NS(n=n, L=L, day=B.int('day', 0, 60000))
        a.mask = B.array('mask', (n,), bool)
        a.loc = B.array('loc', (n,), np.int64, 0, L - 1) if B.symbolic else B.array('loc', (n,), np.uint64, gen=lambda r: r.randrange(L))
        if B.symbolic:
            i = sym.z3.Int('li')
            B.assume(wrapz(sym.z3.ForAll([i], sym.z3.Implies(sym.z3.And(i >= 0, i < lift(n)), sym.z3.And(a.loc.at((i,)) >= 0, a.loc.at((i,)) < lift(L))))))
        a.table = B.array('table', (2, L), F8, gen=lambda r: r.choice([-90., 0., 45.5, 89., 179.99, 180., 180.01, 270., 359.9, -180., -45.]))
        if not B.symbolic: a.table[0] = np.clip(a.table[0], -90, 90)
        a.value = B.array('value', (n,), F8, gen=lambda r: r.uniform(200, 320)); a.unc = B.array('unc', (n,), F8, gen=lambda r: r.uniform(.01, 5))
        return a
    def make(self, M, a, names=()):
        o = M(OBS).Observations(a.mask.copy(), a.day, a.loc.copy(), a.value.copy(), a.unc.copy(), [])
        return M(CON).ObservationStructureSourceConnector(Source({'Tmean': o}, a.table.copy(), names), 'Tmean', 'DATE')
    def valid(self, C, a):
        if C.symbolic:
            p = snp.compress_of(~a.mask)
            return p.count, lambda k: wrapz(p.sel(lift(k))[0]), lambda x, k: wrapz(x.at((p.sel(lift(k))[0],)))
        I = [i for i in range(a.n) if not a.mask[i]]
        return len(I), lambda k: I[k], lambda x, k: x[I[k]]

@contract
class Vector(ConBase):
    """only the valid observations, in order"""
    name = 'connector.vector'; functions = (C_ + '__init__', C_ + 'number_of_observations', C_ + 'observation_vector', C_ + 'time_index', C_ + 'time_datetime')
    def run(self, M, a):
        c = self.make(M, a)
        return c.number_of_observations(), c.observation_vector(), c.time_index(), c.time_datetime()
    def post(self, C, a, out):
        n, v, t, d = out.value
        N, sel, src = self.valid(C, a)
        C.holds('count', Eq(n, N)); C.holds('size', Eq(size(v), N)); C.holds('time', And(Eq(t, a.day), d == 'DATE'))
        if not C.symbolic and size(v) != N: return
        C.forall('value', (N,), lambda k: same(at(v, k), src(a.value, k)))

@contract
class Precision(ConBase):
    """precision: diagonal, one over the squared uncertainty of each valid observation"""
    name = 'connector.precision'; functions = (C_ + 'observation_precision',)
    def setup(self, B):
        a = ConBase.setup(self, B)
        if B.symbolic:
            i = sym.z3.Int('ui')
            B.assume(wrapz(sym.z3.ForAll([i], sym.z3.Implies(sym.z3.And(i >= 0, i < lift(a.n)), a.unc.at((i,)) > 0))))
        return a
    def stubs(self, B, a):
        if not B.symbolic: return {}
        import types
        return {CON + ':scipy': Only(types.SimpleNamespace(sparse=types.SimpleNamespace(diags=lambda d, *o, **k: NS(diagonal=d, offsets=o, format=k.get('format')))))}
    def run(self, M, a): return self.make(M, a).observation_precision()
    def post(self, C, a, out):
        Q = out.value
        N, sel, src = self.valid(C, a)
        if C.symbolic:
            C.holds('diagonal_only', Q.offsets in ((), (0,)))
            d = Q.diagonal
            C.holds('size', Eq(size(d), N)); C.forall('precision', (N,), lambda k: Eq(at(d, k) * src(a.unc, k) * src(a.unc, k), 1))
        else:
            Q = Q.toarray()
            C.holds('shape', Q.shape == (N, N))
            if Q.shape != (N, N): return
            C.holds('precision', np.allclose(Q, np.diag([1. / float(src(a.unc, k)) ** 2 for k in range(N)]) if N else np.zeros((0, 0)), rtol=1e-9))

@contract
class Places(ConBase):
    """coordinates of each valid observation, longitudes from 180 on counted westwards"""
    name = 'connector.locations'; functions = (C_ + 'location_polar_coordinates',)
    def run(self, M, a):
        c = self.make(M, a)
        p = c.location_polar_coordinates()
        return p, c.location_polar_coordinates(), c.location_lookup
    def post(self, C, a, out):
        p, again, table = out.value
        N, sel, src = self.valid(C, a)
        C.holds('shape', And(Eq(p.shape[0], N), Eq(p.shape[1], 2)))
        if not C.symbolic and tuple(p.shape) != (N, 2): return
        def ok(q, k):
            l = src(a.loc, k)
            lat, lon = (wrapz(a.table.at((lift(0), lift(l)))), wrapz(a.table.at((lift(1), lift(l))))) if C.symbolic else (a.table[0, int(l)], a.table[1, int(l)])
            return And(same(elem(q, k, 0), lat), same(elem(q, k, 1), If(lon >= 180, lon - 360, lon)))
        C.forall('place', (N,), lambda k: ok(p, k)); C.forall('again', (N,), lambda k: ok(again, k))
        if not C.symbolic: C.holds('table_unchanged', np.array_equal(table, a.table))

def breaks(B, nmax=10):
    """a break-point table grouped by station"""
    rows = []
    for s in range(1, 7):
        t = sorted(set(B.int('t%d_%d' % (s, k), 0, 9) * 10 + B.choice('f%d_%d' % (s, k), [0, 5]) for k in range(B.choice('n%d' % s, [0, 0, 1, 2, 3]))))
        rows += [(v, s, B.int('l%d_%d' % (s, k), 0, 127)) for k, v in enumerate(t)]
    return rows
def wanted(rows, t, stations):
    w = []
    for j, s in enumerate(stations):
        later = [i for i, r in enumerate(rows) if r[1] == s + 1 and r[0] > t]
        if later: w.append((j, min(later, key=lambda i: rows[i][0])))
    return w
def table(M, rows): return M(OBS).ObservationsBreakPoints(np.array([r[0] for r in rows], np.int32), np.array([r[1] for r in rows], np.int32), np.array([r[2] for r in rows], np.int8))
def stations(B):
    s = [k for k in range(8) if B.choice('s%d' % k, [True, True, False])]
    return s

@contract
class BreakEffect(Contract):
    """each observation of a station is linked with the next break point of that station after the day; none after the last"""
    name = 'effect.breakpoints'; functions = (EFF + ':insitu_land_covariate_effect',)
    prove = False; weight = 4
    def setup(self, B):
        return NS(rows=breaks(B), st=stations(B), t=B.int('t', 0, 20) * 5, arr=B.choice('arr', [False, True]), one=B.choice('one', [None, None, None, 1, 2]))
    def run(self, M, a):
        if a.one: a.rows = [r for r in a.rows if r[1] == a.one]
        return quiet(M(EFF).insitu_land_covariate_effect, np.array([a.t] * max(1, len(a.st)), float) if a.arr else a.t, np.array(a.st, np.uint64), table(M, a.rows))
    def post(self, C, a, out):
        e = out.value; w = wanted(a.rows, a.t, a.st)
        if e is None: C.holds('none', not w); return
        C.holds('effect', np.shape(e) == (len(w), 2) and sorted((int(x), int(y)) for x, y in e) == sorted(w))

@contract
class SatelliteEffects(Contract):
    """one global bias for every observation; two hemispheric ones, the second south of the equator"""
    name = 'effect.satellite'; functions = (EFF + ':global_satellite_effect', EFF + ':hemispheric_satellite_effect')
    def setup(self, B):
        n = B.size('n', 0, 6)
        return NS(n=n, idx=B.array('idx', (n,), np.int64, 0, 50), lat=B.array('lat', (n,), F8, gen=lambda r: r.choice([-90., -1e-9, 0., -0., 1e-9, 45., -45.])))
    def run(self, M, a): return M(EFF).global_satellite_effect(a.idx.copy()), M(EFF).hemispheric_satellite_effect(a.idx.copy(), a.lat.copy())
    def post(self, C, a, out):
        g, h = out.value
        for nm, x in (('global', g), ('hemispheric', h)): C.holds(nm + '_shape', And(Eq(x.shape[0], a.n), Eq(x.shape[1], 2)))
        one = lambda v: If(v, 1, 0)
        C.forall('observation', (a.n,), lambda k: And(Eq(elem(g, k, 0), k), Eq(elem(h, k, 0), k)))
        C.forall('global', (a.n,), lambda k: Eq(elem(g, k, 1), 0))
        C.forall('hemisphere', (a.n,), lambda k: Eq(elem(h, k, 1), one(at(a.lat, k) < 0)))

@contract
class Dispatch(ConBase):
    """the effect of a group applies to the observations of that source only"""
    name = 'connector.covariate_effect'; functions = (C_ + 'covariate_effect', C_ + 'check_all_candidates', EFF + ':insitu_land_covariate_effect', EFF + ':global_satellite_effect', EFF + ':hemispheric_satellite_effect')
    prove = False; weight = 2
    NAMES = ['insitu_land', 'insitu_ocean', 'surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice']
    def setup(self, B):
        a = ConBase.setup(self, B)
        a.src = B.choice('src', self.NAMES); a.group = B.choice('group', ['same', 'same', 'same', 'other', 'unknown']); a.rows = breaks(B); a.kw = B.choice('kw', [True, True, False]); a.extra = B.choice('extra', [0, 0, 1, 2])
        k = min(a.n, a.L); a.n = k
        if a.src == 'insitu_land': a.loc = np.array(sorted(set(int(v) for v in a.loc[:k])), np.uint64)
        k = len(a.loc[:k]); a.n = k; a.loc = a.loc[:k]; a.mask = a.mask[:k]; a.value = a.value[:k]; a.unc = a.unc[:k]
        a.day = a.day % 100
        return a
    def run(self, M, a):
        names = ['/p/q/%s_Tmean_18750612.bin' % a.src] + (['/p/%s_Tmin_20000101.bin' % a.src] if a.extra == 1 else ['/p/%s_Tmin_20000101.bin' % self.NAMES[(self.NAMES.index(a.src) + 1) % 5]] if a.extra == 2 else [None])
        a.mixed = a.extra == 2
        g = {'insitu_land': 'insitu_land', 'insitu_ocean': 'insitu_ocean'}
        own = g.get(a.src, a.src + '_global')
        nxt = self.NAMES[(self.NAMES.index(a.src) + 2) % 5]
        a.g = {'same': own, 'other': g.get(nxt, nxt + '_global'), 'unknown': 'nothing_known'}[a.group]
        kw = {'breakpoints': table(M, a.rows)} if a.g == 'insitu_land' and a.kw else {}
        return quiet(self.make(M, a, names).covariate_effect, a.g, **kw)
    def post(self, C, a, out):
        if a.group == 'unknown': C.holds('unknown_refused', out.raises(ValueError)); return
        e = out.value
        N, sel, src = self.valid(C, a)
        if a.group == 'other' or a.mixed or a.g == 'insitu_ocean' or (a.g == 'insitu_land' and not a.kw): C.holds('none', e is None); return
        if a.g == 'insitu_land': w = wanted(a.rows, a.day, [int(src(a.loc, k)) for k in range(N)])
        elif a.g == 'surfaceairmodel_ice_global': w = [(k, int(a.table[0, int(src(a.loc, k))] < 0)) for k in range(N)]
        else: w = [(k, 0) for k in range(N)]
        C.holds('effect', (e is None and not w) or (e is not None and sorted((int(x), int(y)) for x, y in e) == sorted(w)))

@contract
class LandBias(Contract):
    """the bias element: one bias per break point that meets the policy, a design with a one exactly where an observation is linked with a break point"""
    name = 'element.insitu_land_bias'; functions = (BIL + ':InsituLandBiasElement.__init__', BIL + ':InsituLandBiasElement.element_design', BIL + ':InsituLandBiasDesign.__init__', BIL + ':InsituLandBiasDesign.design_matrix', BIL + ':InsituLandBiasDesign.design_number_of_state_parameters', BIA + ':BiasElement.__init__')
    prove = False; weight = 2
    def setup(self, B): return NS(rows=breaks(B), st=stations(B), t=B.int('t', 0, 20) * 5, policy=B.choice('policy', [False, True]), cut=B.choice('cut', [0, 40, 64, 127]), mask=[B.choice('m%d' % k, [False, False, True]) for k in range(8)])
    def stubs(self, B, a):
        class Reader:
            def __init__(s, f): a.file = f; s.dataset = NS(close=lambda: None)
            def observations(s, o): a.asked = o; return table(a.M, a.rows)
        return {BIL + ':ObservationBreakPointSourceInsituLand': Only(Reader)}
    def run(self, M, a):
        a.M = M
        e = quiet(M(BIL).InsituLandBiasElement, 'BREAKS', a.policy, a.cut)
        n = len(a.st)
        o = M(OBS).Observations(np.array(a.mask[:n], bool), a.t, np.array(a.st, np.uint64), np.arange(n, dtype=float), np.ones(n), [])
        c = M(CON).ObservationStructureSourceConnector(Source({'Tmean': o}, np.zeros((2, 8)), ['/x/insitu_land_Tmean_18750612.bin']), 'Tmean', 'DATE')
        d = quiet(e.element_design, c)
        return e.number_of_biases, d.design_number_of_state_parameters(), d.design_matrix().toarray()
    def post(self, C, a, out):
        nb, ns, D = out.value
        rows = [r for r in a.rows if not a.policy or r[2] >= a.cut]
        st = [s for s, m in zip(a.st, a.mask) if not m]
        C.holds('biases', int(nb) == len(rows) and int(ns) == len(rows) and a.file == 'BREAKS' and a.asked == 'merged_break')
        W = np.zeros((len(st), len(rows)))
        for j, i in wanted(rows, a.t, st): W[j, i] = 1
        C.holds('design', D.shape == W.shape and np.array_equal(D, W))
