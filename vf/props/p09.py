"""P09 - observation sets and their sources"""
import datetime, gzip, os, tempfile, types
import numpy as np
from .. import sdt, sym, snp
from ..contract import Contract, NS, Reject
from ..load import Inv, SymSeq
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, Only, elem
from .p04 import size, at

OBS = 'eustace.analysis.observationsource'
MISS = 'eustace.analysis.fileio.observationsource_missing'
LAND = 'eustace.preprocess.fileio.insitu_land'
HGT = 'eustace.preprocess.fileio.height_adjustment'
BRK = 'eustace.preprocess.fileio.insitu_land_breakpoints'
SEA = 'eustace.preprocess.fileio.insitu_ocean'
CUBE = 'eustace.surfaceairmodel.fileio.cubemap'
ICE = 'eustace.surfaceairmodel.fileio.ice'
LAKE = 'eustace.surfaceairmodel.fileio.lake'
DAILY = 'eustace.analysis.preparedailyfixed'
CONTRACTS, contract = contract_list()
F8 = 'f8'

def same(a, b, tol=1e-5):
    if sym._symbolic(a, b): return Eq(a, b)
    a, b = float(a), float(b)
    if np.isnan(a) or np.isnan(b): return np.isnan(a) and np.isnan(b)
    return abs(a - b) <= tol * (1 + abs(b))
def obsset(B, p, n, ncorr, locgen=None, small=True):
    """the arrays of an observation set of n observations"""
    a = NS(n=n)
    a.mask = B.array(p + 'mask', (n,), bool); a.loc = B.array(p + 'loc', (n,), np.int64, 0, 9 if not B.symbolic else None, gen=locgen)
    a.value = B.array(p + 'value', (n,), F8); a.unc = B.array(p + 'unc', (n,), F8, 0, 50); a.corr = [B.array(p + 'corr%d' % k, (n,), F8, 0, 50) for k in range(ncorr)]
    return a
def build(M, a, time):
    c = lambda x: x.copy()
    return M(OBS).Observations(c(a.mask), time, c(a.loc), c(a.value), c(a.unc), [c(x) for x in a.corr])

@contract
class Append(Contract):
    """append: all observations of both, in order, the second's locations shifted; refused on different time or number of correlated components"""
    name = 'observations.append'; functions = (OBS + ':Observations.append', OBS + ':Observations.__init__', OBS + ':Observations.number_of_observations')
    def setup(self, B):
        nc, mc = B.choice('nc', [0, 1, 2]), B.choice('mc', [0, 1, 2])
        a = NS(nc=nc, mc=mc, x=obsset(B, 'x', B.size('n', 0), nc), y=obsset(B, 'y', B.size('m', 0), mc))
        a.tx, a.ty = B.int('tx', 0, 3 if not B.symbolic else None), B.int('ty', 0, 3 if not B.symbolic else None)
        if not B.symbolic and B.choice('sametime', [True, True, False]): a.ty = a.tx
        a.off = B.int('off', 0)
        return a
    def run(self, M, a):
        x, y = build(M, a.x, a.tx), build(M, a.y, a.ty)
        x.append(y, a.off)
        return x, y
    def post(self, C, a, out):
        if out.raised:
            if not out.raises(ValueError): out.value
            C.holds('refused', Or(Not(Eq(a.tx, a.ty)), a.nc != a.mc)); return
        C.holds('accepted', And(Eq(a.tx, a.ty), a.nc == a.mc))
        if a.nc != a.mc: return
        x, y = out.value
        n, m = a.x.n, a.y.n
        C.holds('time', Eq(x.time, a.tx))
        for nm, got, p, q in [('mask', x.mask, a.x.mask, a.y.mask), ('location', x.location, a.x.loc, a.y.loc), ('value', x.measurement, a.x.value, a.y.value), ('uncertainty', x.uncorrelatederror, a.x.unc, a.y.unc)] + \
                [('correlated%d' % k, x.locallycorrelatederror[k], a.x.corr[k], a.y.corr[k]) for k in range(a.nc)]:
            C.holds(nm + '_size', Eq(size(got), n + m))
            if not C.symbolic and size(got) != n + m: continue
            o = a.off if nm == 'location' else 0
            e = (lambda u, v: Eq(u, v)) if nm == 'mask' else same
            C.forall(nm + '_first', (n,), lambda k: e(at(got, k), at(p, k)))
            C.forall(nm + '_second', (m,), lambda k: e(at(got, n + k), (at(q, k) + o) if nm == 'location' else at(q, k)))
        C.holds('components', len(x.locallycorrelatederror) == a.nc)
        C.forall('other_unchanged', (m,), lambda k: And(Eq(at(y.location, k), at(a.y.loc, k)), same(at(y.measurement, k), at(a.y.value, k))))
        C.holds('count', Eq(x.number_of_observations(), n + m))

@contract
class Mean(Contract):
    """mean: the locations in common, valid where both are, mean value, root mean square uncertainties"""
    name = 'observations.mean'; functions = (OBS + ':Observations.mean',)
    assumptions = ('location identifiers are not repeated within a set (so that both sides have equally many common locations: a fact about finite sets used as a lemma)', 'an observation set has one time, as the sources give it')
    weight = 2
    def setup(self, B):
        nc = B.choice('nc', [0, 1, 2]); mc = B.choice('mc', [0, 1, 2]) if not B.symbolic else nc
        n, m = B.size('n', 0, 7), B.size('m', 0, 7)
        a = NS(nc=nc, mc=mc, x=obsset(B, 'x', n, nc), y=obsset(B, 'y', m, mc), times='scalar')
        if B.symbolic:
            B.assume(Eq(snp.compress_of(snp.isin(a.x.loc, a.y.loc)).count, snp.compress_of(snp.isin(a.y.loc, a.x.loc)).count))   # two sets without repetitions have equally many common elements on either side
        else:
            kind = B.choice('kind', ['sorted', 'sorted', 'any', 'equal'])
            pool = [B.int('p%d' % k, 0, 1) for k in range(10)]
            lx = sorted(set(int(v) for v in a.x.loc)); ly = sorted(set(int(v) for v in a.y.loc))
            if kind == 'any': lx = list(dict.fromkeys(int(v) for v in a.x.loc)); ly = list(dict.fromkeys(int(v) for v in a.y.loc))
            if kind == 'equal': ly = list(lx)
            for s, l in ((a.x, lx), (a.y, ly)):
                k = len(l)
                if len(s.loc) < k:
                    raise Reject()
                s.loc = np.array(l, np.int64); s.n = k; s.mask = s.mask[:k]; s.value = s.value[:k]; s.unc = s.unc[:k]; s.corr = [c[:k] for c in s.corr]
        a.tx, a.ty = B.int('tx', 0, 3 if not B.symbolic else None), B.int('ty', 0, 3 if not B.symbolic else None)
        if not B.symbolic and B.choice('sametime', [True, True, False]): a.ty = a.tx
        return a
    def run(self, M, a):
        tx, ty = (a.tx, a.ty) if a.times == 'scalar' else (np.full(a.x.n, a.tx, float), np.full(a.y.n, a.ty, float))
        return M(OBS).Observations.mean(build(M, a.x, tx), build(M, a.y, ty))
    def common(self, a):
        lx, ly = [int(v) for v in a.x.loc], [int(v) for v in a.y.loc]
        return [i for i, l in enumerate(lx) if l in ly], [j for j, l in enumerate(ly) if l in lx]
    def post(self, C, a, out):
        if C.symbolic: return self.post_symbolic(C, a, out)
        I, J = self.common(a)
        order = [int(a.x.loc[i]) for i in I] == [int(a.y.loc[j]) for j in J]
        timesok = a.tx == a.ty or (a.times == 'array' and not I)
        if out.raised:
            C.holds('refused', out.raises(ValueError) and not (order and timesok and a.nc == a.mc)); return
        C.holds('accepted', order and timesok and a.nc == a.mc)
        if not (order and timesok and a.nc == a.mc): return
        r = out.value; K = len(I)
        fields = [r.mask, r.location, r.measurement, r.uncorrelatederror] + list(r.locallycorrelatederror) + ([r.time] if a.times == 'array' else [])
        C.holds('aligned', all(np.shape(f) == (K,) for f in fields) and len(r.locallycorrelatederror) == a.nc)
        if any(np.shape(f) != (K,) for f in fields): return
        for k, (i, j) in enumerate(zip(I, J)):
            C.holds('location', int(r.location[k]) == int(a.x.loc[i])); bad = bool(a.x.mask[i]) or bool(a.y.mask[j])
            C.holds('valid_when_both_are', bool(r.mask[k]) == bad)
            if bad: continue
            C.holds('mean', same(r.measurement[k], .5 * (a.x.value[i] + a.y.value[j])))
            C.holds('uncertainty', same(r.uncorrelatederror[k], np.sqrt(.5 * (a.x.unc[i] ** 2 + a.y.unc[j] ** 2))))
            for c in range(a.nc): C.holds('correlated', same(r.locallycorrelatederror[c][k], np.sqrt(.5 * (a.x.corr[c][i] ** 2 + a.y.corr[c][j] ** 2))))
        C.holds('time', bool(np.all(np.asarray(r.time) == a.tx)))
    def post_symbolic(self, C, a, out):
        if out.raised: return
        r = out.value
        C.holds('times_equal', Eq(a.tx, a.ty)); C.holds('time', Eq(r.time, a.tx))
        p, q = snp.compress_of(snp.isin(a.x.loc, a.y.loc)), snp.compress_of(snp.isin(a.y.loc, a.x.loc))
        C.holds('size', And(Eq(size(r.location), p.count), Eq(size(r.mask), p.count), Eq(size(r.measurement), p.count), Eq(size(r.uncorrelatederror), p.count)))
        def g(k):
            i, j = p.sel(lift(k))[0], q.sel(lift(k))[0]
            A = lambda x, i: wrapz(x.at((i,)))
            bad = Or(A(a.x.mask, i), A(a.y.mask, j))
            cs = [Eq(at(r.location, k), A(a.x.loc, i)), Eq(A(a.x.loc, i), A(a.y.loc, j)), Eq(at(r.mask, k), bad), Implies(Not(bad), Eq(at(r.measurement, k) * 2, A(a.x.value, i) + A(a.y.value, j)))]
            rms = lambda f, u, v: And(at(f, k) >= 0, Eq(at(f, k) * at(f, k) * 2, A(u, i) * A(u, i) + A(v, j) * A(v, j)))
            return cs, [rms(r.uncorrelatederror, a.x.unc, a.y.unc)] + [rms(f, u, v) for f, u, v in zip(r.locallycorrelatederror, a.x.corr, a.y.corr)]
        for n, nm in enumerate(['location', 'paired', 'valid_when_both_are', 'mean']): C.forall(nm, (p.count,), lambda k, n=n: g(k)[0][n])
        for n in range(1 + a.nc): C.forall('uncertainty%d' % n, (p.count,), lambda k, n=n: g(k)[1][n])
        # completeness: a location of both sets appears
        C.forall('complete', (a.x.n, a.y.n), lambda i, j: Implies(Eq(at(a.x.loc, i), at(a.y.loc, j)), And(p.rank(i) >= 0, p.rank(i) < p.count)))

def breakset(B, n):
    a = NS(n=n)
    a.time = B.array('btime', (n,), np.int32, 0, 60000); a.station = B.array('bstation', (n,), np.int32, 0, 5 if not B.symbolic else None); a.like = B.array('blike', (n,), np.int8, 0, 127)
    return a
@contract
class BreakPolicies(Contract):
    """the policies keep exactly the break points that meet them, each with its own time, station and likelihood"""
    name = 'breakpoints.policy'; functions = (OBS + ':ObservationsBreakPoints.apply_policy', OBS + ':ObservationsBreakPoints.apply_base_policy', OBS + ':ObservationsBreakPoints.apply_kernel_policy')
    abstract = True
    def setup(self, B):
        a = breakset(B, B.size('n', 0, 12)); a.policy = B.choice('policy', ['HARD_CUTOFF', 'LAPLACE_KERNEL', 'OTHER'])
        a.thr = B.real('thr', gen=lambda r: r.choice([0., 1., 10., 63.5, 64., 127., 128., .5, .1, 1e-3]))
        a.decay = B.real('decay', gen=lambda r: r.choice([0., .01, .1, 1.]))
        return a
    def run(self, M, a):
        o = M(OBS).ObservationsBreakPoints(a.time.copy(), a.station.copy(), a.like.copy())
        o.apply_policy(a.policy, a.thr, a.decay)
        return o
    def post(self, C, a, out):
        if a.policy == 'OTHER': C.holds('refused', out.raises(ValueError)); return
        o = out.value
        if C.symbolic:
            L = a.like
            keep = (L >= a.thr) if a.policy == 'HARD_CUTOFF' else snp.exp(-a.decay * snp.absolute(L - 127)) >= a.thr
            p = snp.compress_of(keep)
            for nm, got, src in [('time', o.break_time, a.time), ('station', o.break_station, a.station), ('likelihood', o.break_likelihood, a.like)]:
                C.holds(nm + '_size', Eq(size(got), p.count))
                C.forall(nm, (p.count,), lambda k, got=got, src=src: Eq(at(got, k), wrapz(src.at((p.sel(lift(k))[0],)))))
            return
        if a.policy == 'HARD_CUTOFF': keep = [i for i in range(a.n) if float(a.like[i]) >= a.thr]
        else:
            v = [np.exp(-a.decay * abs(float(a.like[i]) - 127.)) for i in range(a.n)]
            if any(abs(x - a.thr) < 1e-12 and x != 1. for x in v): return
            keep = [i for i in range(a.n) if v[i] >= a.thr]
        for nm, got, src in [('time', o.break_time, a.time), ('station', o.break_station, a.station), ('likelihood', o.break_likelihood, a.like)]:
            C.holds(nm, [int(v) for v in got] == [int(src[i]) for i in keep])

@contract
class BreakStations(Contract):
    """station filters and statistics"""
    name = 'breakpoints.stations'; functions = tuple(OBS + ':ObservationsBreakPoints.' + f for f in ('filtered_break_points', 'stations_break_point_indices', 'station_statistics', 'stations_collection', 'stations_count', 'total_number_of_stations', 'break_points_timestamp', 'number_of_observations'))
    prove = False
    def setup(self, B):
        a = breakset(B, B.size('n', 0, 12)); a.sel = B.choice('sel', [0, 1, 3, 9, [1, 2], [0, 5, 5]])
        return a
    def run(self, M, a):
        o = M(OBS).ObservationsBreakPoints(a.time.copy(), a.station.copy(), a.like.copy())
        return o.filtered_break_points(a.sel), o.stations_break_point_indices(a.sel), o.stations_collection(), o.stations_count(), o.total_number_of_stations(), o.break_points_timestamp(datetime.datetime(1850, 1, 1)), o.number_of_observations()
    def post(self, C, a, out):
        f, ix, col, cnt, tot, stamp, n = out.value
        s = a.sel if isinstance(a.sel, list) else [a.sel]
        I = [i for i in range(a.n) if int(a.station[i]) in s]
        C.holds('filtered', [int(v) for v in f] == [int(a.time[i]) for i in I]); C.holds('indices', [int(v) for v in ix] == I)
        st = sorted(set(int(v) for v in a.station))
        C.holds('collection', [int(v) for v in col] == st); C.holds('counts', [int(v) for v in cnt] == [sum(int(x) == q for x in a.station) for q in st]); C.holds('total', int(tot) == len(st))
        C.holds('dates', [str(v) for v in stamp] == [(datetime.datetime(1850, 1, 1) + datetime.timedelta(days=int(t))).strftime('%Y-%m-%d') for t in a.time]); C.holds('n', int(n) == a.n)

@contract
class BreakFilter(Contract):
    name = 'breakpoints.filter'; functions = (OBS + ':ObservationsBreakPoints.filtered_break_points', OBS + ':ObservationsBreakPoints.stations_break_point_indices')
    def setup(self, B):
        a = breakset(B, B.size('n', 0, 12)); a.sel = B.int('sel', 0, 6 if not B.symbolic else None); return a
    def run(self, M, a): return M(OBS).ObservationsBreakPoints(a.time.copy(), a.station.copy(), a.like.copy()).filtered_break_points(a.sel)
    def post(self, C, a, out):
        g = out.value
        if C.symbolic:
            p = snp.compress_of(a.station == a.sel)
            C.holds('size', Eq(size(g), p.count)); C.forall('time', (p.count,), lambda k: Eq(at(g, k), wrapz(a.time.at((p.sel(lift(k))[0],)))))
        else: C.holds('time', [int(v) for v in g] == [int(t) for t, s in zip(a.time, a.station) if int(s) == a.sel])

@contract
class Missing(Contract):
    """a missing source has no observations of its observables and refuses others"""
    name = 'source.missing'; functions = (MISS + ':ObservationSourceMissing.observations', MISS + ':ObservationSourceMissing.observables', MISS + ':ObservationsMissing.__init__')
    prove = False; weight = .3
    def setup(self, B): return NS(names=B.choice('names', [['Tmean'], ['Tmin', 'Tmax'], []]), ask=B.choice('ask', ['Tmean', 'Tmin', 'Tmax']))
    def run(self, M, a):
        s = M(MISS).ObservationSourceMissing(list(a.names))
        return list(s.observables()), s.observation_location_lookup(), s.observations(a.ask)
    def post(self, C, a, out):
        if a.ask not in a.names: C.holds('refused', out.raises(ValueError)); return
        n, loc, o = out.value
        C.holds('observables', n == a.names); C.holds('no_locations', np.size(loc) == 0)
        C.holds('empty', o.number_of_observations() == 0 and all(np.size(f) == 0 for f in (o.mask, o.measurement, o.location, o.uncorrelatederror, o.locallycorrelatederror)))

# ---------------------------------------------------------------- in-situ land

def close_all(): pass
class Var:
    """a netCDF variable over an array"""
    def __init__(self, x): self.x = x
    def set_auto_maskandscale(self, f): pass
    set_auto_mask = set_auto_scale = set_auto_maskandscale
    def __getitem__(self, k):
        if isinstance(self.x, (snp.SArr, snp.SMArr)): return self.x.copy()[k] if not (isinstance(k, slice) and k == slice(None)) else self.x.copy()
        r = self.x[k].copy()
        return np.ma.masked_array(r.data) if isinstance(r, np.ma.MaskedArray) and not np.ma.getmaskarray(r).any() else r     # as netCDF4: no mask array when nothing is missing
    shape = property(lambda s: s.x.shape)
    ndim = property(lambda s: s.x.ndim)
    dtype = property(lambda s: s.x.dtype)
    def __array__(self, dtype=None, copy=None): return np.asarray(self.x)
    def __len__(self): return len(self.x)
class Dim:
    def __init__(self, n): self.size = n
    def __len__(self): return int(self.size)
    def vf_len(self): return self.size

CODES = ['AAA1', 'AAA2', 'BBB1', 'CC', 'AAA11', 'D', 'E2', 'FFF3']
def chars(codes, width):
    x = np.zeros((len(codes), width), 'S1')
    for i, c in enumerate(codes):
        for j, ch in enumerate(c): x[i, j] = ch.encode()
    return np.ma.masked_array(x)

class LandBase(Contract):
    def setup(self, B):
        nt, ns = B.size('nt', 1, 4), B.size('ns', 1, 6)
        a = NS(nt=nt, ns=ns, qc=B.choice('qc', [False, True]), hold=B.choice('hold', [False, True]), adjust=B.choice('adjust', [False, True]), which=B.choice('which', ['Tmin', 'Tmax']), day=B.choice('day', ['one', 'one', 'all', 'absent']) if not B.symbolic else B.choice('day', ['one', 'all']))
        temp = lambda r: round(r.uniform(220, 320), 2)
        a.temp = {k: B.marray(k, (nt, ns), F8, gen=temp) for k in ('Tmin', 'Tmax')}
        a.flag = {k: B.marray(k + 'qc', (nt, ns), np.int8, gen=lambda r: r.choice([0, 0, 0, 1, 2])) if not B.symbolic else B.array(k + 'qc', (nt, ns), np.int8) for k in ('Tmin', 'Tmax')}
        if not B.symbolic:
            for k in a.flag: a.flag[k].mask = a.flag[k].mask & (B.choice('qcmissing', [False, True])); a.flag[k].data[a.flag[k].mask] = -128
        a.time = np.arange(100, 100 + 7 * nt, 7).astype('f8') if not B.symbolic else None
        a.elev = B.marray('elev', (ns,), F8, gen=lambda r: r.uniform(-50, 3000))
        a.lat = B.array('lat', (ns,), F8, gen=lambda r: r.uniform(-90, 90)); a.lon = B.array('lon', (ns,), F8, gen=lambda r: r.choice([0., 10., 179.9, 180., 190.5, 359., -170.]))
        a.ref = B.array('ref', (ns,), F8, gen=lambda r: r.uniform(0, 3))
        return a

@contract
class LandObservations(LandBase):
    """the observations of one day (or all): each station's own value, uncertainty and validity"""
    name = 'insitu_land.observations'; functions = (LAND + ':ObservationSourceInsituLand.observations', LAND + ':ObservationSourceInsituLand.observation_location_lookup', LAND + ':ObservationSourceInsituLand.identify_validation_stations',
        LAND + ':ObservationSourceInsituLand.__init__', HGT + ':AltitudeAdjustment.adjustment', HGT + ':AltitudeAdjustment.adjustment_uncertainty', LAND + ':ObservationSourceInsituLand.number_of_observations', LAND + ':ObservationSourceInsituLand.number_of_days', LAND + ':ObservationSourceInsituLand.number_of_stations')
    prove = False; weight = 4
    assumptions = ('the station file is given by its variables as netCDF4 returns them (masked arrays)', 'interpolation of the reference altitude is a callee (P16 designs)')
    def setup(self, B):
        a = LandBase.setup(self, B)
        a.held = [B.choice('held%d' % k, [False, False, True]) for k in range(len(CODES))]
        a.extra = B.choice('extra', [False, True])
        a.w1, a.w2 = B.choice('w1', [5, 8]), B.choice('w2', [0, 0, 5, 6])     # 0: just wide enough
        a.k = B.int('k', 0, a.nt - 1)
        return a
    def stubs(self, B, a):
        def ref(self, locations):
            a.locations = np.array(locations); return a.ref.copy()
        return {HGT + ':AltitudeAdjustment.reference_altitudes': ref, HGT + ':AltitudeAdjustment.load_reference_map': lambda self: None}
    def run(self, M, a):
        D = M('eustace.outputformats.definitions')
        v = {D.TASMIN.name: a.temp['Tmin'], D.TASMAX.name: a.temp['Tmax'], D.TASMIN_QC.name: a.flag['Tmin'], D.TASMAX_QC.name: a.flag['Tmax'], D.TIME.name: np.ma.masked_array(a.time), D.ELEVATION.name: a.elev,
             D.LATITUDE.name: np.ma.masked_array(a.lat), D.LONGITUDE.name: np.ma.masked_array(a.lon), 'station_code': chars(CODES[:a.ns], a.w1)}
        main = NS(variables={k: Var(x) for k, x in v.items()}, dimensions={D.DIMENSION_NAME_TIME: Dim(a.nt), D.DIMENSION_NAME_STATION: Dim(a.ns)})
        held = [c for c, h in zip(CODES, a.held) if h] + (['ZZZ'] if a.extra else [])
        side = NS(variables={'station_code': Var(chars(held, a.w2 or max([1] + [len(c) for c in held])))}, dimensions={})
        L = M(LAND)
        def Dataset(name, mode='r'):
            return {'MAIN': main, 'HOLD': side}[name]
        old = L.netCDF4; L.netCDF4 = types.SimpleNamespace(Dataset=Dataset)
        try:
            adj = M(HGT).AltitudeAdjustment('F', 'a', 'b', 'c', 1.) if a.adjust else None
            src = L.ObservationSourceInsituLand('MAIN', {'one': a.time[a.k], 'all': None, 'absent': 3.}[a.day], 'HOLD' if a.hold else None, adj)
            return src.observations(a.which, a.qc), src.observation_location_lookup(), src.number_of_observations(), src.number_of_days(), src.number_of_stations()
        finally: L.netCDF4 = old
    def post(self, C, a, out):
        if a.hold and not any(a.held) and not a.extra: return
        o, loc, nobs, ndays, nst = out.value
        C.holds('stations', int(nst) == a.ns)
        C.holds('latitudes', np.allclose(np.asarray(loc)[0], a.lat)); C.holds('longitudes', np.allclose(np.asarray(loc)[1], np.where(a.lon >= 180, a.lon - 360, a.lon)))
        if a.day == 'absent': C.holds('nothing', o is None); return
        days = [a.k] if a.day == 'one' else list(range(a.nt))
        C.holds('counts', int(nobs) == len(days) * a.ns and int(ndays) == len(days))
        C.holds('exists', o is not None)
        if o is None: return
        n = len(days) * a.ns
        C.holds('aligned', all(np.shape(f) == (n,) for f in (o.mask, o.time, o.location, o.measurement, o.uncorrelatederror)) and len(o.locallycorrelatederror) == 0)
        if any(np.shape(f) != (n,) for f in (o.mask, o.time, o.location, o.measurement, o.uncorrelatederror)): return
        held = set(c for c, h in zip(CODES, a.held) if h)
        for d, t in enumerate(days):
            for s in range(a.ns):
                k = d * a.ns + s
                T, F = a.temp[a.which], a.flag[a.which]
                bad = bool(T.mask[t, s]) or (a.qc and (bool(F.mask[t, s]) or int(F.data[t, s]) != 0)) or (a.hold and CODES[s] in held) or (a.adjust and bool(a.elev.mask[s]))
                C.holds('valid', bool(o.mask[k]) == bad)
                C.holds('station', int(o.location[k]) == s); C.holds('time', float(o.time[k]) == float(a.time[t]))
                if bad: continue
                h = a.elev.data[s] * .001 - a.ref[s] if a.adjust else 0.
                C.holds('value', same(o.measurement[k], T.data[t, s] + 6.5 * h, 1e-5)); C.holds('uncertainty', same(o.uncorrelatederror[k], np.sqrt(.09 + (1.1 * h) ** 2)))
        if a.adjust: C.holds('reference_at_stations', np.allclose(a.locations, np.asarray(loc).T))

@contract
class LandDay(LandBase):
    """for any number of stations and days in the file: the day asked for, validity, values and uncertainties station by station"""
    name = 'insitu_land.day'; functions = LandObservations.functions[:1] + LandObservations.functions[4:6]
    assumptions = ('identify_validation_stations and the reference altitudes are callees (insitu_land.observations checks the first)', 'the day occurs once in the file', 'single precision rounding of values not modelled')
    max_paths = 200; timeout_ms = 8000
    def setup(self, B):
        a = LandBase.setup(self, B)
        if a.day != 'one': raise Reject()
        a.k = B.int('k', 0)
        B.assume(a.k < a.nt)
        if B.symbolic:
            z3 = sym.z3
            a.time = B.array('time', (a.nt,), F8); a.dayno = wrapz(a.time.at((lift(a.k),)))
            i = z3.Int('ti')
            B.assume(wrapz(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lift(a.nt), a.time.at((i,)) == lift(a.dayno)), i == lift(a.k)))))
            q = snp.compress_of(a.time == a.dayno)
            B.assume(And(Eq(q.count, 1), Eq(q.rank(a.k), 0), Eq(wrapz(q.sel(lift(0))[0]), a.k)))
        else: a.dayno = a.time[a.k]
        a.heldmask = B.array('heldmask', (a.ns,), bool)
        return a
    def stubs(self, B, a):
        rs = {HGT + ':AltitudeAdjustment.reference_altitudes': lambda self, locations: a.ref.copy(), HGT + ':AltitudeAdjustment.load_reference_map': lambda self: None,
              LAND + ':ObservationSourceInsituLand.identify_validation_stations': lambda self: a.heldmask.copy().reshape((1, a.ns)),
              LAND + ':ObservationSourceInsituLand.observation_location_lookup': lambda self: np.zeros((2, 1)) if B.symbolic else np.vstack([a.lat, a.lon])}
        return rs
    def run(self, M, a):
        D = M('eustace.outputformats.definitions')
        v = {D.TASMIN.name: a.temp['Tmin'], D.TASMAX.name: a.temp['Tmax'], D.TASMIN_QC.name: a.flag['Tmin'], D.TASMAX_QC.name: a.flag['Tmax'], D.TIME.name: a.time, D.ELEVATION.name: a.elev}
        main = NS(variables={k: Var(x) for k, x in v.items()}, dimensions={D.DIMENSION_NAME_TIME: Dim(a.nt), D.DIMENSION_NAME_STATION: Dim(a.ns)})
        L = M(LAND)
        src = object.__new__(L.ObservationSourceInsituLand)
        src.dataset = main; src.daynumber = a.dayno; src.hold_out_dataset = NS(variables={}) if a.hold else False
        src.altitude_adjustment = M(HGT).AltitudeAdjustment('F', 'a', 'b', 'c', 1.) if a.adjust else None
        return src.observations(a.which, a.qc)
    def post(self, C, a, out):
        o = out.value
        C.holds('exists', o is not None)
        if o is None: return
        for nm, f in [('mask', o.mask), ('time', o.time), ('location', o.location), ('measurement', o.measurement), ('uncertainty', o.uncorrelatederror)]: C.holds(nm + '_size', Eq(size(f), a.ns))
        C.holds('no_correlated', len(o.locallycorrelatederror) == 0)
        T, F = a.temp[a.which], a.flag[a.which]
        md = lambda x, *i: wrapz(x.mask.at(tuple(lift(v) for v in i))) if C.symbolic else bool(np.ma.getmaskarray(x)[i])
        dt = lambda x, *i: wrapz((x.data if isinstance(x, snp.SMArr) else x).at(tuple(lift(v) for v in i))) if C.symbolic else float(np.ma.getdata(x)[i])
        def parts(s):
            bad = md(T, a.k, s)
            if a.qc: bad = Or(bad, Not(Eq(dt(F, a.k, s), 0))) if C.symbolic else bad or md(F, a.k, s) or dt(F, a.k, s) != 0
            if a.hold: bad = Or(bad, at(a.heldmask, s))
            if a.adjust: bad = Or(bad, md(a.elev, s))
            h = (dt(a.elev, s) * .001 - at(a.ref, s)) if a.adjust else 0.
            return bad, dt(T, a.k, s) + 6.5 * h, h
        C.forall('valid', (a.ns,), lambda s: Eq(at(o.mask, s), parts(s)[0]))
        C.forall('station', (a.ns,), lambda s: Eq(at(o.location, s), s))
        C.forall('time', (a.ns,), lambda s: Eq(at(o.time, s), a.dayno))
        C.forall('value', (a.ns,), lambda s: Or(parts(s)[0], same(at(o.measurement, s), parts(s)[1])))
        def unc(s):
            bad, _, h = parts(s); u = at(o.uncorrelatederror, s)
            if not C.symbolic: return Or(bad, same(u, np.sqrt(.09 + (1.1 * h) ** 2)))
            lim = .3
            return Or(bad, And(u >= 0, Eq(u * u, lim * lim + 1.1 * h * (1.1 * h))))
        C.forall('uncertainty', (a.ns,), unc)

@contract
class LandBreakSource(Contract):
    """break points of the file: those with a likelihood, of the station asked for, each with its own time, station and likelihood"""
    name = 'insitu_land.breakpoints'; functions = (BRK + ':ObservationBreakPointSourceInsituLand.observations', BRK + ':ObservationBreakPointSourceInsituLand.observation_location_lookup', BRK + ':ObservationBreakPointSourceInsituLand.number_of_observations')
    def setup(self, B):
        n = B.size('n', 0, 10)
        a = NS(n=n, masked=B.choice('masked', [True, False]), one=B.choice('one', [False, True]), station=B.int('station', 0, 4), ns=B.size('ns', 5, 8))
        a.time = B.array('time', (n,), np.int32, 0, 60000); a.st = B.array('st', (n,), np.int32, 0, 4)
        a.like = B.marray('like', (n,), np.int8, 0, 127) if a.masked else B.array('like', (n,), np.int8, 0, 127)
        a.feas = B.array('feas', (a.ns,), np.int8, 0, 1)
        return a
    def run(self, M, a):
        D = M('eustace.outputformats.definitions')
        v = {D.MERGED_BREAK_TIME.name: a.time, D.MERGED_BREAK_STATION.name: a.st, D.MERGED_BREAK_LIKELIHOOD.name: a.like, D.DETECTION_FEASIBILITY.name: a.feas}
        s = object.__new__(M(BRK).ObservationBreakPointSourceInsituLand)
        s.dataset = NS(variables={k: Var(x) for k, x in v.items()}, dimensions={D.DIMENSION_NAME_MERGED_BREAK: Dim(a.n)})
        s.station_index = a.station if a.one else None
        return s.observations(), s.number_of_observations('merged_break')
    def post(self, C, a, out):
        o, count = out.value
        fields = [('time', o.break_time, a.time), ('station', o.break_station, a.st), ('likelihood', o.break_likelihood, a.like)]
        if C.symbolic:
            keep = ~a.like.getmaskarray() if a.masked else snp.const_array((a.n,), True, bool)
            if a.one: keep = snp.logical_and(a.st == a.station, keep)
            p = snp.compress_of(keep)
            for nm, got, srcs in fields:
                d = srcs.data if isinstance(srcs, snp.SMArr) else srcs
                C.holds(nm + '_size', Eq(size(got), p.count)); C.forall(nm, (p.count,), lambda k, got=got, d=d: Eq(at(got, k), wrapz(d.at((p.sel(lift(k))[0],)))))
        else:
            I = [i for i in range(a.n) if not (a.masked and a.like.mask[i]) and not (a.one and int(a.st[i]) != a.station)]
            for nm, got, srcs in fields: C.holds(nm, np.shape(got) == (len(I),) and [int(v) for v in got] == [int(np.ma.getdata(srcs)[i]) for i in I])
            C.holds('count', int(count) == (sum(int(v) == a.station for v in a.st) if a.one else a.n))
        if a.one: C.holds('feasibility_of_station', And(Eq(size(o.detection_feasibility), 1), Eq(at(o.detection_feasibility, 0), at(a.feas, a.station))))
        else:
            C.holds('feasibility_size', Eq(size(o.detection_feasibility), a.ns)); C.forall('feasibility', (a.ns,), lambda k: Eq(at(o.detection_feasibility, k), at(a.feas, k)))

@contract
class Ocean(Contract):
    """HadNMAT2 records: each line is one observation with its own place, day and temperature"""
    name = 'insitu_ocean'; functions = (SEA + ':HadNMAT2Format.__init__', SEA + ':ObservationSourceInsituOceanHadNMAT2.__init__', SEA + ':ObservationSourceInsituOceanHadNMAT2.observations', SEA + ':ObservationSourceInsituOceanHadNMAT2.observation_location_lookup')
    prove = False; weight = .5
    assumptions = ('files of at least two records (numpy.genfromtxt gives a scalar for one)',)
    def setup(self, B):
        n = B.int('n', 2, 5)
        a = NS(n=n, rows=[])
        a.order = B.choice('order', [0, 1])
        for k in range(n):
            d = B.datetime('d%d' % k, midnight=True)
            if not datetime.datetime(1800, 1, 1) <= d < datetime.datetime(2100, 1, 1): d = datetime.datetime(1850 + k * 31, 1 + k, 28)
            a.rows.append(('ID%d%s' % (k, B.choice('h%d' % k, ['', '#x'])), B.int('lat%d' % k, -900, 900), B.int('lon%d' % k, -1800, 3600), d, B.int('t%d' % k, -6000, 5000)))
        return a
    def run(self, M, a):
        tmp = tempfile.mkdtemp(prefix='vf_p09_')
        try:
            titles = ['ID', 'Lat', 'Lon', 'year', 'month', 'day', 'hour', 'Air'] if a.order == 0 else ['Junk', 'ID', 'year', 'month', 'day', 'hour', 'Lat', 'Lon', 'Slp', 'Air']
            with open(tmp + '/format.txt', 'w') as f: f.write('header\n\n' + ' '.join(titles) + '\n')
            lines = []
            for i, (ident, la, lo, d, t) in enumerate(a.rows):
                v = {'ID': ident, 'Lat': la, 'Lon': lo, 'year': d.year, 'month': d.month, 'day': d.day, 'hour': 12, 'Air': t, 'Junk': 7, 'Slp': -99}
                lines.append(''.join(str(v[c]).rjust(8) for c in titles))
            with gzip.open(tmp + '/data.gz', 'wb') as f: f.write(('\n'.join(lines) + '\n').encode())
            S = M(SEA)
            s = S.ObservationSourceInsituOceanHadNMAT2(S.HadNMAT2Format(tmp + '/format.txt'), tmp + '/data.gz')
            return s.observations('Tmean'), s.observation_location_lookup(), s.number_of_observations()
        finally:
            import shutil
            shutil.rmtree(tmp)
    def post(self, C, a, out):
        o, loc, n = out.value
        C.holds('count', int(n) == a.n and all(np.shape(f) == (a.n,) for f in (o.mask, o.time, o.location, o.measurement, o.uncorrelatederror)) and np.shape(loc) == (2, a.n))
        for k, (ident, la, lo, d, t) in enumerate(a.rows):
            C.holds('valid', not bool(o.mask[k])); C.holds('place', same(loc[0][int(o.location[k])], la * .1) and same(loc[1][int(o.location[k])], lo * .1))
            C.holds('day', float(o.time[k]) == (d - datetime.datetime(1850, 1, 1)).days); C.holds('temperature', same(o.measurement[k], t * .01 + 273.15, 1e-6)); C.holds('uncertainty', same(o.uncorrelatederror[k], 1.1))

@contract
class Lake(Contract):
    """lake readings: each reading is attached to its own coordinates, each place appears once"""
    name = 'lake'; functions = (LAKE + ':ObservationSourceLakeReading.__init__', LAKE + ':ObservationSourceLakeReading.observations', LAKE + ':ObservationSourceLakeReading.parse_date')
    prove = False; weight = .5
    assumptions = ('files of at least two records (numpy.genfromtxt gives a scalar for one)',)
    def setup(self, B):
        n = B.int('n', 2, 6)
        a = NS(n=n, rows=[])
        places = [(50.0, 13.6), (50.01, 10.0), (50.0, 90.0), (50.25, 0.0), (0.5, -180.0), (0.0, 0.0), (89.5, -179.5), (60.0, 0.0)]
        for k in range(n):
            d = datetime.datetime(1995, 1, 1) + datetime.timedelta(days=B.int('d%d' % k, 0, 9000))
            a.rows.append((d, places[B.int('p%d' % k, 0, len(places) - 1)], B.int('t%d' % k, -3000, 3000) / 100.))
        return a
    def run(self, M, a):
        tmp = tempfile.mkdtemp(prefix='vf_p09_')
        try:
            with open(tmp + '/lake.txt', 'w') as f:
                f.write('DateTime\tlat\tlon\tfTa\n')
                for d, (la, lo), t in a.rows: f.write('%s\t%r\t%r\t%r\n' % (d.strftime('%Y-%m-%d'), la, lo, t))
            L = M(LAKE)
            p = L.ObservationSourceLakeReading.parse_date
            L.ObservationSourceLakeReading.parse_date = staticmethod(lambda s: p(s.decode() if isinstance(s, bytes) else s))     # text given to converters by numpy under Python 3
            try: s = L.ObservationSourceLakeReading(tmp + '/lake.txt')
            finally: L.ObservationSourceLakeReading.parse_date = staticmethod(p)
            return s.observations('Tmean'), s.observation_location_lookup(), s.number_of_observations()
        finally:
            import shutil
            shutil.rmtree(tmp)
    def post(self, C, a, out):
        o, loc, n = out.value
        C.holds('count', int(n) == a.n and all(np.shape(f) == (a.n,) for f in (o.mask, o.time, o.location, o.measurement, o.uncorrelatederror)))
        for k, (d, (la, lo), t) in enumerate(a.rows):
            j = int(o.location[k])
            C.holds('place', same(loc[0][j], la) and same(loc[1][j], lo)); C.holds('valid', not bool(o.mask[k]))
            C.holds('day', float(o.time[k]) == (d - datetime.datetime(1850, 1, 1)).days); C.holds('temperature', same(o.measurement[k], t + 273.15, 1e-6))
        C.holds('places_once', np.shape(loc)[1] == len(set(p for _, p, _ in a.rows)))

def gridcube(name, lat, lon, data, day=55.):
    from iris.cube import Cube
    from iris.coords import DimCoord
    c = Cube(data, var_name=name)
    c.add_dim_coord(DimCoord([day], standard_name='time', units='days since 1850-01-01'), 0)
    c.add_dim_coord(DimCoord(lat, standard_name='latitude', units='degrees'), 1); c.add_dim_coord(DimCoord(lon, standard_name='longitude', units='degrees'), 2)
    return c

@contract
class GridSource(Contract):
    """a gridded source: one observation per grid box, with the value and uncertainties of that box and that box's coordinates"""
    name = 'gridded.observations'; functions = (CUBE + ':ObservationSourceCubeMapGrid.observations', CUBE + ':ObservationSourceCubeMapGrid.observation_location_lookup', CUBE + ':ObservationSourceCubeMapGrid.get_field_by_name', CUBE + ':ObservationSourceCubeMapGrid.number_of_observations')
    prove = False
    assumptions = ('iris cubes as loaded', 'uncertainties are present wherever the measurement is')
    def setup(self, B):
        ny, nx = B.int('ny', 2, 4), B.int('nx', 2, 4)
        a = NS(ny=ny, nx=nx, full=B.choice('full', [False, True]), missing=B.choice('missing', [False, False, False, True]))
        t = lambda r: r.uniform(200, 320)
        a.m = B.array('m', (1, ny, nx), F8, gen=t); a.mask = B.array('mask', (1, ny, nx), bool); a.u = B.array('u', (1, ny, nx), F8, 0, 5); a.c = B.array('c', (1, ny, nx), F8, 0, 5); a.o = B.array('o', (1, ny, nx), F8, gen=t)
        a.lat0, a.lon0 = B.choice('lat0', [-90., 10.]), B.choice('lon0', [-180., 0.])
        return a
    def run(self, M, a):
        K = M(CUBE)
        a.lat = a.lat0 + .25 * np.arange(a.ny); a.lon = a.lon0 + .25 * np.arange(a.nx)
        wrap = (lambda x: x.copy()) if a.full else (lambda x: np.ma.masked_array(x.copy(), mask=a.mask.copy()))
        cubes = [gridcube('other', a.lat, a.lon, np.ma.masked_array(a.o, mask=False)), gridcube('tas', a.lat, a.lon, wrap(a.m)), gridcube('U', a.lat, a.lon, wrap(a.u)), gridcube('S', a.lat, a.lon, wrap(a.c))]
        if a.missing: del cubes[1]
        old = K.load; K.load = lambda f: list(cubes)
        try:
            s = K.ObservationSourceCubeMapGrid({'Tmean': K.ObservationMap('tas', 'U', ['S'], [500.])}, 'F')
            return s.observations('Tmean'), s.observation_location_lookup(), s.number_of_observations(), list(s.observables()), s.local_correlation_length_scale('Tmean')
        finally: K.load = old
    def post(self, C, a, out):
        if a.missing: C.holds('absent_field_refused', out.raises(ValueError)); return
        o, loc, n, names, scale = out.value
        N = a.ny * a.nx
        C.holds('count', int(n) == N and names == ['Tmean'] and list(scale) == [500.])
        C.holds('aligned', all(np.shape(f) == (N,) for f in (o.mask, o.location, o.measurement, o.uncorrelatederror, o.locallycorrelatederror[0])) and len(o.locallycorrelatederror) == 1)
        if any(np.shape(f) != (N,) for f in (o.mask, o.location, o.measurement, o.uncorrelatederror, o.locallycorrelatederror[0])): return
        C.holds('time', float(o.time) == 55.)
        for k in range(N):
            i, j = k // a.nx, k % a.nx
            L = int(o.location[k])
            bad = bool(a.mask[0, i, j]) and not a.full
            C.holds('place', same(loc[0][L], a.lat[i]) and same(loc[1][L], a.lon[j])); C.holds('valid', bool(o.mask[k]) == bad)
            if not bad: C.holds('value', same(o.measurement[k], a.m[0, i, j]) and same(o.uncorrelatederror[k], a.u[0, i, j]) and same(o.locallycorrelatederror[0][k], a.c[0, i, j]))

@contract
class IceCombined(Contract):
    """the two hemispheres' files as one source: every observation at its own coordinates of the joint table"""
    name = 'ice.combined'; functions = (ICE + ':ObservationSourceIceDMICombined.__init__', ICE + ':ObservationSourceIceDMICombined.observations', ICE + ':ObservationSourceIceDMICombined.observation_location_lookup', ICE + ':ObservationSourceIceDMICombined.number_of_observations', OBS + ':Observations.append')
    prove = False
    def setup(self, B):
        a = NS(n0=B.int('n0', 2, 4), n1=B.int('n1', 2, 4), nx=B.int('nx', 2, 3), gap=B.int('gap', 1, 6), res=B.choice('res', [.25, .5, 1.]), fault=B.choice('fault', [None, None, None, None, 'lon', 'order', 'overlap', 'res', 'one']), obs=B.choice('obs', ['Tmean', 'Tmin', 'Tmax']))
        a.v = [B.array('v%d' % k, (1, n, a.nx), F8, gen=lambda r: r.uniform(200, 320)) for k, n in ((0, a.n0), (1, a.n1))]
        a.m = [B.array('m%d' % k, (1, n, a.nx), bool) for k, n in ((0, a.n0), (1, a.n1))]
        return a
    def run(self, M, a):
        K, I = M(CUBE), M(ICE)
        lat0 = -85. + a.res * np.arange(a.n0); first = lat0[-1] + a.gap * a.res; a.lats = [lat0, first + a.res * np.arange(a.n1)]
        if a.fault == 'order': a.lats = [a.lats[0] + 200 * a.res * 0 + 40., a.lats[1] - 40.]
        if a.fault == 'overlap': a.lats[1] = lat0[1 + a.gap % (a.n0 - 1)] + a.res * np.arange(a.n1)
        if a.fault == 'res': a.lats[1] = first + a.res * 2 * np.arange(a.n1)
        a.lon = -180. + a.res * np.arange(a.nx)
        V = {'Tmean': ('tas', 'RU', 'SSU'), 'Tmax': ('tasmax', 'RUmax', 'SSUmax'), 'Tmin': ('tasmin', 'RUmin', 'SSUmin')}
        def load(name):
            k = int(name[1:]); out = []
            for n, (ob, names) in enumerate(sorted(V.items())):
                for q, nm in enumerate(names):
                    out.append(gridcube(nm, a.lats[k], a.lon + (1. if a.fault == 'lon' and k == 1 else 0.), np.ma.masked_array(a.v[k] + 1000. * n + 10000. * q, mask=a.m[k].copy())))
            return out
        old = K.load; K.load = load
        try:
            s = I.ObservationSourceIceDMICombined(['F0', 'F1'] if a.fault != 'one' else ['F0'])
            return s.observations(a.obs), s.observation_location_lookup(), s.number_of_observations(), sorted(s.observables())
        finally: K.load = old
    def post(self, C, a, out):
        if a.fault: C.holds('mismatch_refused', out.raises(ValueError)); return
        o, loc, n, names = out.value
        N = (a.n0 + a.n1) * a.nx
        C.holds('count', int(n) == N and names == ['Tmax', 'Tmean', 'Tmin'])
        C.holds('aligned', all(np.shape(f) == (N,) for f in (o.mask, o.location, o.measurement, o.uncorrelatederror)))
        if any(np.shape(f) != (N,) for f in (o.mask, o.location, o.measurement, o.uncorrelatederror)): return
        base = 1000. * sorted(['Tmean', 'Tmin', 'Tmax']).index(a.obs)
        for k in range(N):
            h, q = (0, k) if k < a.n0 * a.nx else (1, k - a.n0 * a.nx)
            i, j = q // a.nx, q % a.nx
            L = int(o.location[k])
            C.holds('place', 0 <= L < np.shape(loc)[1] and same(loc[0][L], a.lats[h][i]) and same(loc[1][L], a.lon[j]))
            C.holds('valid', bool(o.mask[k]) == bool(a.m[h][0, i, j]))
            if not bool(o.mask[k]): C.holds('value', same(o.measurement[k], a.v[h][0, i, j] + base) and same(o.uncorrelatederror[k], a.v[h][0, i, j] + base + 10000.) and same(o.locallycorrelatederror[0][k], a.v[h][0, i, j] + base + 20000.))

@contract
class RunDay(Contract):
    """preparing a day: the source is opened for that day with the options asked for, its locations must be those of the reference table, and its observations are what is written"""
    name = 'prepare.day'; functions = (DAILY + ':run_day',)
    prove = False
    def setup(self, B):
        a = NS(src=B.choice('src', ['insitu_land', 'surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice']), hold=B.choice('hold', [None, 'HOLD']), qc=B.choice('qc', [False, True]), adj=B.choice('adj', [None, 'ADJ']), shift=B.choice('shift', [0., 0., .00005, .01, -.5]), which=B.int('which', 0, 3))
        a.d = B.int('d', 0, 60000); a.sub = B.choice('sub', [[0, 1, 2, 3], [1, 3], [2]]); a.h = B.int('hour', 0, 23); return a
    def stubs(self, B, a):
        a.log = []; a.written = []
        table = np.array([[0., 10., 20., 30.], [5., 6., 7., 8.]])
        mine = table.copy(); mine[a.which % 2, a.which] += a.shift
        obs = NS(location=np.array(a.sub, np.uint64)); a.obsset = obs
        class Land:
            def __init__(s, filename, daynumber=None, hold_out_filename=None, altitude_adjustment=None): a.log.append(('land', filename, int(daynumber), hold_out_filename, altitude_adjustment))
            def observations(s, observable, qc): a.log.append(('obs', observable, qc)); return obs
            def observation_location_lookup(s): return mine
        class Sat:
            def __init__(s, observables, filename): a.log.append(('sat', list(observables), filename))
            def observations(s, observable): a.log.append(('obs', observable)); return obs
            def observation_location_lookup(s): return mine
        class Reader:
            def read(s, f): a.log.append(('read', f)); return NS(lookuptable=table, uuid='UU')
        class Writer:
            def write_day(s, *args): a.written.append(args)
        return {DAILY + ':LocationLookupRawBinaryReader': Only(Reader), DAILY + ':ObservationRawBinaryWriter': Only(Writer), DAILY + ':SOURCECLASS': {'insitu_land': Land, 'surfaceairmodel_land': Sat, 'surfaceairmodel_ocean': Sat, 'surfaceairmodel_ice': Sat}}
    def run(self, M, a):
        M(DAILY).run_day('OUT', 'LOC', 'DAY', datetime.datetime(1850, 1, 1) + datetime.timedelta(days=a.d, hours=0), a.src, 'Tmax', hold_out_list=a.hold, qc_mask=a.qc, altitude_adjustment=a.adj)
    def post(self, C, a, out):
        bad = abs(a.shift) > .001 and a.which in a.sub
        if bad: C.holds('mismatched_locations_refused', out.raises(ValueError) and not a.written); return
        out.value
        C.holds('written', len(a.written) == 1 and a.written[0][0] == 'OUT' and a.written[0][1] == 'UU' and a.written[0][2] is a.obsset and int(a.written[0][3]) == a.d)
        if a.src == 'insitu_land': C.holds('source', [x for x in a.log if x[0] != 'read'] == [('land', 'DAY', a.d, a.hold, a.adj), ('obs', 'Tmax', a.qc)])
        else: C.holds('source', [x for x in a.log if x[0] != 'read'] == [('sat', ['Tmax'], 'DAY'), ('obs', 'Tmax')])
        C.holds('reference', ('read', 'LOC') in a.log)
