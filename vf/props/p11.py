"""P11 - diagnostic grids summarise exactly the observations in each cell"""
import numpy as np
from .. import sym, snp
from ..contract import Contract, NS, Reject
from ..load import Inv
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift, Trunc
from .common import contract_list, elem, Only
from .p08 import Accumulate, add, lo_, hi_, exists, close as close4

CONTRACTS, contract = contract_list()
DG = 'eustace.analysis.diagnosticgrid'
DGA = 'eustace.analysis.diagnosticgrid_aggregate'
DC = 'eustace.analysis.diagnostic_combine'
GFL = 'eustace.satgrid_iris.gridbin.gridfieldlist'
PRELOAD = (DG, DGA, DC)
F8, I4, I8 = np.float64, np.int32, np.int64
ASSUMPTIONS = ['float64 accumulation is treated as exact real arithmetic in the proofs; the bounded search allows a relative difference of 1e-6',
               'observation times are not negative (days since 1850) and uncertainties are positive', 'grid cell numbers given to the aggregation are valid (P07)']
def close(a, b): return abs(float(a) - float(b)) <= 1e-6 * max(1.0, abs(float(b)))
OUT = (('count', I8), ('observation_min', F8), ('observation_max', F8), ('uncertainty_min', F8), ('uncertainty_max', F8), ('observation_weightedsum', F8), ('precision_sum', F8))
INITIAL = dict(count=0, observation_min=1.0e30, observation_max=-1.0e30, uncertainty_min=1.0e30, uncertainty_max=-1.0e30, observation_weightedsum=0.0, precision_sum=0.0)
def pos(r): return r.choice([.25, .5, 1.0, 2.0, 4.0, 0.3, 7.0])
def val(r): return r.choice([r.randint(-400, 400) / 4.0, r.uniform(-60, 330), 0.0, .1])

class DiagAcc(Accumulate):
    outputs = OUT
    def setup(self, B):
        n, cells = B.size('n', 0, 60), B.size('cells', 1)
        a = NS(n=n, cells=cells, idx=B.array('idx', (n,), I4, lo=0, hi=cells - 1), fresh=B.choice('fresh', [False, True]))
        if B.symbolic:
            a.val = B.array('val', (n,), F8); a.unc = B.array('unc', (n,), F8)
            base = a.unc.buf.fn
            def fn(ix):
                v = base(ix)
                sym.CTX is not None and sym.CTX.define(('pos', v.get_id()), lambda: v > 0)
                return v
            a.unc.buf.fn = fn
        else: a.val = B.array('val', (n,), F8, gen=val); a.unc = B.array('unc', (n,), F8, gen=pos)
        mk = lambda nm, dt: B.array(nm, (cells,), dt) if B.symbolic or dt is I8 else B.array(nm, (cells,), dt, gen=val)
        a.bins = {nm: mk(nm, dt) for nm, dt in OUT}
        a.mask = B.array('mask', (cells,), bool); a.mask0 = a.mask.copy()
        a.initial = {}
        if a.fresh:
            for nm, _ in OUT: a.bins[nm].fill(INITIAL[nm])
            a.mask.fill(True); a.mask0.fill(True)
        a.init = {nm: v.copy() for nm, v in a.bins.items()}
        f, u = (lambda k, c: elem(a.val, k)), (lambda k, c: elem(a.unc, k))
        steps = dict(count=add(lambda k, c: 1), observation_min=lo_(f), observation_max=hi_(f), uncertainty_min=lo_(u), uncertainty_max=hi_(u), observation_weightedsum=add(lambda k, c: f(k, c) / u(k, c)), precision_sum=add(lambda k, c: 1.0 / u(k, c)))
        if B.symbolic:     # division in the specification: uncertainties are positive
            q = lambda x, y: wrapz(sym.toreal(lift(x)) / sym.toreal(lift(y)))
            steps['observation_weightedsum'] = add(lambda k, c: q(f(k, c), u(k, c))); steps['precision_sum'] = add(lambda k, c: q(1, u(k, c)))
        def mkfold(nm, dt):
            s = steps[nm]
            return B.fold(nm, lambda c: elem(a.init[nm], c), (lambda k, v, c: If(Eq(elem(a.idx, k), c), s(v, k, c), v)) if B.symbolic else (lambda k, v, c: s(v, k, c) if a.idx[k] == c else v), 'i' if dt is I8 else 'r', 1)
        a.fold = {nm: mkfold(nm, dt) for nm, dt in OUT}
        return a
    def post(self, C, a, out):
        out.value
        for nm, _ in OUT:
            C.forall(nm, (a.cells,), lambda c: Eq(elem(a.bins[nm], c), a.fold[nm](a.n, c)) if C.symbolic else close(elem(a.bins[nm], c), a.fold[nm](a.n, c)))

@contract
class Aggregate(DiagAcc):
    """after any prefix every cell's count, extremes and weighted sums are those of its own observations"""
    name = 'diagnosticgrid_aggregate'; functions = (DGA + ':diagnosticgrid_aggregate',)
    def run(self, M, a): return M(DGA).diagnosticgrid_aggregate(input_indices=a.idx, input_observation=a.val, input_uncertainty=a.unc, **a.bins)

@contract
class CreateFields(DiagAcc):
    """the seven fields of a source and observable are created empty or continued, updated by the observations, and become valid exactly in the observed cells"""
    name = 'diagnosticgrid.create_fields'; functions = (DG + ':DiagnosticGridBins.create_fields_from_sparse_observations',)
    def run(self, M, a):
        D = M(DG)
        g = D.DiagnosticGridBins.__new__(D.DiagnosticGridBins)
        a.fields = {}
        def get(descriptor, initialvalue):
            nm = descriptor.var_name
            if nm not in a.fields:
                key = nm[len('src_obs_'):]
                if not nm.startswith('src_obs_') or key not in a.bins: raise Reject() if False else ValueError('unexpected field ' + nm)
                a.initial[key] = (initialvalue, np.dtype(descriptor.dtype), descriptor.usemask)
                m = a.mask.copy()
                a.fields[nm] = snp.SMArr(a.bins[key], m) if isinstance(a.idx, snp.SArr) else np.ma.masked_array(a.bins[key], mask=m, copy=False)
            return NS(data=a.fields[nm])
        g.get_or_create_field = get
        return g.create_fields_from_sparse_observations('src', D.DiagnosticGridInput('obs', 1, a.idx, a.val, a.unc))
    def post(self, C, a, out):
        out.value
        C.holds('fields', sorted(a.fields) == sorted('src_obs_' + nm for nm, _ in OUT))
        for nm, dt in OUT:
            i, d, m = a.initial[nm]
            C.holds('initial', float(i) == INITIAL[nm] and d == np.dtype(dt) and m)
            f = a.fields['src_obs_' + nm]
            if C.symbolic:
                C.forall(nm, (a.cells,), lambda c: Eq(elem(f.data, c), a.fold[nm](a.n, c)))
                C.forall(nm + '.valid', (a.cells,), lambda c: Eq(elem(f.mask, c), And(elem(a.mask0, c), Not(exists(a.n, lambda q: Eq(elem(a.idx, q), c))))))
            else:
                C.forall(nm, (a.cells,), lambda c: close(f.data[c], a.fold[nm](a.n, c)))
                C.forall(nm + '.valid', (a.cells,), lambda c: bool(f.mask[c]) == (bool(a.mask0[c]) and not (a.idx == c).any()))

@contract
class WeightedMean(Contract):
    """weighted mean = weighted sum over sum of weights, valid exactly where both are"""
    name = 'diagnosticgrid.weighted_mean'; functions = (DG + ':DiagnosticGridBins.compute_weighted_mean',)
    def setup(self, B):
        n = B.size('n', 1)
        a = NS(n=n, w=B.marray('w', (n,), F8), p=B.marray('p', (n,), F8) if B.symbolic else B.marray('p', (n,), F8, gen=pos), made=[])
        if B.symbolic:
            base = a.p.data.buf.fn
            def fn(ix):
                v = base(ix)
                sym.CTX is not None and sym.CTX.define(('pos', v.get_id()), lambda: v > 0)
                return v
            a.p.data.buf.fn = fn
        return a
    def run(self, M, a):
        D = M(DG)
        g = D.DiagnosticGridBins.__new__(D.DiagnosticGridBins)
        fields = {'S_o_observation_weightedsum': a.w, 'S_o_precision_sum': a.p}
        g.get_field = lambda nm: NS(data=fields[nm]) if nm in fields else None
        g.create_field = lambda d, data: a.made.append((d.var_name, data))
        return g.compute_weighted_mean('S', 'o')
    def post(self, C, a, out):
        out.value
        C.holds('one_field', len(a.made) == 1 and a.made[0][0] == 'S_o_observation_weightedmean')
        r = a.made[0][1]
        bad = lambda i: Or(elem(a.w.mask, i), elem(a.p.mask, i))
        mk = lambda i: elem(r.mask, i) if C.symbolic else np.ma.getmaskarray(r)[i]
        C.forall('valid', (a.n,), lambda i: Eq(mk(i), bad(i)) if C.symbolic else bool(mk(i)) == bool(bad(i)))
        C.forall('value', (a.n,), lambda i: Implies(Not(bad(i)), Eq(elem(r.data, i) * elem(a.p.data, i), elem(a.w.data, i))))

class Axis:
    def __init__(self, ix, count, log): self.ix, self.count, self.log = ix, count, log
    def compute_indices(self, v): self.log.append(v); return self.ix

@contract
class ConnectorIndices(Contract):
    """cell of each location: row-major in the last two axes, from the location table's latitude and longitude rows; wrong axes refused"""
    name = 'connector.indices'; functions = (DG + ':DiagnosticGridObservationConnector.__init__',)
    def setup(self, B):
        n = B.size('n', 1)
        cnt = [B.int('c%d' % k, 1, 9) for k in range(3)]
        return NS(n=n, cnt=cnt, naxes=B.choice('naxes', [2, 3, 1, 4]), lat=B.array('lat', (n,), I4, lo=0, hi=8), lon=B.array('lon', (n,), I4, lo=0, hi=8), table=B.array('table', (2, n), F8), log=[])
    def run(self, M, a):
        la, lo = [], []
        a.la, a.lo = la, lo
        ax = [Axis(None, a.cnt[2], []), Axis(a.lat, a.cnt[0], la), Axis(a.lon, a.cnt[1], lo)][3 - min(a.naxes, 3):]
        if a.naxes == 4: ax = [Axis(None, 1, [])] + ax
        a.axes = ax
        a.source = NS(observation_location_lookup=lambda: a.table)
        return M(DG).DiagnosticGridObservationConnector(ax, a.source)
    def post(self, C, a, out):
        if a.naxes in (1, 4): C.holds('axes_refused', out.raises(ValueError)); return
        if a.naxes == 3:
            if out.raised: C.holds('refused_only_if_several_times', And(Not(Eq(a.cnt[2], 1)), out.raises(ValueError))); return
            C.holds('several_times_refused', Eq(a.cnt[2], 1))
        r = out.value
        C.holds('kept', r.source is a.source and list(r.axes) == list(a.axes))
        C.holds('used_each_row', len(a.la) >= 1 and len(a.lo) >= 1)
        C.forall('rows', (a.n,), lambda i: And(Eq(elem(a.la[0], i), elem(a.table, 0, i)), Eq(elem(a.lo[0], i), elem(a.table, 1, i))))
        C.forall('cell', (a.n,), lambda i: Eq(elem(r.grid_indices_for_location_ids, i), elem(a.lat, i) * a.cnt[1] + elem(a.lon, i)))

@contract
class GetDay(Contract):
    """exactly the unmasked observations of the requested day, in order, each with its value, uncertainty and cell"""
    name = 'connector.get_day'; functions = (DG + ':DiagnosticGridObservationConnector.get_day',)
    weight = 1.5
    def setup(self, B):
        n, m = B.size('n', 0), B.size('m', 1)
        a = NS(n=n, m=m, day=B.int('day', 0, 4))
        a.time = B.array('time', (n,), np.float32, lo=0) if B.symbolic else B.array('time', (n,), np.float32, gen=lambda r: r.choice([0, 1, 2, 3, 1.5, 2.25, .75, 4]))
        a.mask = B.array('mask', (n,), bool); a.loc = B.array('loc', (n,), np.uint64 if not B.symbolic else I8, lo=0, hi=m - 1)
        a.val, a.unc = B.array('val', (n,), np.float32), B.array('unc', (n,), np.float32)
        a.cell = B.array('cell', (m,), I4, lo=0)
        return a
    def run(self, M, a):
        D = M(DG)
        c = D.DiagnosticGridObservationConnector.__new__(D.DiagnosticGridObservationConnector)
        c.axes = []
        def observations(o):
            if o != 'Tmean': raise ValueError(o)
            return NS(mask=a.mask, time=a.time, location=a.loc, measurement=a.val, uncorrelatederror=a.unc)
        c.source = NS(observations=observations)
        c.grid_indices_for_location_ids = a.cell
        return c.get_day('Tmean', a.day)
    def post(self, C, a, out):
        r = out.value
        C.holds('labels', And(Eq(r.daynumber, a.day), r.observable == 'Tmean'))
        if not C.symbolic:
            keep = [k for k in range(a.n) if not a.mask[k] and int(np.floor(a.time[k])) == a.day]
            C.holds('exactly', len(r.indices) == len(keep) and all(r.indices[j] == a.cell[int(a.loc[k])] and r.observation[j] == a.val[k] and r.uncertainty[j] == a.unc[k] for j, k in enumerate(keep))
                    and len(r.observation) == len(keep) == len(r.uncertainty)); return
        q = snp.compress_of(snp.from_fn((a.n,), lambda ix: sym.zbool(And(Not(elem(a.mask, wrapz(ix[0]))), Eq(wrapz(sym.toint_floor(lift(elem(a.time, wrapz(ix[0]))))), a.day))), 'b'))
        cnt = wrapz(q.count) if not isinstance(q.count, (int, sym.Sym)) else q.count
        num = lambda x: x.vf_len() if hasattr(x, 'vf_len') else x.shape[0]
        C.holds('lengths', And(Eq(num(r.indices), cnt), Eq(num(r.observation), cnt), Eq(num(r.uncertainty), cnt)))
        s = lambda k: wrapz(q.sel(lift(k))[0])
        C.forall('value', (cnt,), lambda k: Eq(elem(r.observation, k), elem(a.val, s(k))))
        C.forall('uncertainty', (cnt,), lambda k: Eq(elem(r.uncertainty, k), elem(a.unc, s(k))))
        C.forall('cell', (cnt,), lambda k: Eq(elem(r.indices, k), elem(a.cell, elem(a.loc, s(k)))))

def oracle(items):
    by = {}
    for c, v, u in items: by.setdefault(c, []).append((float(v), float(u)))
    return by

def check_grid(C, get, prefix, items, shape):
    by = oracle(items)
    f = {nm: get('%s_%s' % (prefix, nm)) for nm, _ in OUT}
    for nm, d in f.items():
        C.holds('field_present', d is not None)
        valid = set(int(x) for x in np.flatnonzero(~np.ma.getmaskarray(d).ravel()))
        C.holds('touched_cells_only', valid == set(by))
    mean = get(prefix + '_observation_weightedmean')
    for c, obs in by.items():
        v, u = np.array([o[0] for o in obs]), np.array([o[1] for o in obs])
        want = dict(count=len(obs), observation_min=v.min(), observation_max=v.max(), uncertainty_min=u.min(), uncertainty_max=u.max(), observation_weightedsum=(v / u).sum(), precision_sum=(1 / u).sum())
        for nm, w in want.items(): C.holds(nm, close4(np.ma.getdata(f[nm]).ravel()[c], w))
        if mean is not None: C.holds('weightedmean', close4(np.ma.getdata(mean).ravel()[c], (v / u).sum() / (1 / u).sum()) and not np.ma.getmaskarray(mean).ravel()[c])

@contract
class WholeGrid(Contract):
    """real iris grids: any sequence of days and sources"""
    name = 'diagnosticgrid.sequence'; functions = (DG + ':DiagnosticGridBins.create_fields_from_sparse_observations', DG + ':DiagnosticGridBins.compute_weighted_mean', DG + ':DiagnosticGridBins.__init__', GFL + ':GridFieldList.get_or_create_field', GFL + ':GridFieldList.get_field', GFL + ':GridFieldList.create_field')
    prove = False; weight = .8
    assumptions = ('iris cubes are external: sequences of whole gridding operations are checked by bounded concrete runs (up to 4 batches of 10 observations); the accumulation itself is proved',)
    def setup(self, B):
        a = NS(nlat=B.int('nlat', 1, 4), nlon=B.int('nlon', 1, 4), batches=[], time=B.choice('time', [False, True]))
        for k in range(B.int('batches', 1, 4)):
            n = B.int('n%d' % k, 0, 10)
            a.batches.append((B.choice('src%d' % k, ['land', 'ice']), B.choice('obs%d' % k, ['Tmin', 'Tmax']), B.array('ix%d' % k, (n,), I4, lo=0, hi=a.nlat * a.nlon - 1), B.array('v%d' % k, (n,), F8, gen=val), B.array('u%d' % k, (n,), F8, gen=pos)))
        return a
    def run(self, M, a):
        D, A = M(DG), M(GFL).GridFieldAxis
        ax = ([A(10.0, 1.0, 1, 'time', circular=False)] if a.time else []) + [A(-1.0, 1.0, a.nlat, 'latitude', circular=False), A(-1.0, 1.0, a.nlon, 'longitude', circular=False)]
        g = D.DiagnosticGridBins(ax)
        for s, o, ix, v, u in a.batches: g.create_fields_from_sparse_observations(s, D.DiagnosticGridInput(o, 7, ix, v, u))
        for s, o in sorted(set(b[:2] for b in a.batches)): g.compute_weighted_mean(s, o)
        return g
    def post(self, C, a, out):
        g = out.value
        F = {c.var_name: c.data for c in g}
        C.holds('one_field_each', len(F) == len(g) == 8 * len(set(b[:2] for b in a.batches)))
        for s, o in set(b[:2] for b in a.batches):
            items = [(int(i), x, y) for b in a.batches if b[:2] == (s, o) for i, x, y in zip(b[2], b[3], b[4])]
            check_grid(C, lambda n: F.get(n), '%s_%s' % (s, o), items, (a.nlat, a.nlon))

@contract
class Combine(Contract):
    """the daily diagnostic run: for every input exactly its own valid observations of that day on the global quarter-degree grid"""
    name = 'diagnostic_combine.run'; functions = (DC + ':run', DG + ':DiagnosticGridObservationConnector.__init__', DG + ':DiagnosticGridObservationConnector.get_day')
    prove = False; weight = .12
    assumptions = ('file reading and NetCDF writing are replaced by in-memory objects in the diagnostic_combine check (their round trip is P10); bounded concrete runs',)
    def setup(self, B):
        a = NS(inputs=[], day=B.int('day', 40000, 60000))
        nl = B.int('nl', 1, 2)
        a.tables = [B.array('table%d' % k, (2, 6), F8, gen=lambda r: r.randint(-350, 350) / 4.0 + .0625) for k in range(nl)]
        for k in range(B.int('k', 1, 3)):
            n = B.int('n%d' % k, 1, 8)
            a.inputs.append(NS(src='s%d' % k, obs=B.choice('o%d' % k, ['Tmin', 'Tmax']), tab=B.int('t%d' % k, 0, nl - 1), mask=B.array('m%d' % k, (n,), bool), loc=B.array('l%d' % k, (n,), np.uint64, lo=0, hi=5),
                val=B.array('v%d' % k, (n,), np.float32, gen=val), unc=B.array('u%d' % k, (n,), np.float32, gen=pos)))
        return a
    def run(self, M, a):
        D = M(DC); saved = {}; log = NS(cubes=None, name=None)
        import io, sys
        class Loc:
            def read(s, f): return ('table', int(f))
        class Rng:
            def read(s, f): return ('ranges', f)
        def source(loc, specs, day):
            (o, spec), = specs.items()
            i = a.inputs[int(spec.filename)] if hasattr(spec, 'filename') else a.inputs[int(spec[0])]
            if loc[1] != i.tab or spec.ranges != ('ranges', 'r' + spec.filename): raise ValueError('wrong files')
            def observations(x):
                if x != i.obs: raise ValueError(x)
                return NS(mask=i.mask, time=np.full(len(i.val), day, np.float32), location=i.loc, measurement=i.val, uncorrelatederror=i.unc)
            return NS(observation_location_lookup=lambda: a.tables[loc[1]], observations=observations)
        class Saver:
            def __init__(s, n): log.name = n
            def write_cubes(s, c): log.cubes = {x.var_name: x.data for x in c}
        names = dict(LocationLookupRawBinaryReader=Loc, LocalCorrelationRangeRawBinaryReader=Rng, ObservableFileSpec=lambda f, r: NS(filename=f, ranges=r), ObservationSourceSingleDayRawBinary=source, NetCDFSaverEUSTACE=Saver, ensuredirectory=lambda n: None)
        for k, v in names.items(): saved[k] = getattr(D, k); setattr(D, k, v)
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            import datetime
            D.run('out.nc', [D.DiagnosticInput(i.src, i.obs, 'r%d' % k, str(i.tab), str(k)) for k, i in enumerate(a.inputs)], datetime.datetime(1850, 1, 1) + datetime.timedelta(days=a.day))
        finally:
            sys.stdout = out
            for k, v in saved.items(): setattr(D, k, v)
        return log
    def post(self, C, a, out):
        r = out.value
        C.holds('written', r.name == 'out.nc' and r.cubes is not None and len(r.cubes) == 8 * len(a.inputs))
        for i in a.inputs:
            t = a.tables[i.tab]
            items = []
            for k in range(len(i.val)):
                if i.mask[k]: continue
                l = int(i.loc[k])
                items.append((int(np.floor((t[0, l] + 90) / .25)) * 1440 + int(np.floor((t[1, l] + 180) / .25)), i.val[k], i.unc[k]))
            check_grid(C, lambda n: r.cubes.get(n), '%s_%s' % (i.src, i.obs), items, (720, 1440))
