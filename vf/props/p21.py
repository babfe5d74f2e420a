"""P21 - daily surface-air products: remapping the models' output, removing impossible cells, merging the day's sources"""
import datetime, itertools, math, os, random, shutil, tempfile
import numpy as np
from .. import sym, snp
from ..contract import Contract, NS, Reject
from ..load import Inv, SymSeq, SymRange
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, elem, Only
from .p05 import quiet

CONTRACTS, contract = contract_list()
OF, SA = 'eustace.outputformats.', 'eustace.surfaceairmodel.'
FM, MM, DF, RM, PP, CR, CO, RL, RO, LA, OC = OF + 'filesmerger', OF + 'merge_multiple_outputs', OF + 'definitions', SA + 'fileio.remap', SA + 'fileio.post_processing', SA + 'correlation_ranges', SA + 'fileio.consistent', SA + 'run_land', SA + 'run_ocean', SA + 'fileio.land', SA + 'fileio.ocean'
PRELOAD = (FM, MM, DF, RM, PP, CR, CO, RL, RO, LA, OC)
BUDGET = dict(quick=dict(search=110), thorough=dict(search=500))
ASSUMPTIONS = ['netCDF4 returns the values a file holds, packed values within half a packing step, missing ones masked',
               'the land and ocean models themselves (IDL) are not in this repository: the fields they write are taken as given',
               'directory names do not contain the source label with an underscore before it, and the sources of a day have different labels',
               'floating-point sums, products and square roots are treated as exact real arithmetic in the proofs']
F_ = FM + ':FilesMerger.'
EPOCH = datetime.date(1850, 1, 1)

# ------------------------------------------------------------------ uncertainty propagation

@contract
class Matrix(Contract):
    """the matrix of a merge: ones on the diagonal, twice the correlation of each pair of sources above it in the order the pairs are listed; a list that does not fit is refused"""
    name = 'merge.correlation_matrix'; functions = (F_ + 'build_triangular_correlation_matrix',)
    def setup(self, B):
        a = NS(B=B, n=B.size('n', 1, 6)); a.fits = B.choice('fits', [True, True, False])
        a.off = B.fold('off', lambda: 0, lambda i, v: v + a.n - i - 1, 'i', 0)          # position of the first pair of source i
        if a.fits: a.size = a.off(a.n) if not B.symbolic else B.size('size', 0)
        else: a.size = B.size('size', 0, 16)
        if B.symbolic: B.assume(Eq(2 * a.size, a.n * (a.n - 1)) if a.fits else Not(Eq(2 * a.size, a.n * (a.n - 1))))
        else: B.assume((2 * a.size == a.n * (a.n - 1)) == a.fits)
        a.r = B.func('r', 1, 'r', gen=lambda r, k: r.randint(-16, 16) / 16.0)
        return a
    def entry(self, a, i, j): return If(Eq(i, j), wrapz(sym.z3.RealVal(1)), If(i < j, 2 * a.r(a.off(i) + j - i - 1), wrapz(sym.z3.RealVal(0))))
    def get_invariants(self, B, a):
        if not B.symbolic: return {}
        def inv(v):
            m = [x for x in v.entry.values() if isinstance(x, snp.SArr) and x.code == 'r' and len(x.shape) == 2]
            lo = v.seq.start if isinstance(v.seq, SymRange) else None
            outer = lo is None or isinstance(lo, int) or sym.z3.is_int_value(lift(lo))
            i = v.k if outer else lo - 1
            at = a.off(v.k) if outer else a.off(i) + v.k
            done = (lambda p, q: p < i) if outer else (lambda p, q: Or(p < i, And(Eq(p, i), q < i + 1 + v.k)))
            counters = [n for n, x in v.entry.items() if isinstance(x, (int, sym.Sym)) and not isinstance(x, bool) and n not in ('index', 'jndex', 'i', 'j')]
            cnt = [n for n in counters if bool_eq(v.entry[n], 0 if outer else a.off(i))]
            zero = wrapz(sym.z3.RealVal(0))
            return Inv(arrays=[(m[0], lambda p, q: If(Or(Eq(p, q), done(p, q)), self.entry(a, p, q), zero))] if m else [],
                       locals={n: at for n in cnt[:1]}, facts=[Eq(2 * a.off(i), i * (2 * a.n - i - 1))])
        return {'*': inv}
    def run(self, M, a):
        r = SymSeq(a.size, lambda k: a.r(k)) if a.B.symbolic else [a.r(k) for k in range(a.size)]
        return M(FM).FilesMerger.build_triangular_correlation_matrix(a.n, r)
    def post(self, C, a, out):
        if not a.fits: C.holds('refused', out.raises(ValueError)); return
        m = out.value
        if C.symbolic: C.forall('entries', (a.n, a.n), lambda i, j: Eq(elem(m, i, j), self.entry(a, i, j))); return
        w = np.eye(a.n)
        for k, (i, j) in enumerate(itertools.combinations(range(a.n), 2)): w[i, j] = 2 * a.r(k)
        C.holds('entries', np.array_equal(m, w))
def bool_eq(x, y):
    if x is y: return True
    x, y = lift(x), lift(y)
    return sym.z3.is_true(sym.z3.simplify(x == y))

@contract
class Propagate(Contract):
    """propagated uncertainty: the root of the sum over pairs of sources, each once, of the product of the two uncertainties and the matrix entry"""
    name = 'merge.propagate'; functions = (F_ + 'propagate_uncertainty',)
    def setup(self, B):
        a = NS(B=B, n=B.size('n', 1, 5), m=B.size('m', 1, 5))
        a.u = B.func('u', 2, 'r', gen=lambda r, *k: r.randint(0, 40) / 8.0); a.w = B.func('w', 2, 'r', gen=lambda r, *k: r.randint(0, 16) / 8.0)
        a.row = B.fold('row', lambda i, c: 0, lambda k, v, i, c: v + a.u(i, c) * a.w(i, i + k) * a.u(i + k, c), 'r', 2)
        a.sum = B.fold('sum', lambda c: 0, lambda i, v, c: v + a.row(a.n - i, i, c), 'r', 1)
        return a
    def get_invariants(self, B, a):
        if not B.symbolic: return {}
        def inv(v):
            lo = v.seq.start if isinstance(v.seq, SymRange) else None
            inner = v.ordinal > 0
            acc = [n for n, x in v.entry.items() if isinstance(x, snp.SArr) and x.code == 'r' and len(x.shape) == 1 or isinstance(x, float)]
            if not inner and isinstance(v.k, int): return Inv(locals={n: 0.0 for n in acc[:1]})          # zero before the first source (broadcast to the cells by the first addition)
            i = (lo if lo is not None else 0) if inner else v.k
            f = (lambda c: a.sum(i, c) + a.row(v.k, i, c)) if inner else (lambda c: a.sum(v.k, c))
            return Inv(locals={n: snp.from_fn((a.m,), lambda ix: sym.toreal(lift(f(wrapz(ix[0])))), 'r') for n in acc[:1]})
        return {'*': inv}
    def run(self, M, a):
        if a.B.symbolic:
            u = snp.from_fn((a.n, a.m), lambda ix: lift(a.u(wrapz(ix[0]), wrapz(ix[1]))), 'r'); w = snp.from_fn((a.n, a.n), lambda ix: lift(a.w(wrapz(ix[0]), wrapz(ix[1]))), 'r')
        else: u = np.array([[a.u(i, c) for c in range(a.m)] for i in range(a.n)]); w = np.array([[a.w(i, j) if j >= i else 0 for j in range(a.n)] for i in range(a.n)])
        return M(FM).FilesMerger.propagate_uncertainty(u, w)
    def post(self, C, a, out):
        r = out.value
        C.holds('shape', And(len(r.shape) == 2, Eq(r.shape[0], 1), Eq(r.shape[1], a.m)))
        if C.symbolic: C.forall('root', (a.m,), lambda c: Eq(elem(r, 0, c), wrapz(sym.zsqrt(lift(a.sum(a.n, c))))))
        else: C.holds('root', np.allclose(r[0], [math.sqrt(sum(a.u(i, c) * a.w(i, j) * a.u(j, c) for i in range(a.n) for j in range(i, a.n))) for c in range(a.m)]))

# ------------------------------------------------------------------ merging

TAS, TASU = 'tas', 'tasuncertainty'
def scratch(f):
    d = tempfile.mkdtemp(prefix='vf21')
    try: return f(d)
    finally: shutil.rmtree(d)
def masked(r, shape, lo, hi, step, gaps):
    """values at multiples of a packing step, with gaps"""
    n = int(np.prod(shape)); k = int(round((hi - lo) / step))
    v = np.array([lo + step * r.randint(0, k) for _ in range(n)]).reshape(shape)
    m = np.array([r.random() < gaps for _ in range(n)]).reshape(shape)
    return np.ma.masked_array(v, mask=m)
def save(name, day, fields, comment='none', packing=None):
    """a daily file: fields are {name: (masked values, (scale, offset, fill))}"""
    import netCDF4
    d = netCDF4.Dataset(name, 'w')
    sh = next(iter(fields.values()))[0].shape
    for k, n in zip(('time', 'latitude', 'longitude'), (None,) + sh): d.createDimension(k, n)
    d.createVariable('time', 'f4', ('time',))[0:1] = np.array([day])
    for k, (v, (scale, offset, fill)) in fields.items():
        x = d.createVariable(k, 'i2', ('time', 'latitude', 'longitude'), fill_value=fill); x.set_auto_maskandscale(True); x.scale_factor = scale; x.add_offset = offset
        x[:] = v[None]
    d.comment = comment
    d.close()
def contents(name):
    import netCDF4
    d = netCDF4.Dataset(name)
    try: return {k: np.ma.masked_array(v[...]) for k, v in d.variables.items()}, {k: d.getncattr(k) for k in d.ncattrs()}
    finally: d.close()
def alike(x, y, tol):
    x, y = np.ma.masked_array(x), np.ma.masked_array(y)
    if x.shape != y.shape: return False
    mx, my = np.ma.getmaskarray(x), np.ma.getmaskarray(y)
    return np.array_equal(mx, my) and bool(np.all(np.abs(x.data[~mx] - y.data[~my]) <= tol))
TEMP, UNC = (0.005, 273.15, -32768), (0.001, 32.767, -32768)
ANC = (('SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_RANDOM', 'tas_unc_rand'), ('SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_LOCALLYCORRELATED', 'tas_unc_corr_sat'), ('SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_SYSTEMATIC', 'tas_unc_sys'))
LABELS = ['AATSR', 'ATSR2', 'AVHRR', 'modis-a', 'SLSTR']          # no label can appear in the name of a scratch directory
def mean_of(fields):
    """average of the sources that have a value"""
    m = np.array([np.ma.getmaskarray(f) for f in fields]); v = np.where(m, 0, np.array([f.data for f in fields])); n = (~m).sum(0)
    return np.ma.masked_array(v.sum(0) / np.maximum(n, 1), mask=n == 0)
def spread_of(fields, corr):
    """uncertainty of that average when pair (i, j) of the sources has correlation corr[i, j]"""
    m = np.array([np.ma.getmaskarray(f) for f in fields]); v = np.where(m, 0, np.array([f.data for f in fields])); n = (~m).sum(0)
    var = sum(v[i] ** 2 for i in range(len(fields))) + sum(2 * corr[i, j] * v[i] * v[j] for i, j in itertools.combinations(range(len(fields)), 2))
    return np.ma.masked_array(np.sqrt(np.maximum(var, 0)) / np.maximum(n, 1), mask=n == 0)

class Day:
    """the sources of one day: their fields, their files, the correlations of each ancillary field between pairs of sources"""
    def __init__(self, r, shape, nsource, day, nanc, labels):
        self.day, self.labels, self.shape = day, labels, shape
        gaps = r.choice([.0, .2, .5, .9])
        g = lambda: gaps if r.random() < .8 else 0.0
        self.fields = [{TAS: masked(r, shape, 240, 320, .005, g()), TASU: masked(r, shape, 0, 6, .001, g())} for _ in range(nsource)]
        for f in self.fields:
            for k, n in ANC[:nanc]: f[n] = masked(r, shape, 0, 3, .001, g())
        self.corr = [[r.choice([0.0, .25, .5, 1.0, .1]) for _ in range(nsource * (nsource - 1) // 2)] for _ in range(nanc)]
    def name(self, d, kind, k): return os.path.join(d, kind, 'tas_ocean_eustace_0_%s_%s.nc' % (self.labels[k], (EPOCH + datetime.timedelta(days=self.day)).strftime('%Y%m%d')))
    def merged(self, d, kind, k=0): return self.name(d, kind, k).replace('_' + self.labels[k], '')
    def write(self, d, k, day=None, ancday=None):
        for kind in ('main', 'ancillary'): os.makedirs(os.path.join(d, kind), exist_ok=True)
        day = self.day if day is None else day
        save(self.name(d, 'main', k), day, {n: (f, TEMP if n == TAS else UNC) for n, f in self.fields[k].items() if n in (TAS, TASU)})
        save(self.name(d, 'ancillary', k), day if ancday is None else ancday, {n: (f, UNC) for n, f in self.fields[k].items() if n not in (TAS, TASU)})
    def expected(self, present):
        """what the merged main and ancillary files hold"""
        f = [self.fields[k] for k in present]
        pairs = list(itertools.combinations(range(len(self.fields)), 2))
        main = {TAS: mean_of([x[TAS] for x in f]), TASU: spread_of([x[TASU] for x in f], np.zeros((len(f), len(f))))}
        anc = {}
        for q, n in enumerate(x for x in f[0] if x not in (TAS, TASU)):
            c = np.zeros((len(f), len(f)))
            for i, j in itertools.combinations(range(len(f)), 2): c[i, j] = self.corr[q][pairs.index((present[i], present[j]))]
            anc[n] = spread_of([x[n] for x in f], c)
        for k, x in zip(present, f):
            for n in x: anc[n + '_' + self.labels[k]] = x[n]
        return main, anc

class Merge(Contract):
    prove = False
    def stubs(self, B, a): return {DF + ':GLOBAL_FIELD_SHAPE': (1,) + a.day.shape, 'eumopps.version.svn:get_revision_id_for_module': lambda m: 'R1'}
    def merger(self, M, a, days, d):
        D = M(DF); nanc = len(a.day.corr)
        p, q = [x.name(d, 'main', k) for x, ks in days for k in ks], [x.name(d, 'ancillary', k) for x, ks in days for k in ks]
        return M(FM).FilesMerger(p, q, np.array([len(ks) for x, ks in days], np.int64), [D.TAS], [D.TASUNCERTAINTY], [getattr(D, k) for k, n in ANC[:nanc]], a.day.corr)
    def same_file(self, C, tag, got, want, day, label, packed=True):
        v, attrs = got
        C.holds(tag + '.time', float(np.ravel(v['time'])[0]) == day)
        for k, w in want.items():
            C.holds(tag + '.' + label(k), k in v)
            if k in v: C.holds('%s.%s' % (tag, label(k)), alike(v[k][0], w, (.0026 if k.startswith(TAS) and not k.startswith(TASU) and 'unc' not in k else .00051) if packed else 1e-9))
    def files(self, d): return {k: sorted(os.listdir(os.path.join(d, k))) for k in ('main', 'ancillary')}

@contract
class MergeDays(Merge):
    """each day's product: the mean of the day's sources where any has a value, their uncertainty with the given correlations over the number of sources with a value, the sources' own fields beside it; the sources are then removed; one source alone is kept as it is under the product's name; different dates are refused"""
    name = 'merge.days'; weight = 1.5
    functions = tuple(F_ + n for n in ('__init__', 'merge_outputs_from_multiple_daily_sources', 'merge_outputs_from_single_day', 'update_single_file', 'merge_multiple_files', 'compute_mean_fields', 'compute_propagated_uncertainties', 'extract_and_modify_masked_array_data_and_mask', 'append_original_fields', 'build_triangular_correlation_matrix', 'propagate_uncertainty')) + (CO + ':ConsistentModelOutputNetCDF.write_element', CO + ':ConsistentModelOutputNetCDF.write_primary', CO + ':ConsistentModelOutputNetCDF.write_ancillary')
    def setup(self, B):
        a = NS(seed=B.int('seed', 0, 10**9), bad=B.choice('bad', [None] * 6 + ['main', 'ancillary']))
        r = random.Random(a.seed); shape = (r.randint(1, 3), r.randint(2, 4)); n = r.randint(2, 4) if a.bad else r.choice([1, 2, 2, 3, 4])
        nanc = r.randint(1, 3); start = r.randint(50000, 60000)
        labels = r.sample(LABELS, n)
        ndays = 1 if a.bad else r.choice([1, 1, 2, 3, 4]); full = r.randrange(ndays)
        alone = [not a.bad and q != full and r.random() < .4 for q in range(ndays)]          # days with one source only among the others
        a.days = [Day(r, shape, 1 if alone[q] else n, start + q, nanc, r.sample(labels, 1) if alone[q] else labels) for q in range(ndays)]
        for x in a.days: x.corr = a.days[full].corr
        a.day = a.days[0]; a.which = r.randrange(n)
        return a
    def run(self, M, a):
        def go(d):
            for x in a.days:
                for k in range(len(x.fields)): x.write(d, k, day=x.day + (1 if a.bad == 'main' and k == a.which else 0), ancday=x.day + (1 if a.bad == 'ancillary' and k == a.which else 0))
            a.before = self.files(d); a.d = d
            m = self.merger(M, a, [(x, list(range(len(x.fields)))) for x in a.days], d)
            try: quiet(lambda: m.merge_outputs_from_multiple_daily_sources('module', 'institution', 'catalogue'))
            except Exception: a.after = self.files(d); raise
            a.after = self.files(d)
            a.lists = [os.path.relpath(n, d) for n in m.list_of_merged_main_outputs], [os.path.relpath(n, d) for n in m.list_of_merged_ancillary_outputs]
            return [(contents(x.merged(d, 'main')), contents(x.merged(d, 'ancillary'))) for x in a.days]
        return scratch(go)
    def post(self, C, a, out):
        if a.bad:
            C.holds('refused', out.raises(ValueError)); C.holds('kept', a.before == a.after); return
        got = out.value
        lab = lambda k: next((k[:-len(l) - 1] + '_source' for x in a.days for l in x.labels if k.endswith('_' + l)), k)
        for x, (m, q) in zip(a.days, got):
            p = list(range(len(x.fields))); main, anc = x.expected(p)
            if len(p) == 1: anc = {k: v for k, v in anc.items() if k in x.fields[0]}
            self.same_file(C, 'main', m, main, x.day, lab); self.same_file(C, 'ancillary', q, anc, x.day, lab)
            for t, f in (('main', m), ('ancillary', q)): C.holds(t + '.comment', f[1]['comment'] == 'input data preprocessed from %s retrievals.' % ', '.join(x.labels))
            if len(p) == 1: C.holds('main.only', set(m[0]) == {'time', TAS, TASU})
        for k, kind in enumerate(('main', 'ancillary')):
            C.holds('names.' + kind, a.lists[k] == [os.path.relpath(x.merged(a.d, kind), a.d) for x in a.days])
            C.holds('removed.' + kind, a.after[kind] == sorted(os.path.basename(x.merged(a.d, kind)) for x in a.days))

@contract
class Clean(Contract):
    """sources without files are dropped, with the correlations of every pair they belong to; what remains keeps its order; main and ancillary files that do not belong together are refused"""
    name = 'merge.missing'; prove = False; functions = (FM + ':clean_list_of_outputs_to_merge',)
    def setup(self, B):
        a = NS(seed=B.int('seed', 0, 10**9), kind=B.choice('kind', ['good'] * 5 + ['unpaired', 'crossed', 'length']))
        r = random.Random(a.seed); a.n = r.randint(2 if a.kind == 'crossed' else 1, 5)
        a.state = [[r.choice(['file', 'file', 'none', 'absent'])] * 2 for _ in range(a.n)]
        k, j = r.randrange(a.n), r.randrange(a.n)
        if a.kind == 'unpaired': a.state[k] = r.choice([['file', 'none'], ['absent', 'file'], ['none', 'file'], ['file', 'absent']])
        if a.kind == 'crossed':
            while j == k: j = r.randrange(a.n)
            a.state[k], a.state[j] = ['file', r.choice(['none', 'absent'])], [r.choice(['none', 'absent']), 'file']
        a.corr = [[r.randint(-99, 99) / 100.0 for _ in range(a.n * (a.n - 1) // 2)] for _ in range(r.randint(1, 3))]
        a.numpy = r.random() < .7
        return a
    def run(self, M, a):
        def go(d):
            def name(kind, k, st):
                n = os.path.join(d, '%s_%d.nc' % (kind, k))
                if st == 'file': open(n, 'w').close()
                return None if st == 'none' else n
            main, anc = [name('m', k, s[0]) for k, s in enumerate(a.state)], [name('a', k, s[1]) for k, s in enumerate(a.state)]
            if a.kind == 'length': anc.append(name('a', a.n, 'file'))
            a.keep = [k for k, s in enumerate(a.state) if s[0] == 'file']; a.want = [main[k] for k in a.keep], [anc[k] for k in a.keep]
            count, corr = np.zeros(1, np.int64) if a.numpy else np.zeros(1, np.int64), [list(c) for c in a.corr]
            quiet(lambda: M(FM).clean_list_of_outputs_to_merge(main, anc, count, corr))
            return main, anc, count, corr
        return scratch(go)
    def post(self, C, a, out):
        if a.kind != 'good': C.holds('refused', out.raises(ValueError)); return
        main, anc, count, corr = out.value
        C.holds('main', main == a.want[0]); C.holds('ancillary', anc == a.want[1]); C.holds('count', int(count[0]) == len(a.keep))
        pairs = list(itertools.combinations(range(a.n), 2))
        C.holds('correlations', corr == [[c[q] for q, (i, j) in enumerate(pairs) if i in a.keep and j in a.keep] for c in a.corr])

@contract
class MergeDay(Merge):
    """a day of the catalogue: the sources that have files are merged with the correlations of their own pairs; products under another name than expected are refused"""
    name = 'merge.single_day'; functions = (MM + ':merge_single_day_outputs', MM + ':merge_multiple_days_outputs', MM + ':return_daily_outputs', FM + ':clean_list_of_outputs_to_merge', F_ + 'check_produced_output', CR + ':CorrelationRanges.update_correlated_uncertainty_ranges')
    def setup(self, B):
        a = NS(seed=B.int('seed', 0, 10**9), misnamed=B.choice('misnamed', [None] * 6 + ['main', 'ancillary']))
        r = random.Random(a.seed); shape = (r.randint(1, 3), r.randint(2, 4)); n = r.randint(1, 4)
        a.day = Day(r, shape, n, r.randint(50000, 60000), r.randint(1, 3), r.sample(LABELS, n))
        a.present = [k for k in range(n) if r.random() < .65]; a.none = [r.random() < .5 for _ in range(n)]
        if a.misnamed and not a.present: raise Reject()
        a.scales = {ANC[1][1]: (r.choice([50.0, 100.0, 'unknown']), r.choice([1.0, 3.0]))}
        return a
    def run(self, M, a):
        def go(d):
            x = a.day
            for kind in ('main', 'ancillary'): os.makedirs(os.path.join(d, kind))
            for k in a.present: x.write(d, k)
            given = {kind: [x.name(d, kind, k) if k in a.present or not a.none[k] else None for k in range(len(x.fields))] for kind in ('main', 'ancillary')}
            exp = {kind: [x.merged(d, kind) + ('.other' if a.misnamed == kind else '')] for kind in ('main', 'ancillary')}
            cr = M(CR).CorrelationRanges(list(a.scales), ['km', 'day'], [v[0] for v in a.scales.values()], [v[1] for v in a.scales.values()])
            D = M(DF); before = {k: dict(getattr(D, k).__dict__) for k, n in ANC}
            daily = M(MM).return_daily_outputs(catalogue_id='CAT', institution='INST', output_main=exp['main'], output_ancillary=exp['ancillary'], correlation_indexes=repr(x.corr), comment_prefix='made from ', definitions_module=D.__name__, primary_fields_list=['TAS'], uncertainty_fields_list=['TASUNCERTAINTY'], ancillary_fields_list=[k for k, n in ANC[:len(x.corr)]], correlation_ranges=cr, input_main=given['main'], input_ancillary=given['ancillary'])
            try:
                quiet(lambda: M(MM).merge_multiple_days_outputs([daily]))
                a.after = self.files(d); a.attrs = dict(getattr(D, ANC[1][0]).__dict__)
                return (contents(x.merged(d, 'main')), contents(x.merged(d, 'ancillary'))) if a.present else None
            finally:
                for k, v in before.items(): getattr(D, k).__dict__.clear(); getattr(D, k).__dict__.update(v)
        return scratch(go)
    def post(self, C, a, out):
        if a.misnamed: C.holds('refused', out.raises(ValueError)); return
        got, x = out.value, a.day
        if not a.present: C.holds('nothing', a.after == {'main': [], 'ancillary': []}); return
        main, anc = x.expected(a.present)
        if len(a.present) == 1: anc = {k: v for k, v in anc.items() if k in x.fields[0]}
        lab = lambda k: next((k[:-len(l) - 1] + '_source' for l in x.labels if k.endswith('_' + l)), k)
        self.same_file(C, 'main', got[0], main, x.day, lab); self.same_file(C, 'ancillary', got[1], anc, x.day, lab)
        for f in got: C.holds('comment', f[1]['comment'] == 'made from %s retrievals.' % ', '.join(x.labels[k] for k in a.present))
        for kind in ('main', 'ancillary'): C.holds('removed.' + kind, a.after[kind] == [os.path.basename(x.merged('', kind))])
        if len(x.corr) > 1:
            s = a.scales[ANC[1][1]]
            C.holds('scales', (a.attrs['length_scale'], a.attrs['time_scale'], a.attrs['length_scale_units'], a.attrs['time_scale_units']) == (s[0], s[1], 'km', 'day'))

# ------------------------------------------------------------------ fields of the models

@contract
class PostProcess(Contract):
    """cells whose minimum exceeds their maximum are removed from the extremes, their uncertainties and every ancillary field, and counted; all other cells stay as they are"""
    name = 'land.impossible_cells'; functions = (PP + ':apply_land_post_processing', CO + ':ConsistentModelOutputNetCDF.post_process'); prove = False
    KEYS = ('tasmin', 'tasmax', 'tasminuncertainty', 'tasmaxuncertainty')
    def setup(self, B):
        a = NS(seed=B.int('seed', 0, 10**9), surface=B.choice('surface', ['LAND', 'LAND', 'LAND', 'LAND', 'ICE']))
        r = random.Random(a.seed); a.shape = r.choice([(r.randint(1, 4), r.randint(1, 4)), (1, r.randint(1, 3), r.randint(1, 3))]); a.f = {}
        common = r.random() < .5; base = np.array([r.random() < .3 for _ in range(int(np.prod(a.shape)))]).reshape(a.shape)
        for k in self.KEYS + ('extra0', 'extra1'):
            fill = r.choice([-32768.0, 1e20]); n = int(np.prod(a.shape))
            v = np.array([r.choice([270.0, 275.0, 280.0, 280.5]) if k in ('tasmin', 'tasmax') else r.randint(0, 40) / 8.0 for _ in range(n)]).reshape(a.shape)
            m = base if common else np.array([r.random() < .3 for _ in range(n)]).reshape(a.shape)
            if r.random() < .2: m = np.ma.nomask
            a.f[k] = np.ma.masked_array(np.where(m, fill, v), mask=m, fill_value=fill)
        a.before = {k: v.copy() for k, v in a.f.items()}
        return a
    def run(self, M, a):
        w = M(CO).ConsistentModelOutputNetCDF(NS(), [NS(name='extra0'), NS(name='extra1')])
        w.post_process(a.f, a.surface)
        return a.f
    def post(self, C, a, out):
        if a.surface != 'LAND': C.holds('refused', out.raises(ValueError)); return
        f = out.value; lo, hi = a.before['tasmin'], a.before['tasmax']
        bad = ~np.ma.getmaskarray(lo) & ~np.ma.getmaskarray(hi) & (lo.data > hi.data)
        C.holds('count', int(f['problematic_pixels_count']) == int(bad.sum()))
        for k, b in a.before.items():
            m = np.ma.getmaskarray(b) | bad
            C.holds(k, np.array_equal(np.ma.getmaskarray(f[k]), m) and np.array_equal(f[k].data[~m], b.data[~m]) and f[k].shape == b.shape)

def wp1(name, r, shape, day, fields, order, scale=True):
    """a file as the land and ocean models write it: time first or last, packed or not"""
    import netCDF4
    d = netCDF4.Dataset(name, 'w'); dims = {'time': 1, 'lat': shape[0], 'lon': shape[1]}
    for k, n in dims.items(): d.createDimension(k, n)
    ref = r.choice([datetime.date(1850, 1, 1), datetime.date(1981, 1, 1), datetime.date(1970, 1, 1)]); per = r.choice([('days', 1), ('hours', 24), ('seconds', 86400)])
    t = d.createVariable('time', 'f8', ('time',)); t.units = '%s since %s 00:00:00' % (per[0], ref); t[0:1] = ((EPOCH + datetime.timedelta(days=day)) - ref).days * float(per[1]) + r.choice([0, 0, .25, .5, .99]) * per[1]
    for k, v in fields.items():
        if v.dtype.kind == 'i': x = d.createVariable(k, 'i2', order, fill_value=0)
        else: x = d.createVariable(k, 'f4' if scale else 'f8', order, fill_value=-9999.0)
        x[:] = v[None] if order[0] == 'time' else v[..., None]
    d.close()
OCEAN = [('tas_unc_rand', 'unc_rand_tas'), ('tas_unc_corr_sat', 'unc_corr_tas'), ('tas_unc_sys', 'unc_syst_tas'), ('tas_unc_corr_mod', 'unc_corr2_tas'), ('tas_unc_sys_mod', 'unc_syst2_tas')] + [('tas_unc_parameter_%d' % k, 'unc_parameter_%d_tas' % k) for k in range(5)]
LAND = [('%s_unc_%s' % (x, c), 'unc_%s_%s' % (c, x)) for x in ('tasmin', 'tasmax') for c in ('rand', 'corr_atm', 'corr_sfc', 'sys')]
def root_sum(fs): return np.ma.masked_array(np.sqrt(sum(f.data ** 2 for f in fs)), mask=np.any([np.ma.getmaskarray(f) for f in fs], axis=0))

class Remap(Contract):
    prove = False
    def world(self, r, a, impossible=True):
        """one day's model output and what the product holds for it"""
        gaps = r.choice([0, .2, .5]); g = lambda: gaps if r.random() < .8 else 0
        if a.surface == 'ocean':
            f = {'tas': masked(r, a.shape, -5, 35, .005, g())}; f.update({o: masked(r, a.shape, 0, 1.5, .001, g()) for n, o in OCEAN})
            w = {'tas': f['tas'] + 273.15, 'tasuncertainty': root_sum([f[o] for n, o in OCEAN])}; w.update({n: f[o] for n, o in OCEAN})
        else:
            lo = masked(r, a.shape, 250, 300, .005, g()); up = masked(r, a.shape, 0, 15, .005, g()); up.data[...] += lo.data
            f = {'tasmin': lo, 'tasmax': up}; f.update({o: masked(r, a.shape, 0, 1.5, .001, g()) for n, o in LAND})
            for k in ('tasmin', 'tasmax'):
                v = np.array([r.randint(1, 3) for _ in range(int(np.prod(a.shape)))], np.int16).reshape(a.shape); f[k + '_model_number'] = np.ma.masked_array(v, mask=np.array([r.random() < gaps for _ in range(v.size)]).reshape(a.shape))
            if impossible:
                for c in np.ndindex(*a.shape):
                    if r.random() < .2: lo.data[c] = up.data[c] + 1
            w = {k: f[k] for k in ('tasmin', 'tasmax', 'tasmin_model_number', 'tasmax_model_number')}; w.update({n: f[o] for n, o in LAND})
            for k in ('tasmin', 'tasmax'): w[k + 'uncertainty'] = root_sum([f[o] for n, o in LAND if n.startswith(k)])
        return NS(day=r.randint(40000, 70000), fields=f, want=w)

@contract
class RemapFields(Remap):
    """every field of the model's output appears under its published name, ocean temperatures in kelvin, total uncertainty the root of the sum of the squares of its own components, missing where any is missing, for the file's day"""
    name = 'remap.fields'; functions = tuple(RM + ':' + n for n in ('RemapNetCDF.read_fields', 'RemapNetCDFSpecDayNumber.operate', 'RemapNetCDFSpecCopy.operate', 'RemapNetCDFSpecTotalUncertainty.operate')) + (LA + ':RemapNetCDFLandWP1.__init__', OC + ':RemapNetCDFOceanWP1.__init__')
    def setup(self, B):
        a = NS(seed=B.int('seed', 0, 10**9), surface=B.choice('surface', ['land', 'ocean']))
        r = random.Random(a.seed); a.shape = (r.randint(2, 4), r.randint(2, 4)); a.w = self.world(r, a); a.r = r
        return a
    def stubs(self, B, a): return {DF + ':GLOBAL_FIELD_SHAPE': (1,) + a.shape}
    def run(self, M, a):
        def go(d):
            n = os.path.join(d, 'x.nc'); wp1(n, a.r, a.shape, a.w.day, a.w.fields, a.r.choice([('time', 'lat', 'lon'), ('lat', 'lon', 'time')]), a.r.random() < .5)
            return (M(LA).RemapNetCDFLandWP1() if a.surface == 'land' else M(OC).RemapNetCDFOceanWP1()).read_fields(n)
        return scratch(go)
    def post(self, C, a, out):
        f = out.value
        C.holds('day', f['daynumber'] == a.w.day)
        C.holds('names', set(f) == set(a.w.want) | {'daynumber'})
        for k, v in a.w.want.items(): C.holds(k, k in f and alike(f[k], v, 1e-4))

@contract
class RunDays(Remap):
    """running several days: each day's product files hold that day's own model output; impossible land cells are removed and counted; the model is run once with every day's own input and output"""
    name = 'run.days'; weight = .5; functions = tuple(m + ':' + n for m in (RL, RO) for n in ('run_multiple_days', 'run_day', 'return_daily_inputs')) + (CO + ':ConsistentModelOutputNetCDF.write_element',)
    def setup(self, B):
        a = NS(seed=B.int('seed', 0, 10**9), surface=B.choice('surface', ['land', 'ocean']), single=B.choice('single', [False, False, True]))
        r = random.Random(a.seed); a.shape = (r.randint(1, 3) + 1, r.randint(2, 4)); a.n = 1 if a.single else r.randint(1, 3); a.w = [self.world(r, a) for _ in range(a.n)]; a.r = r
        a.snow = [r.choice([None, 'snow%d' % k]) for k in range(a.n)]; a.seen = []
        return a
    def stubs(self, B, a):
        def model(*args):
            a.args = args
            def run_idl(outputs, inputs):
                a.seen.append(inputs)
                for w, o in zip(a.w, outputs): wp1(''.join(o) if isinstance(o, (list, tuple)) else o, a.r, a.shape, w.day, w.fields, ('lat', 'lon', 'time') if a.surface == 'land' else ('time', 'lat', 'lon'), False)
            return NS(run_idl=run_idl)
        return {DF + ':GLOBAL_FIELD_SHAPE': (1,) + a.shape, RL + ':ModelLand': Only(model), RO + ':ModelOcean': Only(model), 'eumopps.version.svn:get_revision_id_for_module': lambda m: 'R1'}
    def run(self, M, a):
        m = M(RL if a.surface == 'land' else RO)
        def go(d):
            tmp = tempfile.tempdir; tempfile.tempdir = d
            try:
                names = [(os.path.join(d, 'main%d.nc' % k), os.path.join(d, 'anc%d.nc' % k)) for k in range(a.n)]
                def kw(k):
                    common = dict(catalogue_id='CAT', institution='INST', output_main=names[k][0], output_ancillary=names[k][1])
                    if a.surface == 'ocean': return dict(common, input_model_parameters='P', input_model_uncertainty='U', input_model_stdev='S', input_satellite_ocean='sat%d' % k)
                    return dict(common, input_model_1='M1', input_model_2='M2', input_model_3='M3', input_satellite_land_day='day%d' % k, input_satellite_land_night='night%d' % k, input_satellite_land_snow=a.snow[k], input_satellite_land_mask_north='N', input_satellite_land_mask_south='S', input_satellite_land_DEM='DEM', input_satellite_land_fvc='FVC', frac_sat_obs_threshold=.2, sampling_threshold=3)
                if a.single: quiet(lambda: m.run_day(**kw(0)))
                else: quiet(lambda: m.run_multiple_days([m.return_daily_inputs(**kw(k)) for k in range(a.n)]))
                return [tuple(contents(x) for x in p) for p in names]
            finally: tempfile.tempdir = tmp
        return scratch(go)
    def post(self, C, a, out):
        got = out.value
        if a.surface == 'ocean':
            C.holds('model', a.args == ('P', 'U', 'S')); C.holds('inputs', a.seen == [['sat%d' % k for k in range(a.n)]])
        else:
            C.holds('model', a.args == (['M1', 'M2', 'M3'], .2, 3))
            C.holds('inputs', a.seen == [[['FVC', 'DEM', ['N', 'S'], a.snow[k] if a.snow[k] or a.single else 'MISSING', ['day%d' % k, 'night%d' % k]] for k in range(a.n)]])
        for k, (w, (main, anc)) in enumerate(zip(a.w, got)):
            want = dict(w.want)
            if a.surface == 'land':
                lo, hi = want['tasmin'], want['tasmax']; bad = ~np.ma.getmaskarray(lo) & ~np.ma.getmaskarray(hi) & (lo.data > hi.data + 1e-9)
                want = {n: np.ma.masked_array(v.data, mask=np.ma.getmaskarray(v) | bad) for n, v in want.items()}
                C.holds('count', str(int(bad.sum())) in main[1]['comment'] and main[1]['comment'] == anc[1]['comment'])
            prim = [n for n in want if n in ('tas', 'tasmin', 'tasmax') or n.endswith('uncertainty')]
            for tag, (v, attrs), ns in (('main', main, prim), ('ancillary', anc, [n for n in want if n not in prim])):
                C.holds(tag + '.day', float(np.ravel(v['time'])[0]) == w.day)
                C.holds(tag + '.fields', set(v) - {'time', 'time_bounds', 'timebounds', 'latitude', 'longitude', 'timeoffset'} >= set(ns) and not set(v) & (set(want) - set(ns)))
                C.holds(tag + '.attributes', attrs['institution'] == 'INST' and attrs['source'].endswith('CAT'))
                for n in ns: C.holds('%s.%s' % (tag, n), n in v and alike(v[n][0], want[n], .0026 if n in ('tas', 'tasmin', 'tasmax') else .00051))

@contract
class Impossible(Contract):
    """the same for fields of any size: removal is exactly where the minimum exceeds the maximum"""
    name = 'land.removal'; functions = (PP + ':apply_land_post_processing',)
    KEYS = PostProcess.KEYS + ('extra',)
    FILL = -32768.0
    def setup(self, B):
        a = NS(B=B, ny=B.size('ny', 1, 4), nx=B.size('nx', 1, 4)); a.f, a.v, a.m = {}, {}, {}
        full = B.choice('complete', [None] + list(self.KEYS))
        for k in self.KEYS:
            v = B.array(k, (a.ny, a.nx), 'f8', 0, 400); m = B.array(k + '_gap', (a.ny, a.nx), bool)
            if B.symbolic:
                vs, ms = v.snapshot(), m.snapshot()
                if k == full: ms = lambda ix: sym.z3.BoolVal(False)
                a.v[k], a.m[k] = (lambda s: lambda i, j: wrapz(s((lift(i), lift(j)))))(vs), (lambda s: lambda i, j: wrapz(s((lift(i), lift(j)))))(ms)
                mk = lambda s, c, dt: snp.from_fn((a.ny, a.nx), s, c, np.dtype(dt))
                d = mk((lambda vs, ms: lambda ix: sym.z3.If(ms(ix), sym.z3.RealVal(self.FILL), vs(ix)))(vs, ms), 'r', 'f8')
                a.f[k] = snp.SMArr(d.copy(), None if k == full else mk(ms, 'b', bool).copy(), self.FILL)
            else:
                if k == full: m = np.zeros((a.ny, a.nx), bool)
                a.v[k], a.m[k] = (lambda x: lambda i, j: x[i, j])(v.copy()), (lambda x: lambda i, j: x[i, j])(m.copy())
                a.f[k] = np.ma.masked_array(np.where(m, self.FILL, v), mask=np.ma.nomask if k == full else m, fill_value=self.FILL)
        return a
    def run(self, M, a):
        M(PP).apply_land_post_processing(a.f, [NS(name='extra')])
        return a.f
    def post(self, C, a, out):
        f = out.value
        bad = lambda i, j: And(Not(a.m['tasmin'](i, j)), Not(a.m['tasmax'](i, j)), a.v['tasmin'](i, j) > a.v['tasmax'](i, j))
        for k in self.KEYS:
            mask = f[k].getmaskarray() if C.symbolic else np.ma.getmaskarray(f[k])
            C.forall(k + '.missing', (a.ny, a.nx), lambda i, j: Eq(elem(mask, i, j), Or(a.m[k](i, j), bad(i, j))))
            C.forall(k + '.kept', (a.ny, a.nx), lambda i, j: Implies(Not(Or(a.m[k](i, j), bad(i, j))), Eq(elem(f[k].data, i, j), a.v[k](i, j))))

class Handle:
    """an open file: variables by name, read whole"""
    def __init__(self, f):
        class Var:
            def __init__(s, x): s.x = x
            def __getitem__(s, k): return s.x
        class Vars:
            def __getitem__(s, k): return Var(f(k))
        self.variables = Vars()

@contract
class Total(Contract):
    """total uncertainty of any number of components: root of the sum of their squares, missing exactly where one of them is"""
    name = 'remap.total'; functions = (RM + ':RemapNetCDFSpecTotalUncertainty.operate',)
    def setup(self, B):
        a = NS(B=B, n=B.size('n', 1, 5), first=B.choice('first', [True, False]))
        a.shape = (B.size('ny', 2), B.size('nx', 2)) if B.symbolic else (2, 3)
        a.u = B.func('u', 3, 'r', gen=lambda r, *k: r.randint(0, 40) / 8.0); a.gap = B.func('gap', 3, 'b', gen=lambda r, *k: r.random() < .2)
        a.sum = B.fold('sum', lambda i, j: 0, lambda k, v, i, j: v + a.u(k, i, j) * a.u(k, i, j), 'r', 2)
        a.miss = B.fold('miss', lambda i, j: False, lambda k, v, i, j: Or(v, a.gap(k, i, j)), 'b', 2)
        return a
    def stubs(self, B, a): return {DF + ':GLOBAL_FIELD_SHAPE': (1,) + a.shape}
    def field(self, a, k):
        sh = (1,) + a.shape if a.first else a.shape + (1,)
        ij = (lambda ix: ix[1:]) if a.first else (lambda ix: ix[:2])
        if a.B.symbolic: return snp.SMArr(snp.from_fn(sh, lambda ix: lift(a.u(k, *[wrapz(i) for i in ij(ix)])), 'r', np.dtype('f8')), snp.from_fn(sh, lambda ix: lift(a.gap(k, *[wrapz(i) for i in ij(ix)])), 'b', np.dtype(bool)))
        v = np.array([[a.u(k, i, j) for j in range(a.shape[1])] for i in range(a.shape[0])]); m = np.array([[a.gap(k, i, j) for j in range(a.shape[1])] for i in range(a.shape[0])], bool)
        return np.ma.masked_array(v, mask=m if m.any() else np.ma.nomask).reshape(sh)
    def get_invariants(self, B, a):
        if not B.symbolic: return {}
        def inv(v):
            acc = [n for n, x in v.entry.items() if isinstance(x, (snp.SMArr, np.ma.MaskedArray)) and x.ndim == 2]
            one = snp.SMArr(snp.from_fn(a.shape, lambda ix: sym.toreal(lift(a.sum(v.k, wrapz(ix[0]), wrapz(ix[1])))), 'r', np.dtype('f8')), snp.from_fn(a.shape, lambda ix: lift(a.miss(v.k, wrapz(ix[0]), wrapz(ix[1]))), 'b', np.dtype(bool)))
            return Inv(locals={n: one for n in acc[:1]})
        return {'*': inv}
    def run(self, M, a):
        res = {}
        names = SymSeq(a.n, lambda k: k) if a.B.symbolic else list(range(a.n))
        M(RM).RemapNetCDFSpecTotalUncertainty('total', names).operate(res, Handle(lambda k: self.field(a, k)))
        return res
    def post(self, C, a, out):
        r = out.value
        C.holds('name', list(r) == ['total'])
        f = r['total']; mask = f.getmaskarray() if C.symbolic else np.ma.getmaskarray(f)
        C.holds('shape', And(len(f.shape) == 2, Eq(f.shape[0], a.shape[0]), Eq(f.shape[1], a.shape[1])))
        C.forall('missing', a.shape, lambda i, j: Eq(elem(mask, i, j), a.miss(a.n, i, j)))
        C.forall('total', a.shape, lambda i, j: Or(a.miss(a.n, i, j), Eq(elem(f.data, i, j), wrapz(sym.zsqrt(lift(a.sum(a.n, i, j))))) if C.symbolic else abs(elem(f.data, i, j) - math.sqrt(a.sum(a.n, i, j))) < 1e-9))
