"""P13 - surface-air ice model: quality control, coefficients, uncertainty propagation; land and ocean model configuration"""
import contextlib, datetime, io, math, os, random, shutil, sys, tempfile
import numpy as np
import scipy.io
from .. import sym, snp
from ..contract import Contract, NS, Reject
from ..sym import And, Or, Not, Implies, If, Eq, Abs, wrapz, lift
from .common import contract_list, Only, elem
from .p15 import quiet

CONTRACTS, contract = contract_list()
SA = 'eustace.surfaceairmodel.'
MI, QC, FI = SA + 'model_ice', SA + 'model_ice_input_processing', SA + 'fileio.ice'
PRELOAD = (MI, QC)
F8 = np.float64
ASSUMPTIONS = ('floating-point arithmetic is treated as exact real arithmetic in the proofs, sin, cos and sqrt as the real functions; the bounded search allows a relative difference of 1e-9 and leaves cells within 1e-9 of a threshold undecided',
               'fields enter the per-part model only through ravel(), so the proof over one-dimensional fields of any length stands for fields of any shape; two-dimensional fields are covered by the bounded end-to-end contract',
               'scipy.signal.convolve(image, kernel, "valid") is the convolution it documents; images are at least 5x5',
               'numpy.ma sum and mean along an axis leave out masked entries and mask a result only where all entries are masked',
               'the night bin comparison excludes nothing: the original Matlab logic, kept on purpose (the existing tests say so)',
               'the land and ocean models are IDL programs started by a Python wrapper: only the configuration the wrapper hands over is covered')
OBS = ('tas', 'tasmin', 'tasmax'); PARTS = ('LandIce', 'SeaIce'); HEM = ('nh', 'sh')
SAMPLING = {'nh': {'LandIce': (1.6, 2.2, 2.1), 'SeaIce': (0.0, 2.9, 2.0)}, 'sh': {'LandIce': (1.6, 1.5, 3.8), 'SeaIce': (1.7, 5.7, 2.9)}}
RELATION = {'LandIce': (1.5, 1.8, 2.0), 'SeaIce': (1.7, 1.8, 2.1)}
CLOUD = (0.0, 2.0, 0.0)
SUFFIX = ('uncertainty', '_unc_no_cloud', '_unc_rand', '_unc_corr_local', '_unc_sys', '_unc_cloud')

def same(a, b):
    if sym._symbolic(a, b): return Eq(a, b)
    return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))
def root(x): return snp.sqrt(x) if sym._symbolic(x) else math.sqrt(x)
def cosine(x): return snp.cos(x) if sym._symbolic(x) else math.cos(x)
def sine(x): return snp.sin(x) if sym._symbolic(x) else math.sin(x)
def masked(arr, *ix):
    if isinstance(arr, snp.SMArr): return arr.getmaskarray().elem(*ix)
    return bool(np.ma.getmaskarray(arr)[ix])
def data(arr, *ix):
    if isinstance(arr, snp.SMArr): return arr.data.elem(*ix)
    return float('nan') if masked(arr, *ix) else float(arr.data[ix])
def near(x, t): return (not sym._symbolic(x, t)) and abs(float(x) - float(t)) < 1e-7
PI2 = 2.0 * np.pi
def temperature(c, day, t):
    w = PI2 * (day - 18262.0) / 365.2425
    return c[1] * (t - 273.15) + c[0] + c[2] * cosine(w) + c[3] * sine(w) + 273.15
def parts_of(hem, part, o, c, u, s, l):
    k = OBS.index(o)
    return (root(u * u + SAMPLING[hem][part][k] ** 2) * c[1], root((s * c[1]) * (s * c[1]) + RELATION[part][k] ** 2), c[1] * 0.2, c[1] * (l - 0.2 + CLOUD[k]))

FIELDS = ('air_temperature', 'uncertainty_uncorrelated', 'uncertainty_synoptically_correlated', 'uncertainty_large_scale_correlated', 'uncertainty_cloud')

@contract
class Temperature(Contract):
    """air temperature is the documented linear combination: offset + slope * skin temperature in Celsius + annual cycle, back in Kelvin"""
    name = 'model_ice.compute_air_temperature_TskinSeason'
    functions = (MI + ':ModelIce.compute_air_temperature_TskinSeason',)
    def setup(self, B):
        n = B.size('n', 0, 6)
        return NS(n=n, c=B.array('c', (4,), lo=-4, hi=8), day=B.int('day', 0, 80000), t=B.array('t', (n,), lo=200, hi=300))
    def run(self, M, a): return M(MI).ModelIce.compute_air_temperature_TskinSeason(a.c, a.day, a.t)
    def post(self, C, a, out):
        r = out.value
        c = [elem(a.c, k) for k in range(4)]
        C.forall('value', (a.n,), lambda i: same(elem(r, i), temperature(c, a.day, elem(a.t, i))))

def given(B, n, name, lo, hi):
    m = B.marray(name, (n,), lo=lo, hi=hi)
    if not B.symbolic and not m.mask.any() and B.bool(name + '_nomask'): m = np.ma.masked_array(m.data)
    return m

@contract
class Part(Contract):
    """a part gives a value exactly where the temperature, all three uncertainties and the part's surface are present, leaves every other cell alone, and refuses to overwrite another part"""
    name = 'model_ice.process_observable_part'
    functions = (MI + ':ModelIceObservableProcessor.process_observable_part', MI + ':ModelIceObservableProcessor.__init__')
    def setup(self, B):
        n = B.size('n', 0, 6)
        a = NS(B=B, n=n, c=B.array('c', (4,), lo=-4, hi=8), day=B.int('day', 0, 80000), first=B.choice('first', [True, False]))
        a.t = given(B, n, 't', 200, 300); a.u = given(B, n, 'u', 0, 3); a.s = given(B, n, 's', 0, 3); a.l = given(B, n, 'l', 0, 3)
        a.pm = B.array('pm', (n,), bool)
        a.hem, a.part, a.o = B.choice('hem', HEM), B.choice('part', PARTS), B.choice('o', OBS)
        a.before = None
        if not a.first:
            m = B.array('bm', (n,), bool)
            a.before = [(B.array('b%d' % k, (n,), lo=-300, hi=300), m) for k in range(5)]
        return a
    def run(self, M, a):
        p = M(MI).ModelIceObservableProcessor(a.o)
        if a.before:
            for f, (d, m) in zip(FIELDS, a.before): setattr(p, f, snp.SMArr(d.copy(), m.copy()) if a.B.symbolic else np.ma.masked_array(d.copy(), mask=m.copy()))
        a.p = p
        with contextlib.redirect_stderr(io.StringIO()): p.process_observable_part(a.part, a.pm, a.c, a.day, a.hem, a.t, a.u, a.s, a.l)
        return p
    def valid(self, a, i): return And(*[Not(x) for x in (masked(a.t, i), masked(a.u, i), masked(a.s, i), masked(a.l, i), elem(a.pm, i))])
    def post(self, C, a, out):
        if C.symbolic:
            for q in list(getattr(sym.ctx(), 'compressions', [])): snp.mention_ranks(q.sel(lift(0))[0])
        if out.raises(ValueError):
            if C.symbolic:
                w = Or(*[And(q.count > 0, self.valid(a, wrapz(q.sel(lift(0))[0])), Not(elem(a.before[0][1], wrapz(q.sel(lift(0))[0])))) for q in sym.ctx().compressions]) if a.before else False
            else: w = bool(a.before) and any(self.valid(a, i) and not a.before[0][1][i] for i in range(a.n))
            C.holds('refused_only_on_overlap', w)
            return
        p = out.value
        c = [elem(a.c, k) for k in range(4)]
        def cell(i):
            if C.symbolic: snp.mention_ranks(i)
            v = self.valid(a, i)
            want = (temperature(c, a.day, data(a.t, i)),) + parts_of(a.hem, a.part, a.o, c, data(a.u, i), data(a.s, i), data(a.l, i))
            cs = []
            for f, w, k in zip(FIELDS, want, range(5)):
                r = getattr(p, f); m = masked(r, i)
                if a.before:
                    b, bm = a.before[k]
                    cs.append(Implies(v, And(Not(m), same(data(r, i), w))))
                    cs.append(Implies(Not(v), And(Eq(m, elem(bm, i)), Or(m, same(data(r, i), elem(b, i))))))
                else: cs.append(And(Eq(Not(m), v), Implies(v, same(data(r, i), w))))
            if a.before: cs.append(Implies(v, elem(a.before[0][1], i)))
            return And(*cs)
        C.forall('cell', (a.n,), cell)

class Inputs:
    """quality controlled inputs: the callee contracts of IceSurfaceTemperatureQualityControl, with separate temperature fields per observable"""
    def __init__(self, a): self.a = a; self.daynumber = a.day
    def hemisphere(self): return self.a.hem
    def land_ice_mask(self): return self.a.land
    def sea_ice_mask(self): return self.a.sea
    def quality_controlled_surface_temperature(self): return self.a.t['tas']
    def quality_controlled_surface_temperature_min(self): return self.a.t['tasmin']
    def quality_controlled_surface_temperature_max(self): return self.a.t['tasmax']
    def uncertainty_uncorrelated(self): return self.a.u
    def uncertainty_synoptically_correlated(self): return self.a.s
    def uncertainty_large_scale_correlated(self): return self.a.l

class _Observable(Contract):
    def fields(self, B):
        n = B.size('n', 0, 6)
        a = NS(B=B, n=n, day=B.int('day', 0, 80000), hem=B.choice('hem', HEM))
        a.t = {o: given(B, n, 't_' + o, 200, 300) for o in OBS}
        a.u = given(B, n, 'u', 0, 3); a.s = given(B, n, 's', 0, 3); a.l = given(B, n, 'l', 0, 3)
        a.land = B.array('land', (n,), bool); conc = B.array('conc', (n,), bool)
        a.sea = conc | ~a.land
        a.c = {h: {p: {o: B.array('c_%s_%s_%s' % (h, p, o), (4,), lo=-4, hi=8) for o in OBS} for p in PARTS} for h in HEM}
        return a
    def check(self, C, a, r, o):
        C.holds('names_' + o, all(o + x in r for x in ('',) + SUFFIX))
        def cell(i):
            if C.symbolic: snp.mention_ranks(i)
            have = And(*[Not(masked(x, i)) for x in (a.t[o], a.u, a.s, a.l)])
            cs = []
            seen = False
            for part, pm in zip(PARTS, (a.land, a.sea)):
                v = And(have, Not(elem(pm, i))); seen = Or(seen, v)
                c = [elem(a.c[a.hem][part][o], k) for k in range(4)]
                T, ru, ssu, lsu, cu = (temperature(c, a.day, data(a.t[o], i)),) + parts_of(a.hem, part, o, c, data(a.u, i), data(a.s, i), data(a.l, i))
                nocloud2 = lambda: data(r[o + '_unc_rand'], i) ** 2 + data(r[o + '_unc_corr_local'], i) ** 2 + data(r[o + '_unc_sys'], i) ** 2
                f = dict(zip(('', '_unc_rand', '_unc_corr_local', '_unc_sys', '_unc_cloud'), (T, ru, ssu, lsu, cu)))
                for s, w in f.items(): cs.append(Implies(v, And(Not(masked(r[o + s], i)), same(data(r[o + s], i), w))))
                cs.append(Implies(v, And(Not(masked(r[o + '_unc_no_cloud'], i)), same(data(r[o + '_unc_no_cloud'], i), root(nocloud2())))))
                cs.append(Implies(v, And(Not(masked(r[o + 'uncertainty'], i)), same(data(r[o + 'uncertainty'], i), root(nocloud2() + data(r[o + '_unc_cloud'], i) ** 2)))))
            cs.append(Implies(Not(seen), And(*[masked(r[o + s], i) for s in ('',) + SUFFIX])))
            return And(*cs)
        C.forall('cell_' + o, (a.n,), cell)

@contract
class Observable(_Observable):
    """each observable: its own temperature field, the coefficients of its hemisphere and surface, components as propagated, totals root sum of squares without and with cloud"""
    name = 'model_ice.process_observable'
    functions = (MI + ':ModelIceProcessor.process_observable', MI + ':ModelIceProcessor.__init__', MI + ':ModelIceObservableProcessor.process_observable_part')
    max_paths = 400
    def setup(self, B):
        a = self.fields(B); a.o = B.choice('o', OBS)
        return a
    def run(self, M, a):
        with contextlib.redirect_stderr(io.StringIO()): return M(MI).ModelIceProcessor(NS(components=a.c), Inputs(a)).process_observable(a.o)
    def post(self, C, a, out): self.check(C, a, out.value, a.o)

@contract
class Hemisphere(_Observable):
    """all three observables are computed, none from another's input"""
    name = 'model_ice.process_hemisphere'
    functions = (MI + ':ModelIce.process_hemisphere',)
    prove = False
    def setup(self, B): return self.fields(B)
    def run(self, M, a):
        m = M(MI).ModelIce(); m.components = a.c
        with contextlib.redirect_stderr(io.StringIO()): return m.process_hemisphere(Inputs(a))
    def post(self, C, a, out):
        r = out.value
        C.holds('nothing_else', sorted(r) == sorted(o + s for o in OBS for s in ('',) + SUFFIX))
        for o in OBS: self.check(C, a, r, o)

# ------------------------------------------------------------------ quality control

class Bare:
    """an instance with fields set directly (the constructor has its own contract)"""
def bare(M, **k):
    c = M(QC).IceSurfaceTemperatureQualityControl
    o = c.__new__(c)
    for n, v in k.items(): setattr(o, n, v)
    return o
NIGHT, DAY = (0, 1, 6, 7), (2, 3, 4, 5)
NAMES2 = ('surface_temperature', 'surface_temperature_min', 'surface_temperature_max', 'surface_temperature_std', 'sea_ice_fraction')

class World(Contract):
    """input fields on a grid of any size"""
    weight = 0.5
    def fields(self, B, lo=1):
        ny, nx = B.size('ny', lo, 4 if lo < 5 else 8), B.size('nx', lo, 4 if lo < 5 else 8)
        a = NS(B=B, ny=ny, nx=nx, f={})
        temp = lambda r: r.choice([r.uniform(240, 278), r.uniform(200, 300), 278.15, 270.0, 260.0])
        for n in NAMES2[:3]: a.f[n] = B.marray(n, (ny, nx), gen=temp)
        a.f['surface_temperature_std'] = B.marray('std', (ny, nx), gen=lambda r: r.choice([r.uniform(0, 9), 7.07]))
        a.f['sea_ice_fraction'] = B.marray('sif', (ny, nx), gen=lambda r: r.choice([r.uniform(0, 1), .3, .85]))
        a.f['surface_temperature_3d'] = B.marray('t3', (8, ny, nx), gen=temp)
        a.f['Nobs3d'] = B.marray('n3', (8, ny, nx), np.int64, lo=0, hi=3)
        a.f['land_mask'] = B.array('land', (ny, nx), np.int64, lo=0, hi=8)
        return a
    # the documented masks, cell by cell
    def land_ice(self, a, i, j): v = elem(a.f['land_mask'], i, j); return Not(Or(Eq(v, 1), Eq(v, 4)))
    def concentration(self, a, i, j): f = a.f['sea_ice_fraction']; return Or(masked(f, i, j), data(f, i, j) < 0.3)
    def sea_ice(self, a, i, j): return Or(self.concentration(a, i, j), Not(self.land_ice(a, i, j)))
    def ice(self, a, i, j): return And(self.concentration(a, i, j), self.land_ice(a, i, j))
    def std(self, a, i, j): f = a.f['surface_temperature_std']; return And(Not(masked(f, i, j)), data(f, i, j) > 7.07)
    def value(self, a, i, j): f = a.f['surface_temperature']; return And(Not(masked(f, i, j)), data(f, i, j) > 278.15)
    def noobs(self, a, bins, i, j):
        f = a.f['Nobs3d']
        return And(*[Or(masked(f, k, i, j), Eq(f.data.elem(k, i, j) if isinstance(f, snp.SMArr) else int(f.data[k, i, j]), 0)) for k in bins])
    def day(self, a, i, j): return self.noobs(a, DAY, i, j)
    def night(self, a, i, j): return self.noobs(a, NIGHT, i, j)
    def either(self, a, i, j): return Or(self.day(a, i, j), self.night(a, i, j))
    def binmean(self, a, bins, i, j):
        f = a.f['surface_temperature_3d']; t, n = 0, 0
        for k in bins:
            m = masked(f, k, i, j); t = t + If(m, 0, data(f, k, i, j)); n = n + If(m, 0, 1)
        return t, n
    def far(self, a, name, bins, limit, i, j):
        """|field - mean of the present bins| > limit, compared without dividing; (known, above) and the two sides"""
        f = a.f[name]; t, n = self.binmean(a, bins, i, j)
        d = data(f, i, j) * n - t
        return And(Not(masked(f, i, j)), n > 0), Or(d > limit * n, -d > limit * n), d, limit * n
    def both(self, got, want, x=None, y=None):
        return Or(near(abs(x), y), Eq(got, want)) if x is not None and not sym._symbolic(x) else Eq(got, want)
    def grid(self, C, a, name, r, f):
        C.holds(name + '_shape', And(len(r.shape) == 2, Eq(r.shape[0], a.ny), Eq(r.shape[1], a.nx)))
        C.forall(name, (a.ny, a.nx), f)
def truth(r, i, j):
    """the mask value; a masked entry of a mask counts as excluded"""
    if isinstance(r, (snp.SMArr, np.ma.MaskedArray)):
        return Or(masked(r, i, j), r.data.elem(i, j) if isinstance(r, snp.SMArr) else bool(r.data[i, j]))
    v = elem(r, i, j)
    return v if isinstance(v, sym.Sym) else bool(v)

@contract
class SurfaceMasks(World):
    """land ice is land class 1 or 4; sea ice is a known concentration of at least 0.3 away from land ice; the two never overlap and leave only cells with neither"""
    name = 'input_processing.surface_masks'
    functions = tuple(QC + ':IceSurfaceTemperatureQualityControl.' + n for n in ('land_ice_mask', 'sea_ice_concentration_mask', 'sea_ice_mask', 'ice_mask', 'marginal_ice_zone_mask', 'hemisphere'))
    def setup(self, B):
        a = self.fields(B); a.f['latitude'] = B.array('lat', (a.ny,), lo=-90, hi=90)
        return a
    def run(self, M, a):
        q = bare(M, **a.f)
        return NS(land=q.land_ice_mask(), conc=q.sea_ice_concentration_mask(), sea=q.sea_ice_mask(), ice=q.ice_mask(), miz=q.marginal_ice_zone_mask(), hem=q.hemisphere())
    def post(self, C, a, out):
        r = out.value
        self.grid(C, a, 'land_ice', r.land, lambda i, j: Eq(truth(r.land, i, j), self.land_ice(a, i, j)))
        self.grid(C, a, 'concentration', r.conc, lambda i, j: Eq(truth(r.conc, i, j), self.concentration(a, i, j)))
        self.grid(C, a, 'sea_ice', r.sea, lambda i, j: Eq(truth(r.sea, i, j), self.sea_ice(a, i, j)))
        self.grid(C, a, 'ice', r.ice, lambda i, j: Eq(truth(r.ice, i, j), self.ice(a, i, j)))
        self.grid(C, a, 'marginal', r.miz, lambda i, j: Eq(truth(r.miz, i, j), Or(self.sea_ice(a, i, j), data(a.f['sea_ice_fraction'], i, j) >= 0.85)))
        C.forall('disjoint', (a.ny, a.nx), lambda i, j: And(Or(truth(r.land, i, j), truth(r.sea, i, j)), Eq(And(truth(r.land, i, j), truth(r.sea, i, j)), truth(r.ice, i, j))))
        C.holds('hemisphere', If(elem(a.f['latitude'], 0) > 0, r.hem == 'nh', r.hem == 'sh'))

@contract
class ValueMasks(World):
    """standard deviation above 7.07, temperature above 278.15 K and no (known) observations in the bins of the day or night exclude a cell; unknown values do not"""
    name = 'input_processing.value_masks'
    functions = tuple(QC + ':IceSurfaceTemperatureQualityControl.' + n for n in ('temperature_standard_deviation_mask', 'temperature_value_mask', 'observations_day_mask', 'observations_night_mask', 'observations_day_or_night_mask'))
    def setup(self, B): return self.fields(B)
    def run(self, M, a):
        q = bare(M, **a.f)
        return NS(std=q.temperature_standard_deviation_mask(), value=q.temperature_value_mask(), day=q.observations_day_mask(), night=q.observations_night_mask(), either=q.observations_day_or_night_mask())
    def post(self, C, a, out):
        r = out.value
        for n in ('std', 'value', 'day', 'night', 'either'):
            self.grid(C, a, n, getattr(r, n), lambda i, j: Eq(truth(getattr(r, n), i, j), getattr(self, n)(a, i, j)))

@contract
class BinMasks(World):
    """a cell is excluded where its temperature is known and further from the mean of its known bins than allowed (all bins: 10 K; maximum against day bins: 20 K); the night comparison excludes nothing"""
    name = 'input_processing.bin_comparisons'
    functions = tuple(QC + ':IceSurfaceTemperatureQualityControl.' + n for n in ('combined_bin_comparison_mask', 'day_bin_comparison_mask', 'night_bin_comparison_mask'))
    def setup(self, B): return self.fields(B)
    def run(self, M, a):
        q = bare(M, **a.f)
        return NS(all=q.combined_bin_comparison_mask(), day=q.day_bin_comparison_mask(), night=q.night_bin_comparison_mask())
    def post(self, C, a, out):
        r = out.value
        def cell(got, name, bins, limit):
            def f(i, j):
                known, above, d, l = self.far(a, name, bins, limit, i, j)
                return self.both(truth(got, i, j), And(known, above), d, l)
            return f
        self.grid(C, a, 'combined', r.all, cell(r.all, 'surface_temperature', range(8), 10))
        self.grid(C, a, 'day', r.day, cell(r.day, 'surface_temperature_max', DAY, 20))
        self.grid(C, a, 'night', r.night, lambda i, j: Not(truth(r.night, i, j)))

class CloudStub:
    """callee contract of cloud_mask: some boolean field, determined by what it is given"""
    def __init__(self, a): self.a = a; self.calls = []
    def __call__(self, variable, icemask):
        a = self.a; k = len(self.calls)
        self.calls.append(NS(v=variable.copy(), m=icemask.copy()))
        return a.cloud[k].copy()

@contract
class Filter(World):
    """outlier filtering keeps the data and excludes exactly: missing, no ice, outlier among the accepted sea ice cells, outlier among the accepted land ice cells, or failed threshold"""
    name = 'input_processing.filter_outliers'
    functions = tuple(QC + ':IceSurfaceTemperatureQualityControl.' + n for n in ('filter_outliers',))
    def setup(self, B):
        a = self.fields(B); a.thr = B.array('thr', (a.ny, a.nx), bool); a.v = B.marray('v', (a.ny, a.nx))
        a.cloud = [B.array('cloud%d' % k, (a.ny, a.nx), bool) for k in range(2)]; a.stub = CloudStub(a)
        return a
    def stubs(self, B, a): return {QC + ':IceSurfaceTemperatureQualityControl.cloud_mask': staticmethod(a.stub)}
    def run(self, M, a): return bare(M, **a.f).filter_outliers(a.v, a.thr)
    def post(self, C, a, out):
        r = out.value
        C.holds('two_regions', len(a.stub.calls) == 2)
        if len(a.stub.calls) != 2: return
        # which call is for which surface is decided by the masks handed over
        region = lambda f: lambda k: lambda i, j: And(Eq(masked(a.stub.calls[k].v, i, j), masked(a.v, i, j)), Or(masked(a.v, i, j), same(data(a.stub.calls[k].v, i, j), data(a.v, i, j))), Eq(truth(a.stub.calls[k].m, i, j), Or(elem(a.thr, i, j), f(a, i, j))))
        x, y = region(self.concentration), region(self.land_ice)
        if C.symbolic:
            ix, rng = snp.fresh_index((a.ny, a.nx))
            first = not sym.ctx().feasible(sym.zbool(And(wrapz(rng), Not(x(0)(*[wrapz(q) for q in ix])))))
        else: first = all(x(0)(i, j) for i in range(a.ny) for j in range(a.nx))
        if first: p = (x(0), y(1))
        else: p = (x(1), y(0))
        C.forall('sea_ice_cells', (a.ny, a.nx), p[0]); C.forall('land_ice_cells', (a.ny, a.nx), p[1])
        self.grid(C, a, 'excluded', r, lambda i, j: And(Eq(masked(r, i, j), Or(masked(a.v, i, j), self.ice(a, i, j), elem(a.cloud[0], i, j), elem(a.cloud[1], i, j), elem(a.thr, i, j))),
                                                        Or(masked(r, i, j), same(data(r, i, j), data(a.v, i, j)))))

@contract
class Thresholds(World):
    """each temperature is filtered with its own thresholds: mean by day and night observations and all bins, minimum by night, maximum by day"""
    name = 'input_processing.quality_controlled'
    functions = tuple(QC + ':IceSurfaceTemperatureQualityControl.' + n for n in ('quality_controlled_surface_temperature', 'quality_controlled_surface_temperature_min', 'quality_controlled_surface_temperature_max'))
    def setup(self, B):
        a = self.fields(B); a.o = B.choice('o', OBS); a.seen = []
        return a
    def stubs(self, B, a):
        def filt(me, variable, mask):
            a.seen.append((variable, mask)); return 'FILTERED'
        return {QC + ':IceSurfaceTemperatureQualityControl.filter_outliers': filt}
    def run(self, M, a): return getattr(bare(M, **a.f), 'quality_controlled_surface_temperature' + a.o[3:].replace('m', '_m', 1))()
    def post(self, C, a, out):
        C.holds('filtered', out.value == 'FILTERED' and len(a.seen) == 1)
        v, m = a.seen[0]
        C.holds('own_field', v is a.f['surface_temperature' + a.o[3:].replace('m', '_m', 1)])
        def want(i, j):
            base = Or(self.std(a, i, j), self.value(a, i, j))
            if a.o == 'tasmin': return Or(base, self.night(a, i, j)), None
            known, above, d, l = self.far(a, *(('surface_temperature', range(8), 10) if a.o == 'tas' else ('surface_temperature_max', DAY, 20)), i, j)
            return Or(base, self.either(a, i, j) if a.o == 'tas' else self.day(a, i, j), And(known, above)), (d, l)
        def cell(i, j):
            w, x = want(i, j)
            return self.both(truth(m, i, j), w, *(x or ()))
        self.grid(C, a, 'threshold', m, cell)

@contract
class LocalMean(World):
    """mean of the present neighbours in the 5x5 square without its centre, known where there are at least two"""
    name = 'input_processing.local_mean'
    functions = (QC + ':IceSurfaceTemperatureQualityControl.local_mean',)
    def setup(self, B):
        ny, nx = B.size('ny', 5, 8), B.size('nx', 5, 8)
        return NS(ny=ny, nx=nx, x=B.marray('x', (ny, nx), gen=lambda r: r.uniform(200, 300)))
    def run(self, M, a): return M(QC).IceSurfaceTemperatureQualityControl.local_mean(2, 2, a.x)
    def post(self, C, a, out):
        r = out.value
        C.holds('shape', And(Eq(r.shape[0], a.ny - 4), Eq(r.shape[1], a.nx - 4)))
        def cell(i, j):
            t, n = around(a.x, i + 2, j + 2)
            return And(Eq(masked(r, i, j), n < 2), Implies(n >= 2, same(data(r, i, j) * n, t)))
        C.forall('mean', (a.ny - 4, a.nx - 4), cell)

def around(x, i, j, extra=None):
    t, n = 0, 0
    for di in range(-2, 3):
        for dj in range(-2, 3):
            if di == 0 and dj == 0: continue
            m = masked(x, i + di, j + dj)
            if extra is not None: m = Or(m, elem(extra, i + di, j + dj))
            t = t + If(m, 0, data(x, i + di, j + dj)); n = n + If(m, 0, 1)
    return t, n

@contract
class Cloud(World):
    """a present, accepted cell with at least two such neighbours is flagged exactly when it lies more than 10 K below their mean; the two outer rows and columns never are"""
    name = 'input_processing.cloud_mask'
    functions = (QC + ':IceSurfaceTemperatureQualityControl.cloud_mask', QC + ':IceSurfaceTemperatureQualityControl.local_mean')
    def setup(self, B):
        ny, nx = B.size('ny', 5, 8), B.size('nx', 5, 8)
        return NS(ny=ny, nx=nx, x=B.marray('x', (ny, nx), gen=lambda r: r.uniform(240, 280)), m=B.array('m', (ny, nx), bool))
    def run(self, M, a): return M(QC).IceSurfaceTemperatureQualityControl.cloud_mask(a.x, a.m)
    def post(self, C, a, out):
        r = out.value
        C.holds('shape', And(Eq(r.shape[0], a.ny), Eq(r.shape[1], a.nx)))
        def cell(i, j):
            inside = And(i >= 2, i < a.ny - 2, j >= 2, j < a.nx - 2)
            if not C.symbolic and not inside: return not r[i, j]
            t, n = around(a.x, i, j, a.m)
            here = Not(Or(masked(a.x, i, j), elem(a.m, i, j)))
            want = And(inside, here, n >= 2, t - data(a.x, i, j) * n > 10 * n)
            if not C.symbolic and near(t - data(a.x, i, j) * n, 10 * n): return True
            return Eq(truth(r, i, j), want)
        C.forall('flag', (a.ny, a.nx), cell)

# ------------------------------------------------------------------ both hemispheres together, files (bounded)

BUDGET = dict(quick=dict(search=60), thorough=dict(search=300))

def world(r, lat, nx, complete=False):
    """random input fields of one hemisphere"""
    ny = len(lat); g = np.random.RandomState(r.randrange(2**31))
    base = 262.0
    def m(shape, p): return np.zeros(shape, bool) if complete else g.rand(*shape) < p
    def ma(d, p): return np.ma.masked_array(d) if complete else np.ma.masked_array(d, mask=m(d.shape, p))
    t = base + g.randn(ny, nx) * r.choice([1.0, 4.0, 9.0])
    p = r.choice([0.0, 0.1, 0.4])
    f = dict(surface_temperature=ma(t, p), surface_temperature_min=ma(t - 4 * g.rand(ny, nx), p), surface_temperature_max=ma(t + 4 * g.rand(ny, nx), p),
             surface_temperature_std=ma(7.6 * g.rand(ny, nx), p), surface_temperature_3d=ma(t + 3 * g.randn(8, ny, nx), r.choice([0.0, .3, .8])),
             Nobs3d=ma(g.randint(0, 3, (8, ny, nx)), r.choice([0.0, .2])), land_mask=g.randint(0, 6, (ny, nx)), sea_ice_fraction=ma(g.rand(ny, nx), p),
             uncorrelated_uncertainty=ma(g.rand(ny, nx), p / 2), synoptically_correlated_uncertainty=ma(g.rand(ny, nx), p / 2), large_scale_correlated_uncertainty=ma(.2 + g.rand(ny, nx), p / 2))
    return f
class Edge(Exception):
    """a cell within rounding of a threshold: this input decides nothing"""
def gt(x, t):
    if abs(x - t) < 1e-6: raise Edge()
    return x > t
def reference(f, o, hem, coef, day):
    """the documented model, cell by cell, in plain Python"""
    t2 = {'tas': 'surface_temperature', 'tasmin': 'surface_temperature_min', 'tasmax': 'surface_temperature_max'}[o]
    T = f[t2]; ny, nx = T.shape
    M = {n: np.ma.getmaskarray(v) for n, v in f.items()}
    def means(bins, i, j):
        v = [float(f['surface_temperature_3d'].data[k, i, j]) for k in bins if not M['surface_temperature_3d'][k, i, j]]
        return sum(v) / len(v) if v else None
    bad = np.zeros((ny, nx), bool); land = np.zeros((ny, nx), bool); conc = np.zeros((ny, nx), bool)
    for i in range(ny):
        for j in range(nx):
            land[i, j] = f['land_mask'][i, j] in (1, 4)
            conc[i, j] = not M['sea_ice_fraction'][i, j] and not gt(.3, float(f['sea_ice_fraction'].data[i, j]))
            b = not M['surface_temperature_std'][i, j] and gt(float(f['surface_temperature_std'].data[i, j]), 7.07)
            b |= not M['surface_temperature'][i, j] and gt(float(f['surface_temperature'].data[i, j]), 278.15)
            obs = lambda bins: sum(int(f['Nobs3d'].data[k, i, j]) for k in bins if not M['Nobs3d'][k, i, j])
            if o != 'tasmin': b |= obs(DAY) == 0
            if o != 'tasmax': b |= obs(NIGHT) == 0
            if o != 'tasmin' and not M[t2][i, j]:
                mu = means(range(8) if o == 'tas' else DAY, i, j)
                if mu is not None: b |= gt(abs(float(T.data[i, j]) - mu), 10 if o == 'tas' else 20)
            bad[i, j] = b
    def outliers(region):
        use = region & ~bad & ~M[t2]; out = np.zeros((ny, nx), bool)
        for i in range(2, ny - 2):
            for j in range(2, nx - 2):
                if not use[i, j]: continue
                v = [float(T.data[i + p, j + q]) for p in range(-2, 3) for q in range(-2, 3) if (p or q) and use[i + p, j + q]]
                if len(v) >= 2: out[i, j] = gt(sum(v) / len(v) - float(T.data[i, j]), 10)
        return out
    bad |= outliers(conc) | outliers(land) | M[t2]
    for n in ('uncorrelated_uncertainty', 'synoptically_correlated_uncertainty', 'large_scale_correlated_uncertainty'): bad |= M[n]
    res = {}
    for i in range(ny):
        for j in range(nx):
            part = 'LandIce' if land[i, j] else 'SeaIce' if conc[i, j] else None
            if bad[i, j] or part is None: continue
            c = [float(x) for x in coef[part][o]]
            u, s, l = [float(f[n].data[i, j]) for n in ('uncorrelated_uncertainty', 'synoptically_correlated_uncertainty', 'large_scale_correlated_uncertainty')]
            ru, ssu, lsu, cu = parts_of(hem, part, o, c, u, s, l)
            res[i, j] = dict(zip(('',) + SUFFIX, (temperature(c, day, float(T.data[i, j])), math.sqrt(ru * ru + ssu * ssu + lsu * lsu + cu * cu), math.sqrt(ru * ru + ssu * ssu + lsu * lsu), ru, ssu, lsu, cu)))
    return res
def coefficients(r): return {h: {p: {o: np.array([r.uniform(-3, 6), r.uniform(.7, 1.2), r.uniform(-2, 2), r.uniform(-2, 2)]) for o in OBS} for p in PARTS} for h in HEM}
def compare(C, tag, out, want, row0, ny, nx):
    for o in OBS:
        for s in ('',) + SUFFIX:
            x = out[o + s]; m = np.ma.getmaskarray(x)
            for i in range(ny):
                for j in range(nx):
                    w = want[o].get((i, j))
                    C.holds('%s_%s%s_present_%d_%d' % (tag, o, s, i, j), (w is not None) == (not m[row0 + i, j]))
                    if w is not None: C.holds('%s_%s%s_value_%d_%d' % (tag, o, s, i, j), same(x.data[row0 + i, j], w[s]))

@contract
class Global(Contract):
    """both hemispheres placed by latitude on one global grid, masked between, each with its own coefficients; quality control and model agree with the documented rules in every cell"""
    name = 'model_ice.process_global'
    functions = (MI + ':ModelIce.process_global', MI + ':ModelIce.process_hemisphere', QC + ':IceSurfaceTemperatureQualityControl.__init__')
    prove = False; weight = 0.4
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed)
        a.res = r.choice([.25, .25, .1, 1.0, .3]); a.nx = r.randint(5, 7); ns, nn = r.randint(5, 7), r.randint(5, 7)
        lat0 = -r.randint(20, 60) * a.res - a.res / 2; gap = r.randint(0, 9)
        s = lat0 + a.res * np.arange(ns)
        first = ns + gap
        while lat0 + a.res * first <= 0: first += 1
        n = lat0 + a.res * (first + np.arange(nn))
        a.dtype = r.choice([np.float64, np.float64, np.float32]) if a.res in (.25, 1.0) else np.float64
        a.s, a.n = s.astype(a.dtype), n.astype(a.dtype); a.first = first
        a.day = r.randint(40000, 60000); a.c = coefficients(r)
        a.fs, a.fn = world(r, a.s, a.nx, r.random() < .1), world(r, a.n, a.nx, r.random() < .1)
        lon = np.arange(a.nx) * 1.0
        Q = M(QC).IceSurfaceTemperatureQualityControl; m = M(MI).ModelIce(); m.components = a.c
        with contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
            return m.process_global(Q(a.day, a.s, lon, **{k: v.copy() for k, v in a.fs.items()}), Q(a.day, a.n, lon, **{k: v.copy() for k, v in a.fn.items()}))
    def post(self, C, a, out):
        r = out.value
        try: ws, wn = [{o: reference(f, o, h, a.c[h], a.day) for o in OBS} for f, h in ((a.fs, 'sh'), (a.fn, 'nh'))]
        except Edge: raise Reject()
        total = a.first + len(a.n)
        C.holds('daynumber', r['daynumber'] == a.day)
        C.holds('fields', sorted(r) == sorted(['daynumber'] + [o + s for o in OBS for s in ('',) + SUFFIX]))
        for k, v in r.items():
            if k == 'daynumber': continue
            C.holds('shape_' + k, v.shape == (total, a.nx))
            if v.shape == (total, a.nx): C.holds('between_' + k, bool(np.ma.getmaskarray(v)[len(a.s):a.first].all()))
        compare(C, 'south', r, ws, 0, len(a.s), a.nx)
        compare(C, 'north', r, wn, a.first, len(a.n), a.nx)

@contract
class Refused(Contract):
    """input that does not fit together is refused: hemispheres, days, longitudes, latitude spacing, field shapes"""
    name = 'model_ice.refused'
    functions = (MI + ':ModelIce.process_global', QC + ':IceSurfaceTemperatureQualityControl.__init__')
    prove = False
    KINDS = ('swapped', 'overlap', 'touching', 'day', 'longitudes', 'decreasing', 'uneven_south', 'uneven_north', 'resolution') + tuple('shape_' + n for n in ('surface_temperature', 'surface_temperature_min', 'surface_temperature_max', 'surface_temperature_std', 'surface_temperature_3d', 'Nobs3d', 'land_mask', 'sea_ice_fraction', 'uncorrelated_uncertainty', 'synoptically_correlated_uncertainty', 'large_scale_correlated_uncertainty'))
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), kind=B.choice('kind', self.KINDS), lon=B.bool('lon'))
    def run(self, M, a):
        r = random.Random(a.seed); nx = 6
        s, n = -20 + .5 * np.arange(6), 10.5 + .5 * np.arange(5)
        day = [50000, 50000]; ln = [nx, nx]
        k = a.kind
        if k == 'overlap': n = s[r.randint(1, 4)] + .5 * np.arange(5)
        if k == 'touching': n = s[-1] + .5 * np.arange(5)
        if k == 'day': day[1] += r.choice([-1, 1])
        if k == 'longitudes': ln[1] += r.choice([-1, 1])
        if k == 'decreasing': s = s[::-1].copy()
        if k == 'uneven_south': s[r.randint(2, 5)] += r.choice([-.1, .1])
        if k == 'uneven_north': n[r.randint(1, 4)] += r.choice([-.1, .1])
        if k == 'resolution': n = 10.5 + .25 * np.arange(5)
        Q = M(QC).IceSurfaceTemperatureQualityControl; m = M(MI).ModelIce(); m.components = coefficients(r)
        fs, fn = world(r, s, ln[0]), world(r, n, ln[1])
        if k.startswith('shape_'):
            f = k[6:]; ix = (Ellipsis, slice(None), slice(0, 5)) if a.lon else (Ellipsis, slice(0, 5 if len(s) > 5 else 4), slice(None))
            fs[f] = fs[f][ix]
        with contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
            x = Q(day[0], s, np.arange(ln[0]) * 1.0, **fs)
            y = Q(day[1], n, np.arange(ln[1]) * 1.0, **fn)
            if k.startswith('shape_'): return 'accepted'
            return m.process_global(*((y, x) if k == 'swapped' else (x, y)))
    def post(self, C, a, out): C.holds(a.kind, out.raises(ValueError))

@contract
class Parameters(Contract):
    """coefficients are read by surface name, whatever the order in the file, in the order mean, minimum, maximum; a file without both surfaces is refused"""
    name = 'model_ice.load_model_parameters'
    functions = (MI + ':ModelIce.load_hemisphere_model_parameters', MI + ':ModelIce.load_model_parameters')
    prove = False; weight = 0.3
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), kind=B.choice('kind', ['good', 'good', 'missing', 'short']))
    def run(self, M, a):
        r = random.Random(a.seed); a.v = {}
        d = tempfile.mkdtemp(prefix='vf13')
        try:
            names = {}
            for h in HEM:
                order = list(PARTS) + (['Other'] if r.random() < .3 else [])
                if a.kind == 'missing': order.remove(r.choice(PARTS))
                r.shuffle(order)
                a.v[h] = {p: [np.array([r.uniform(-5, 5) for _ in range(4)]) for _ in OBS] for p in order}
                n = 2 if a.kind == 'short' else 3
                cells = np.empty((len(order), n), object); sf = np.empty((1, len(order)), object)
                for i, p in enumerate(order):
                    sf[0, i] = p
                    for j in range(n): cells[i, j] = a.v[h][p][j].reshape(4, 1)
                names[h] = os.path.join(d, h + '.mat')
                scipy.io.savemat(names[h], {'M': cells, 'sf_name': sf})
            return M(MI).ModelIce(names).components
        finally: shutil.rmtree(d)
    def post(self, C, a, out):
        if a.kind != 'good':
            C.holds('refused', out.raises(ValueError))
            return
        c = out.value
        C.holds('hemispheres', sorted(c) == sorted(HEM))
        for h in HEM:
            for p in PARTS:
                for k, o in enumerate(OBS): C.holds('%s_%s_%s' % (h, p, o), np.array_equal(np.asarray(c[h][p][o]).ravel(), a.v[h][p][k]))

@contract
class Reader(Contract):
    """fields read from a file are the file's fields for the file's day"""
    name = 'fileio.ice.reader'
    functions = (FI + ':IceSurfaceTemperatureQualityControlNetCDF.__init__',)
    prove = False; weight = 0.15
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        import netCDF4
        r = random.Random(a.seed); a.lat = 20 + .25 * np.arange(r.randint(2, 5)); nx = r.randint(2, 5); a.nx = nx
        a.f = world(r, a.lat, nx); a.date = datetime.date(1850, 1, 1) + datetime.timedelta(days=r.randint(40000, 70000)); hour = r.choice([0, 12, 23])
        d = tempfile.mkdtemp(prefix='vf13')
        try:
            n = os.path.join(d, 'x.nc'); ds = netCDF4.Dataset(n, 'w')
            for k, v in (('time', 1), ('lat', len(a.lat)), ('lon', nx), ('bin', 8)): ds.createDimension(k, v)
            t = ds.createVariable('time', 'f8', ('time',)); ref = r.choice([datetime.date(1981, 1, 1), datetime.date(1970, 1, 1)])
            t.units = 'seconds since %s 00:00:00' % ref; t[0] = (a.date - ref).days * 86400.0 + hour * 3600
            for k, v in (('lat', a.lat), ('lon', np.arange(nx) * 1.0)): ds.createVariable(k, 'f8', (k,))[:] = v
            for k, v in a.f.items():
                dims = ('bin', 'lat', 'lon') if v.ndim == 3 else ('time', 'lat', 'lon') if r.random() < .7 or k == 'land_mask' else ('lat', 'lon')
                x = ds.createVariable(k, 'i4' if v.dtype.kind == 'i' else 'f8', dims, fill_value=-999)
                x[:] = v if v.ndim == 3 or len(dims) == 2 else v[None]
            ds.close()
            return quiet(lambda: M(FI).IceSurfaceTemperatureQualityControlNetCDF(n))
        finally: shutil.rmtree(d)
    def post(self, C, a, out):
        q = out.value
        C.holds('day', q.daynumber == (a.date - datetime.date(1850, 1, 1)).days)
        C.holds('axes', np.allclose(q.latitude, a.lat) and len(q.longitude) == a.nx)
        for k, v in a.f.items():
            g = getattr(q, k)
            C.holds(k, g.shape == v.shape and np.array_equal(np.ma.getmaskarray(g), np.ma.getmaskarray(v)) and np.allclose(np.ma.filled(g, 0), np.ma.filled(v, 0)))
        C.holds('accessors', q.uncertainty_uncorrelated() is q.uncorrelated_uncertainty and q.uncertainty_synoptically_correlated() is q.synoptically_correlated_uncertainty and q.uncertainty_large_scale_correlated() is q.large_scale_correlated_uncertainty)

@contract
class LandConfiguration(Contract):
    """the land model is told, for each day, that day's own inputs, output and date; day and night files of different dates are refused"""
    name = 'model_land.configuration'
    functions = (SA + 'model_land:ModelLand.build_config_dictionary', SA + 'model_land:ModelLand.read_input_file_time')
    prove = False
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), bad=B.choice('bad', [False, False, True]))
    def run(self, M, a):
        r = random.Random(a.seed); a.rows = []
        n = r.randint(1, 4); wrong = r.randrange(n) if a.bad else None
        for k in range(n):
            day = datetime.date(2000, 1, 1) + datetime.timedelta(days=r.randint(0, 6000)); other = day
            if k == wrong: other = day + datetime.timedelta(days=r.choice([-365, -1, 1, 31]))
            p = r.choice(['/data/20020304/', '/a.b/', ''])
            lst = [p + 'lst.day.%s.nc' % day.strftime('%Y%m%d'), p + 'lst.night.%s.nc' % other.strftime('%Y%m%d')]
            a.rows.append(NS(day=day, out=('/out%d/' % k, 'id%d' % k), inp=['fvc%d' % k, 'dem%d' % k, 'mask%d' % k, 'snow%d' % k, lst]))
        m = M(SA + 'model_land').ModelLand('clim', .25, 3)
        return m.build_config_dictionary([x.out for x in a.rows], [x.inp for x in a.rows])
    def post(self, C, a, out):
        if a.bad:
            C.holds('refused', out.raises(ValueError)); return
        d = out.value
        C.holds('model', d['model'] == {'filename_model_clim_parameters': 'clim', 'frac_sat_obs_threshold': .25, 'sampling_threshold': 3})
        C.holds('days', len(d['data']) == len(a.rows))
        for g, x in zip(d['data'], a.rows):
            C.holds('entry', g == {'date': {'year': x.day.year, 'month': x.day.month, 'day': x.day.day}, 'dir_input_fvc': x.inp[0], 'filename_input_dem': x.inp[1], 'filename_input_mask': x.inp[2], 'filename_input_snow': x.inp[3], 'filename_input_lst': x.inp[4], 'filename_output_id': x.out[1], 'dir_output': x.out[0]})
