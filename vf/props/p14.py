"""P14 - QC flags"""
import datetime
import numpy as np
from .. import sdt, sym, snp
from ..contract import Contract, NS, Reject
from ..load import Inv, UNBOUND
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift

PP = 'eustace.postprocess.'
BITS = dict(DAY=0, PRIOR_WINDOW=1, POST_WINDOW=2, PRIOR_CALENDAR=3, POST_CALENDAR=4, CLIMATOLOGY_UNC=5, LARGE_SCALE_UNC=6, AREAL_LOW=7, AREAL_HIGH=8,
            EXTREME_LOW=9, EXTREME_HIGH=10, PERSISTANT_OUTLIER=11, MISSING_MARINE=12, LOCATION_LOW=13, LOCATION_HIGH=14, MISSING_FLAG=15)
bit = {k: 1 << v for k, v in BITS.items()}
CONTRACTS = []
def contract(c): CONTRACTS.append(c()); return c

def bits_eq(a, b):
    """equality of 16 bit words"""
    if sym._symbolic(a, b): return wrapz(sym.binop('eq', a, b))
    return int(a) == int(b)
def word(x, B=None): return x if isinstance(x, sym.Sym) else int(x)
def OrBits(a, b):
    if sym._symbolic(a): return a | b
    return int(a) | int(b)
def HasBits(a, b):
    """all bits of b set in a"""
    if sym._symbolic(a): return (a & b) == b
    return (int(a) & int(b)) == int(b)
def setif(c, b, base=0):
    """base with bit b set when c"""
    if sym._symbolic(c, base): return If(c, OrBits(base, b) if sym._symbolic(base) else wrapz(snp.castcode(lift(int(base) | b), 'v16')), base if sym._symbolic(base) else wrapz(snp.castcode(lift(int(base)), 'v16')))
    return (int(base) | b) if c else int(base)
def elem(arr, *ix):
    if isinstance(arr, (snp.SArr, snp.SMArr)): return arr.elem(*ix)
    return arr[ix]

def ymd_ordinal(s):
    z, _ = sdt.parse_ymd(s)
    return wrapz(z)

@contract
class FlagConstants(Contract):
    """every flag is its own single bit; the helper combination is the union of the three day/window bits"""
    name = 'flags.constants'
    functions = (PP + 'flags:FLAG_TYPE',)
    def run(self, M, a):
        return M(PP + 'flags')
    def post(self, C, a, out):
        f = out.value
        for k, v in bit.items(): C.holds(k, int(getattr(f, k + '_FLAG')) == v)
        C.holds('null', int(f.NULL_FLAG) == 0)
        C.holds('calendar_day', int(f.CALENDAR_DAY_FLAG) == 7)
        C.holds('sixteen_bits', np.dtype(getattr(f.FLAG_TYPE, '_vf_type', f.FLAG_TYPE)) == np.uint16)
    def setup(self, B): return NS(d=B.bool('dummy'))

def near(a, b):
    """floating point: a value within rounding of the limit decides nothing"""
    if sym._symbolic(a, b): return False
    return abs(float(a) - float(b)) < 1e-9

class FieldB:
    """a field plus grid and the patched global shape"""

def grid(B, lo=3, small=True):
    ny = B.size('ny', lo, None); nx = B.size('nx', lo, None)
    return ny, nx
def cube(arr, **k): return NS(data=arr, **k)

def reflect(i, n):
    p = 2 * (n - 1)
    i = i % p
    return i if i < n else p - i
def window_mean(f, i, j, w):
    ny, nx = f.shape; h = w // 2
    t = 0.0
    for a in range(i - h, i + h + 1):
        for b in range(j - h, j + h + 1): t += float(f[reflect(a, ny), b % nx])
    return t / (w * w)

class WindowStub:
    """callee contract of compute_window_mean: the (wlat x wlon) running mean of the image it is given"""
    def __init__(self, B): self.calls = []; self.B = B
    def __call__(self, image, wlat, wlon, padmode_latitude='reflect', padmode_longitude='wrap'):
        k = len(self.calls)
        f = sym.uf(self.B.c.name('wmean%d' % k), snp.IS, snp.IS, snp.RS)
        img = image.copy()
        isb = img.code == 'b'
        self.calls.append(NS(image=img, w=(wlat, wlon), pad=(padmode_latitude, padmode_longitude), f=f))
        def el(idx):
            z = f(*idx)
            return z
        return snp.from_fn(image.shape, el, 'r')

class _Threshold(Contract):
    window = 13
    bitname = None
    above = True
    loader = None
    func = None
    weight = 0.1
    def setup(self, B):
        ny, nx = (B.size('ny', 2), B.size('nx', 2)) if B.symbolic else (B.int('ny', 10, 23), B.int('nx', 10, 23))
        a = NS(ny=ny, nx=nx, thr=B.real('threshold'), date=B.datetime('date', midnight=True))
        a.unc = B.array('uncertainty', (1, ny, nx)); a.inf = B.array('influence', (1, ny, nx)); a.ana = B.array('analysis', (1, ny, nx))
        a.seen = []
        return a
    def stubs(self, B, a):
        def load3(directory, iteration, datestring):
            a.seen.append((directory, iteration, datestring)); return cube(a.ana), cube(a.unc), cube(a.inf)
        def load4(directory, iteration, datestring):
            a.seen.append((directory, iteration, datestring)); return cube(a.ana), cube(a.unc), cube(a.inf), []
        s = {PP + 'apply_mask:' + self.loader: load4 if self.loader == 'load_analysis' else load3,
             'eustace.outputformats.definitions:GLOBAL_FIELD_SHAPE': (1, a.ny, a.nx)}
        a.ws = None
        if B.symbolic:
            a.ws = WindowStub(B); s[PP + 'outlier_check:compute_window_mean'] = a.ws
        return s
    def run(self, M, a):
        f = getattr(M(PP + 'threshold_check'), self.func)
        return f('AN', 'OUT', 9, a.date, a.thr)
    def post(self, C, a, out):
        r = out.value
        field = a.inf if self.loader == 'load_analysis' else a.unc
        C.holds('loads_this_day', And(len(a.seen) == 1, a.seen[0][0] == 'AN', a.seen[0][1] == 9, Eq(ymd_ordinal(a.seen[0][2]), sdt.ordinal(a.date))))
        if C.symbolic:
            C.holds('window', len(a.ws.calls) == 1 and tuple(a.ws.calls[0].w) == (self.window, self.window) and a.ws.calls[0].pad == ('reflect', 'wrap'))
            img = a.ws.calls[0].image
            C.forall('smooths_its_field', (a.ny, a.nx), lambda i, j: Eq(img.elem(i, j), field.elem(0, i, j)))
            m = lambda i, j: wrapz(a.ws.calls[0].f(lift(i), lift(j)))
        else:
            m = lambda i, j: window_mean(field[0], i, j, self.window)
        def ok(i, j):
            v = m(i, j)
            c = v > a.thr if self.above else v < a.thr
            return Or(near(v, a.thr), bits_eq(elem(r, i, j), setif(c, bit[self.bitname])))
        C.holds('shape', And(Eq(r.shape[0], a.ny), Eq(r.shape[1], a.nx), len(r.shape) == 2))
        C.forall('exactly_its_bit', (a.ny, a.nx), ok)

@contract
class Climatology(_Threshold):
    """climatology uncertainty bit exactly where the 13x13 window mean of the component uncertainty exceeds the threshold"""
    name = 'threshold_check.climatology'; functions = (PP + 'threshold_check:climatology_uncertainty_checks',)
    bitname = 'CLIMATOLOGY_UNC'; loader = 'load_climatology'; func = 'climatology_uncertainty_checks'
@contract
class LargeScale(_Threshold):
    name = 'threshold_check.large_scale'; functions = (PP + 'threshold_check:large_scale_uncertainty_checks',)
    bitname = 'LARGE_SCALE_UNC'; loader = 'load_large_scale'; func = 'large_scale_uncertainty_checks'; window = 17
@contract
class LocalInfluence(_Threshold):
    name = 'threshold_check.local_influence'; functions = (PP + 'threshold_check:local_influence_checks',)
    bitname = 'DAY'; loader = 'load_analysis'; func = 'local_influence_checks'; window = 5; above = False

@contract
class WindowMean(Contract):
    """compute_window_mean is the mean over the window centred on each cell (rows reflected, columns wrapped)"""
    name = 'outlier_check.compute_window_mean'; functions = (PP + 'outlier_check:compute_window_mean',)
    prove = False
    weight = 0.1
    assumptions = ('compute_window_mean itself is checked by bounded concrete search only (stride tricks are outside the engine): images 10..25 x 10..25, windows 1..9',)
    def setup(self, B):
        ny, nx = B.int('ny', 10, 25), B.int('nx', 10, 25)
        return NS(img=B.array('image', (ny, nx)), w=B.choice('w', [1, 3, 5, 9]), v=B.choice('v', [1, 3, 5, 9]), ny=ny, nx=nx)
    def run(self, M, a):
        a.before = a.img.copy()
        return M(PP + 'outlier_check').compute_window_mean(a.img, a.w, a.v)
    def post(self, C, a, out):
        r = out.value
        C.holds('input_unchanged', np.array_equal(a.before, a.img))
        def m(i, j):
            t = 0.0
            for p in range(i - a.w // 2, i + a.w // 2 + 1):
                for q in range(j - a.v // 2, j + a.v // 2 + 1): t += a.before[reflect(p, a.ny), q % a.nx]
            return t / (a.w * a.v)
        C.forall('mean', (a.ny, a.nx), lambda i, j: Eq(r[i, j], m(i, j)))

@contract
class WindowQuartiles(Contract):
    """compute_window_median_quartiles gives the quartiles of the window centred on each cell"""
    name = 'outlier_check.compute_window_median_quartiles'; functions = (PP + 'outlier_check:compute_window_median_quartiles',)
    prove = False
    weight = 0.1
    assumptions = ('compute_window_median_quartiles / block_iqr_by_range: bounded concrete search only (percentiles of strided windows are outside the engine)',)
    def setup(self, B):
        ny, nx = B.int('ny', 5, 25), B.int('nx', 5, 25)
        return NS(img=B.array('image', (ny, nx)), w=B.choice('w', [1, 3, 5, 7]), v=B.choice('v', [1, 3, 5, 7]), ny=ny, nx=nx)
    def run(self, M, a): return M(PP + 'outlier_check').compute_window_median_quartiles(a.img, a.w, a.v)
    def post(self, C, a, out):
        lo, md, up = out.value
        def win(i, j):
            return np.array([a.img[reflect(p, a.ny), q % a.nx] for p in range(i - a.w // 2, i + a.w // 2 + 1) for q in range(j - a.v // 2, j + a.v // 2 + 1)])
        def ok(i, j):
            x = np.percentile(win(i, j), [25, 50, 75])
            return Eq(lo[i, j], x[0]) and Eq(md[i, j], x[1]) and Eq(up[i, j], x[2])
        C.forall('quartiles', (a.ny, a.nx), ok)

@contract
class BlockIQR(Contract):
    """block_iqr_by_range: quartiles over the window given by the range in km, capped, latitude block by latitude block"""
    name = 'outlier_check.block_iqr_by_range'; functions = (PP + 'outlier_check:block_iqr_by_range',)
    prove = False
    weight = 0.1
    def setup(self, B):
        bs = B.int('blocksize', 3, 6)
        nb = B.int('nblocks', 1, 3)
        ny, nx = bs * nb, B.int('nx', 12, 20)
        res = B.choice('res', [1.0, 2.0, 2.5])
        lat0 = B.real('lat0', -80., 80. - res * ny)
        a = NS(bs=bs, ny=ny, nx=nx, res=res, lats=lat0 + res * np.arange(ny), lons=-180. + res * np.arange(nx), data=B.array('data', (ny, nx)),
               km=B.real('range_km', 50., 700.), ml=B.int('maxlat', 1, 4), mo=B.int('maxlon', 1, 5))
        # the window must fit the (extended) block for reflection to be defined
        if bs < 3: raise Reject()
        return a
    def run(self, M, a):
        return M(PP + 'outlier_check').block_iqr_by_range(a.lats, a.lons, a.data, a.km, max_latitude_cell_range=a.ml, max_longitude_cell_range=a.mo, latitude_block_size=a.bs)
    def post(self, C, a, out):
        lo, md, up = out.value
        R = 6371.0
        wl = min(int(np.ceil(np.rad2deg(a.km / R) / a.res)), a.ml)
        for b in range(0, a.ny, a.bs):
            cl = np.mean(a.lats[b:b + a.bs])
            x = np.rad2deg(a.km / (R * np.sin(np.pi / 2 - np.deg2rad(cl)))) / a.res
            if abs(x - round(x)) < 1e-9: continue
            wo = min(int(np.ceil(x)), a.mo)
            e0, e1 = max(b - wl, 0), min(b + a.bs + wl, a.ny)
            sub = a.data[e0:e1]
            if sub.shape[0] - 1 < wl or a.nx < wo: raise Reject()
            for i in range(b, b + a.bs):
                for j in range(0, a.nx, 3):
                    v = [sub[reflect(p, e1 - e0), q % a.nx] for p in range(i - e0 - wl, i - e0 + wl + 1) for q in range(j - wo, j + wo + 1)]
                    x = np.percentile(v, [25, 50, 75])
                    C.holds('quartiles', Eq(lo[i, j], x[0]) and Eq(md[i, j], x[1]) and Eq(up[i, j], x[2]))

class _Outlier(Contract):
    weight = 0.15
    def base(self, B):
        ny, nx = (B.size('ny', 2), B.size('nx', 2)) if B.symbolic else (B.int('ny', 10, 21), B.int('nx', 10, 21))
        a = NS(ny=ny, nx=nx, date=B.datetime('date', midnight=True), seen=[])
        a.ana = B.array('analysis', (1, ny, nx), gen=lambda r: r.choice([180., 193.15, 200., 250., 280., 300., 333.15, 340.]) if r.random() < .15 else r.uniform(250., 300.))
        return a
    def stubs(self, B, a):
        def load4(directory, iteration, datestring):
            a.seen.append((directory, iteration, datestring))
            c = cube(a.ana, coord=lambda n: NS(points=('points', n)))
            return c, cube(None), cube(None), []
        s = {PP + 'apply_mask:load_analysis': load4, 'eustace.outputformats.definitions:GLOBAL_FIELD_SHAPE': (1, a.ny, a.nx)}
        a.ws = None
        if B.symbolic: a.ws = WindowStub(B); s[PP + 'outlier_check:compute_window_mean'] = a.ws
        return s
    def near5(self, f, i, j, ny, nx):
        return any(bool(f(reflect(p, ny), q % nx)) for p in range(i - 2, i + 3) for q in range(j - 2, j + 3))
    def judge(self, C, a, r, low, high, lbit, hbit):
        C.holds('loads_this_day', And(len(a.seen) == 1, a.seen[0][0] == 'AN', a.seen[0][1] == 9, Eq(ymd_ordinal(a.seen[0][2]), sdt.ordinal(a.date))))
        C.holds('shape', And(Eq(r.shape[0], a.ny), Eq(r.shape[1], a.nx), len(r.shape) == 2))
        if C.symbolic:
            cs = a.ws.calls
            C.holds('windows', len(cs) == 2 and all(tuple(c.w) == (5, 5) and c.pad == ('reflect', 'wrap') for c in cs))
            isB = [c.image.code == 'b' for c in cs]
            C.holds('boolean', all(isB))
            # which call smooths which exceedance is decided by contents, not order
            C.forall('low_exceedance', (a.ny, a.nx), lambda i, j: sym.Iff(cs[0].image.elem(i, j), low(i, j)))
            C.forall('high_exceedance', (a.ny, a.nx), lambda i, j: sym.Iff(cs[1].image.elem(i, j), high(i, j)))
            def ok(i, j):
                m0, m1 = [wrapz(c.f(lift(i), lift(j))) for c in cs]
                # the mean of booleans lies in [0,1] and is zero exactly when none is set in the window
                pre = And(m0 >= 0, m0 <= 1, m1 >= 0, m1 <= 1)
                return Implies(pre, bits_eq(elem(r, i, j), setif(m1 > 0, hbit, setif(m0 > 0, lbit))))
            C.forall('exactly_its_bits', (a.ny, a.nx), ok)
        else:
            C.forall('exactly_its_bits', (a.ny, a.nx), lambda i, j: int(r[i, j]) ==
                     (lbit if self.near5(low, i, j, a.ny, a.nx) else 0) | (hbit if self.near5(high, i, j, a.ny, a.nx) else 0))

@contract
class Extremes(_Outlier):
    """extreme low/high bits exactly within 2 cells (5x5 window) of a value outside the fixed limits"""
    name = 'outlier_check.extremes_checks'; functions = (PP + 'outlier_check:extremes_checks',)
    def setup(self, B):
        a = self.base(B); a.lo = B.real('lower', 190., 200.); a.hi = B.real('upper', 320., 340.); return a
    def run(self, M, a): return M(PP + 'outlier_check').extremes_checks('AN', 'OUT', 9, a.date, a.lo, a.hi)
    def post(self, C, a, out):
        self.judge(C, a, out.value, lambda i, j: elem(a.ana, 0, i, j) < a.lo, lambda i, j: elem(a.ana, 0, i, j) > a.hi, bit['EXTREME_LOW'], bit['EXTREME_HIGH'])

@contract
class Areal(_Outlier):
    """areal low/high bits exactly within the 5x5 window of values beyond quartile +- limit x (median distance) after altitude adjustment"""
    name = 'outlier_check.areal_checks'; functions = (PP + 'outlier_check:areal_checks', PP + 'outlier_check:altitude_adjustment')
    def setup(self, B):
        a = self.base(B); a.q = B.real('limit', 0., 8.)
        a.alt = B.array('altitude', (a.ny, a.nx), lo=-400., hi=6000.)
        for n in ('lq', 'md', 'uq'): setattr(a, n, B.array(n, (a.ny, a.nx), lo=240., hi=310.))
        return a
    def stubs(self, B, a):
        s = _Outlier.stubs(self, B, a)
        def iqr(lat, lon, data, km, max_latitude_cell_range=20, max_longitude_cell_range=20, latitude_block_size=20):
            a.iqr = NS(lat=lat, lon=lon, data=data.copy(), km=km, cells=(max_latitude_cell_range, max_longitude_cell_range, latitude_block_size))
            return a.lq, a.md, a.uq
        s[PP + 'outlier_check:block_iqr_by_range'] = iqr
        s[PP + 'outlier_check:iris'] = NS(Constraint=lambda **k: k, load_cube=lambda f, c: cube(a.alt))
        return s
    def run(self, M, a): return M(PP + 'outlier_check').areal_checks('AN', 'OUT', 9, a.date, a.q)
    def post(self, C, a, out):
        r = out.value
        adj = lambda i, j: elem(a.ana, 0, i, j) - (-4.5) * (elem(a.alt, i, j) * 0.001)
        C.holds('areal_parameters', And(a.iqr.km == 750., a.iqr.cells == (50, 50, 20), a.iqr.lat == ('points', 'latitude'), a.iqr.lon == ('points', 'longitude')))
        C.forall('quartiles_of_adjusted_field', (a.ny, a.nx), lambda i, j: Eq(elem(a.iqr.data, i, j), adj(i, j)))
        low = lambda i, j: adj(i, j) < elem(a.lq, i, j) - a.q * (elem(a.md, i, j) - elem(a.lq, i, j))
        high = lambda i, j: adj(i, j) > elem(a.uq, i, j) + a.q * (elem(a.uq, i, j) - elem(a.md, i, j))
        self.judge(C, a, r, low, high, bit['AREAL_LOW'], bit['AREAL_HIGH'])

@contract
class Location(Contract):
    """location bits exactly where the value is beyond median -/+ 8 x (median to quartile distance) of that calendar day"""
    name = 'cell_percentile_threshold.location_threshold_checks'; functions = (PP + 'cell_percentile_threshold:location_threshold_checks',)
    def setup(self, B):
        ny, nx = B.size('ny', 2), B.size('nx', 2)
        a = NS(ny=ny, nx=nx, date=B.datetime('date', midnight=True), seen=[], files=[])
        a.ana = B.array('analysis', (1, ny, nx))
        for n in ('lq', 'md', 'uq'): setattr(a, n, B.array(n, (ny, nx)))
        return a
    def stubs(self, B, a):
        def load4(directory, iteration, datestring):
            a.seen.append((directory, iteration, datestring)); return cube(a.ana), cube(None), cube(None), []
        def npload(name):
            a.files.append(name); return dict(lower_quartile_block=a.lq, median_block=a.md, upper_quartile_block=a.uq)
        s = {PP + 'apply_mask:load_analysis': load4, 'eustace.outputformats.definitions:GLOBAL_FIELD_SHAPE': (1, a.ny, a.nx)}
        base = load_numpy(B)
        class N:
            load = staticmethod(npload)
            def __getattr__(self, n): return getattr(base, n)
        s[PP + 'cell_percentile_threshold:numpy'] = Only(N())
        return s
    def run(self, M, a): return M(PP + 'cell_percentile_threshold').location_threshold_checks('AN', 'PC', 'OUT', 9, a.date)
    def post(self, C, a, out):
        r = out.value
        C.holds('loads_this_day', And(len(a.seen) == 1, a.seen[0][:2] == ('AN', 9), Eq(ymd_ordinal(a.seen[0][2]), sdt.ordinal(a.date))))
        f = a.files[0] if len(a.files) == 1 else ''
        want = 'PC/eustace_analysis_9_percentiles_' + '{:02d}{:02d}'.format(a.date.month, a.date.day) + '.npz'
        C.holds('percentiles_of_this_calendar_day', sdt.same_text(f, want))
        low = lambda i, j: (elem(a.ana, 0, i, j), elem(a.md, i, j) - 8.0 * (elem(a.md, i, j) - elem(a.lq, i, j)))
        high = lambda i, j: (elem(a.ana, 0, i, j), elem(a.md, i, j) + 8.0 * (elem(a.uq, i, j) - elem(a.md, i, j)))
        def ok(i, j):
            (x, l), (_, h) = low(i, j), high(i, j)
            return Or(near(x, l), near(x, h), bits_eq(elem(r, i, j), setif(x > h, bit['LOCATION_HIGH'], setif(x < l, bit['LOCATION_LOW']))))
        C.forall('exactly_its_bits', (a.ny, a.nx), ok)

class Only:
    """stub bound in the named module only"""
    def __init__(self, v): self.v = v
def load_numpy(B):
    from .. import load
    return load.NUMPY if B.symbolic else np

# ---------------------------------------------------------------- coast

def coast_spec(a, i, j):
    """influence after the edge repairs"""
    jj = If(Eq(j, 0), 1, If(Eq(j, a.nx - 1), a.nx - 2, j))
    return If(Eq(i, a.ny - 1), 100.0, If(Eq(i, 0), 0.0, a.coast0(i, jj)))

class _Coast(Contract):
    def coast(self, B, a):
        a.ny, a.nx = B.size('ny', 3), B.size('nx', 3)
        a.coast = B.array('coastal_influence', (a.ny, a.nx), gen=lambda r: r.choice([0., 100., 95., 95.5, 50., 99.]))
        c0 = a.coast.copy()
        a.coast0 = (lambda i, j: c0.elem(i, j)) if B.symbolic else (lambda i, j: float(c0[int(i), int(j)]))
    def iris(self, a): return NS(Constraint=lambda **k: k, load_cube=lambda f, c: cube(a.coast))

@contract
class MarineFlag(_Coast):
    """marine bit exactly where the (edge-repaired) coastal influence is 100"""
    name = 'threshold_check.get_marine_flag'; functions = (PP + 'threshold_check:get_marine_flag',)
    def setup(self, B):
        a = NS(); self.coast(B, a); return a
    def stubs(self, B, a):
        return {PP + 'threshold_check:iris': self.iris(a), 'eustace.outputformats.definitions:GLOBAL_FIELD_SHAPE': (1, a.ny, a.nx)}
    def run(self, M, a): return M(PP + 'threshold_check').get_marine_flag()
    def post(self, C, a, out):
        r = out.value
        C.forall('exactly_marine', (a.ny, a.nx), lambda i, j: bits_eq(elem(r, i, j), setif(Eq(coast_spec(a, i, j), 100.0), bit['MISSING_MARINE'])))

@contract
class ResetMarine(_Coast):
    """the marine bit is replaced by (influence > 95) and no other bit changes"""
    name = 'apply_mask.reset_marine_flag'; functions = (PP + 'apply_mask:reset_marine_flag',)
    def setup(self, B):
        a = NS(); self.coast(B, a); a.flags = B.array('flags', (1, a.ny, a.nx), np.uint16); a.f0 = a.flags.copy(); return a
    def stubs(self, B, a): return {PP + 'apply_mask:iris': self.iris(a)}
    def run(self, M, a): return M(PP + 'apply_mask').reset_marine_flag(a.flags)
    def post(self, C, a, out):
        r = out.value
        def ok(i, j):
            w = elem(a.f0, 0, i, j)
            cleared = (w & 0xEFFF) if sym._symbolic(w) else int(w) & 0xEFFF
            return bits_eq(elem(r, 0, i, j), setif(coast_spec(a, i, j) > 95.0, bit['MISSING_MARINE'], cleared))
        C.holds('shape', And(len(r.shape) == 3, Eq(r.shape[1], a.ny), Eq(r.shape[2], a.nx)))
        C.forall('only_marine_bit', (a.ny, a.nx), ok)

# ---------------------------------------------------------------- masks

RULES = [(15, 12), (6, None), (5, None), (7, None), (8, None), (9, None), (10, None), (13, None), (14, None)]
def rule_mask(w, rules):
    out = False
    for must, unless in rules:
        c = HasBits(w, 1 << must)
        if unless is not None: c = And(c, Not(HasBits(w, 1 << unless)))
        out = Or(out, c)
    return out

@contract
class ComputeMask(Contract):
    """masked iff some rule's flag is set and its override flag is not (the production rules)"""
    name = 'apply_mask.compute_mask'; functions = (PP + 'apply_mask:compute_mask',)
    def setup(self, B):
        ny, nx = B.size('ny', 1), B.size('nx', 1)
        a = NS(ny=ny, nx=nx, flags=B.array('flags', (1, ny, nx), np.uint16), post2012=B.choice('marine_masked', [False, True]))
        a.f0 = a.flags.copy()
        return a
    def run(self, M, a):
        m = M(PP + 'apply_mask')
        rules = [list(x) for x in m.FLAGS_TO_MASK]
        if a.post2012: rules.append([m.MISSING_MARINE_FLAG, m.NULL_FLAG])
        return m.compute_mask(a.flags, rules)
    def post(self, C, a, out):
        r = out.value
        C.forall('mask_rule', (a.ny, a.nx), lambda i, j: sym.Iff(elem(r, 0, i, j), rule_mask(elem(a.f0, 0, i, j), RULES + ([(12, None)] if a.post2012 else []))))
        C.forall('flags_untouched', (a.ny, a.nx), lambda i, j: bits_eq(elem(a.flags, 0, i, j), elem(a.f0, 0, i, j)))

@contract
class ComputeMaskGeneral(Contract):
    """any two rules: masked iff all bits of the rule are set and none of its override bits"""
    name = 'apply_mask.compute_mask_any_rules'; functions = (PP + 'apply_mask:compute_mask',)
    def setup(self, B):
        n = B.size('n', 1)
        return NS(n=n, flags=B.array('flags', (n,), np.uint16), r=[[B.flag16('a0'), B.flag16('b0')], [B.flag16('a1'), B.flag16('b1')]])
    def run(self, M, a): return M(PP + 'apply_mask').compute_mask(a.flags, a.r)
    def post(self, C, a, out):
        r = out.value
        def rule(w, x, y):
            if sym._symbolic(w, x, y): return And((w & x) == x, ((w & y) & ~x) == 0)
            w, x, y = int(w), int(x), int(y)
            return (w & x) == x and (w & y & ~x) == 0
        C.forall('rule', (a.n,), lambda i: sym.Iff(elem(r, i), Or(*[rule(elem(a.flags, i), x, y) for x, y in a.r])))

class Builder:
    """records what is written to an output file"""
    def __init__(self, log): self.log = log
    def __call__(self, outputfile, daynumber, *rest):
        b = NS(fields=[], file=outputfile, day=daynumber, closed=False)
        b.add_global_field = lambda var, val: b.fields.append((var, val))
        def close(): b.closed = True
        b.save_and_close = close
        self.log.append(b)
        return b

def maskof(v):
    if isinstance(v, snp.SMArr): return v.getmaskarray()
    if isinstance(v, snp.SArr): return snp.const_array(v.shape, False, bool)
    return np.ma.getmaskarray(v)
def dataof(v): return v.data if isinstance(v, (snp.SMArr, np.ma.MaskedArray)) else v

@contract
class ApplyMask(_Coast):
    """the masked product: flags of both directories combined, marine bit renewed, every field of every file masked
    exactly by the rule and otherwise unchanged"""
    name = 'apply_mask.apply_mask'; functions = (PP + 'apply_mask:apply_mask',)
    weight = 0.6
    def setup(self, B):
        a = NS(); self.coast(B, a)
        a.two = B.choice('second_directory', [True, False])
        a.date = B.datetime('date', midnight=True, lo=datetime.datetime(1850, 1, 1), hi=datetime.datetime(2100, 1, 1))
        a.flags = {d: B.array('flags_' + d, (1, a.ny, a.nx), np.uint16) for d in ('F1', 'F2')}
        a.f0 = {d: x.copy() for d, x in a.flags.items()}
        a.src = {}
        for comp in ('analysis', 'climatology', 'large_scale', 'local'):
            for v in ('tas', 'unc', 'inf'): a.src[comp, v] = B.array(comp + '_' + v, (1, a.ny, a.nx))
        a.ens = [(n, B.array('ens%d' % n, (1, a.ny, a.nx))) for n in (2, 0, 10)]
        a.it = B.choice('iteration', [4, 9])
        a.log, a.days = [], []
        return a
    def stubs(self, B, a):
        def lf(d, it, s):
            a.days.append(ymd_ordinal(s)); return cube(a.flags[d])
        def comp(c, ens=False):
            def f(d, it, s):
                a.days.append(ymd_ordinal(s))
                r = tuple(cube(a.src[c, v]) for v in ('tas', 'unc', 'inf'))
                return r + ([cube(x, var_name='tasensemble_%d' % n) for n, x in a.ens],) if ens else r
            return f
        AM = PP + 'apply_mask:'
        return {AM + 'load_flags': lf, AM + 'load_analysis': comp('analysis', True), AM + 'load_climatology': comp('climatology'), AM + 'load_large_scale': comp('large_scale'),
                AM + 'load_local': comp('local'), AM + 'FileBuilderGlobalField': Builder(a.log), AM + 'get_revision_id_for_module': lambda m: 'rev', AM + 'iris': self.iris(a),
                'eustace.outputformats.definitions:GLOBAL_FIELD_SHAPE': (1, a.ny, a.nx)}
    def run(self, M, a):
        m = M(PP + 'apply_mask')
        m.apply_mask('AN', a.it, 'F1', 'F2' if a.two else None, m.FLAGS_TO_MASK, a.date, 'OUT')
        return a.log
    def post(self, C, a, out):
        log = out.value
        C.holds('all_of_this_day', And(*[Eq(d, sdt.ordinal(a.date)) for d in a.days]))
        names = ('analysis', 'climatology', 'large_scale', 'local')
        C.holds('four_files', len(log) == 4 and all(b.closed for b in log))
        C.holds('day_number', And(*[Eq(b.day, sdt.ordinal(a.date) - datetime.date(1850, 1, 1).toordinal()) for b in log]))
        def word(i, j):
            w = elem(a.f0['F1'], 0, i, j)
            if a.two: w = OrBits(w, elem(a.f0['F2'], 0, i, j))
            w = (w & 0xEFFF) if sym._symbolic(w) else int(w) & 0xEFFF
            return setif(coast_spec(a, i, j) > 95.0, bit['MISSING_MARINE'], w)
        for b, comp in zip(log, names):
            want = [(v, a.src[comp, v]) for v in ('tas', 'unc', 'inf')]
            if comp == 'analysis': want += [('ens%d' % k, x) for k, (n, x) in enumerate(sorted(a.ens, key=lambda t: t[0]))]
            C.holds(comp + '.fields', len(b.fields) == len(want))
            vn = [str(f[0].name) for f in b.fields]
            wn = (['tas' if comp in ('analysis', 'climatology') else vn[0], 'tasuncertainty', 'tas_observation_influence'] if comp != 'analysis' else None)
            if comp == 'analysis': C.holds('ensemble_names', vn[3:] == ['tasensemble_0', 'tasensemble_1', 'tasensemble_2'] and len(set(vn)) == 6)
            for (nm, x), (var, val) in zip(want, b.fields):
                m, d = maskof(val), dataof(val)
                C.forall('%s.%s.mask' % (comp, nm), (a.ny, a.nx), lambda i, j: sym.Iff(elem(m, 0, i, j), rule_mask(word(i, j), RULES)))
                C.forall('%s.%s.values' % (comp, nm), (a.ny, a.nx), lambda i, j: Or(elem(m, 0, i, j), Eq(elem(d, 0, i, j), elem(x, 0, i, j))))

@contract
class Merge(Contract):
    """union of both flag sets, the second set's areal-low bit being moved to the marine bit"""
    name = 'merge_flag_files.merged_flags'; functions = (PP + 'merge_flag_files:merged_flags',)
    def setup(self, B):
        ny, nx = B.size('ny', 2), B.size('nx', 2)
        a = NS(ny=ny, nx=nx, date=B.datetime('date', midnight=True), days=[])
        a.flags = {d: B.array('flags_' + d, (1, ny, nx), np.uint16) for d in ('F1', 'F2')}
        a.f0 = {d: x.copy() for d, x in a.flags.items()}
        return a
    def stubs(self, B, a):
        def lf(d, it, s):
            a.days.append(ymd_ordinal(s)); return cube(a.flags[d])
        return {PP + 'apply_mask:load_flags': lf}
    def run(self, M, a): return M(PP + 'merge_flag_files').merged_flags('F1', 'F2', 'OUT', 9, a.date)
    def post(self, C, a, out):
        r = out.value
        C.holds('this_day', And(*[Eq(d, sdt.ordinal(a.date)) for d in a.days]))
        def ok(i, j):
            x, y = elem(a.f0['F1'], 0, i, j), elem(a.f0['F2'], 0, i, j)
            if not sym._symbolic(x): x, y = int(x), int(y)
            y2 = (y & (0xFFFF ^ bit['AREAL_LOW']))
            return bits_eq(elem(r, i, j), x | setif(HasBits(y, bit['AREAL_LOW']), bit['MISSING_MARINE'], y2))
        C.forall('union', (a.ny, a.nx), ok)

# ---------------------------------------------------------------- loops over days / years

class _Days(Contract):
    def base(self, B):
        a = NS(ny=B.size('ny', 2), nx=B.size('nx', 2), bad=[])
        a.avail = B.func('available', 1, 'b', gen=lambda r, o: r.random() < 0.8)
        a.word = B.func('flagword', 3, 'v16', gen=lambda r, o, i, j: np.uint16(r.choice([0, 1, 1, 7, 3, 0x80, 0x100, 0x600, r.randrange(65536)])))
        return a
    def stubs(self, B, a):
        def lf(d, it, s):
            o = ymd_ordinal(s)
            if d != 'IN' or it != 9: a.bad.append(d)
            if not a.avail(o): raise IOError('no file')
            if B.symbolic:
                return cube(snp.from_fn((1, a.ny, a.nx), lambda idx: lift(a.word(o, wrapz(idx[1]), wrapz(idx[2]))), 'v16'))
            return cube(np.array([[[a.word(o, i, j) for j in range(a.nx)] for i in range(a.ny)]], np.uint16))
        return {PP + 'apply_mask:load_flags': lf}

def i2(c): return If(c, 1, 0)

def arr2(a, fn, code, dtype):
    return snp.from_fn((a.ny, a.nx), lambda idx: snp.castcode(lift(fn(wrapz(idx[0]), wrapz(idx[1]))), code), code, dtype)

@contract
class LocalWindow(_Days):
    """prior/post window bits are added to the centre day's flags exactly where fewer than the threshold number of
    available days before/after (within the window) lack the target flag"""
    name = 'window_check.local_window_constraint_checks'; functions = (PP + 'window_check:local_window_constraint_checks',)
    max_paths = 200
    cost = 5
    def setup(self, B):
        a = self.base(B)
        a.W = B.int('window', 0, 400) if B.symbolic else B.int('window', 0, 6)
        a.date = B.datetime('date', midnight=True)
        a.thr = B.int('count_threshold', 0, 12)
        a.target = B.flag16('target') if B.symbolic else np.uint16(B.int('target', 1, 7))
        a.o = sdt.ordinal(a.date)
        B.assume(a.avail(a.o))
        W, o = a.W, a.o
        day = lambda k: o - W + k
        notc = lambda k, i, j: And(a.avail(day(k)), Not((a.word(day(k), i, j) & a.target) == a.target))
        a.prior = B.fold('prior', lambda i, j: 0, lambda k, acc, i, j: acc + i2(And(k < W, notc(k, i, j))), 'i', 2)
        a.post_ = B.fold('post', lambda i, j: 0, lambda k, acc, i, j: acc + i2(And(k > W, notc(k, i, j))), 'i', 2)
        a.seen = B.fold('seen', lambda: False, lambda k, acc: Or(acc, And(a.avail(day(k)), Not(Eq(k, W)))), 'b', 0)
        # some day other than the centre is available
        B.assume(a.seen(2 * W + 1))
        return a
    def get_invariants(self, B, a):
        def inv(v):
            k = v.k
            loc = {}
            if a.seen(k):
                loc['prior_constraint_count'] = arr2(a, lambda i, j: a.prior(k, i, j), 'i', np.int64)
                loc['post_constraint_count'] = arr2(a, lambda i, j: a.post_(k, i, j), 'i', np.int64)
            else:
                loc['prior_constraint_count'] = None; loc['post_constraint_count'] = None
            loc['flag_values'] = arr2(a, lambda i, j: a.word(a.o, i, j), 'v16', np.uint16) if sym.Sym(lift(k)) > a.W else UNBOUND
            zero = ((a.ny, a.nx), lambda i, j: Implies(Not(a.seen(k)), And(Eq(a.prior(k, i, j), 0), Eq(a.post_(k, i, j), 0))), (a.prior, a.post_))
            return Inv(locals=loc, cells=[zero])
        return {'local_window_constraint_checks': inv}
    def run(self, M, a): return M(PP + 'window_check').local_window_constraint_checks('IN', 'OUT', 9, a.date, a.W, a.thr, a.target)
    def post(self, C, a, out):
        r = out.value
        n = 2 * a.W + 1
        C.holds('source', not a.bad)
        C.forall('exactly_its_bits', (a.ny, a.nx), lambda i, j: bits_eq(elem(r, i, j), setif(a.post_(n, i, j) < a.thr, bit['POST_WINDOW'], setif(a.prior(n, i, j) < a.thr, bit['PRIOR_WINDOW'], a.word(a.o, i, j)))))

@contract
class Persistent(_Days):
    """persistent-outlier bit exactly where at least the threshold number of available days in the window carry any outlier flag"""
    name = 'outlier_window_check.persistant_outlier_check'; functions = (PP + 'outlier_window_check:persistant_outlier_check',)
    max_paths = 200
    cost = 5
    def setup(self, B):
        a = self.base(B)
        a.W = B.int('window', 0, 400) if B.symbolic else B.int('window', 0, 6)
        a.date = B.datetime('date', midnight=True)
        a.thr = B.int('count_threshold', 0, 12)
        a.o = sdt.ordinal(a.date)
        B.assume(a.avail(a.o))
        day = lambda k: a.o - a.W + k
        def outlier(k, i, j):
            w = a.word(day(k), i, j)
            return And(a.avail(day(k)), Or(*[HasBits(w, bit[b]) for b in ('AREAL_LOW', 'AREAL_HIGH', 'EXTREME_LOW', 'EXTREME_HIGH')]))
        a.bad_ = B.fold('bad', lambda i, j: 0, lambda k, acc, i, j: acc + i2(outlier(k, i, j)), 'i', 2)
        a.any = B.fold('any', lambda: False, lambda k, acc: Or(acc, a.avail(day(k))), 'b', 0)
        return a
    def get_invariants(self, B, a):
        def inv(v):
            k = v.k
            past = sym.Sym(lift(k)) > a.W
            loc = {}
            facts = [Implies(past, a.any(k))]
            loc['bad_count'] = arr2(a, lambda i, j: a.bad_(k, i, j), 'i', np.int64) if a.any(k) else None
            loc['flag_values'] = arr2(a, lambda i, j: a.word(a.o, i, j), 'v16', np.uint16) if past else UNBOUND
            zero = ((a.ny, a.nx), lambda i, j: Implies(Not(a.any(k)), Eq(a.bad_(k, i, j), 0)), (a.bad_,))
            return Inv(locals=loc, facts=facts, cells=[zero])
        return {'persistant_outlier_check': inv}
    def run(self, M, a): return M(PP + 'outlier_window_check').persistant_outlier_check('IN', 'OUT', 9, a.date, a.W, a.thr)
    def post(self, C, a, out):
        r = out.value
        C.holds('source', not a.bad)
        C.forall('exactly_its_bit', (a.ny, a.nx), lambda i, j: bits_eq(elem(r, i, j), setif(a.bad_(2 * a.W + 1, i, j) >= a.thr, bit['PERSISTANT_OUTLIER'], a.word(a.o, i, j))))

@contract
class Calendar(_Days):
    """prior/post calendar bits where no earlier/later year's same calendar day was constrained; missing bit where fewer
    than three years in all were"""
    name = 'calendar_check.calendar_constraint_checks'; functions = (PP + 'calendar_check:calendar_constraint_checks',)
    max_paths = 200
    cost = 5
    def setup(self, B):
        a = self.base(B)
        a.date = B.datetime('date', midnight=True, lo=datetime.datetime(1700, 1, 1), hi=datetime.datetime(2300, 1, 1))
        y = a.date.year
        a.back = B.int('years_before', 0, 200) if B.symbolic else B.int('years_before', 0, 5)
        a.fwd = B.int('years_after', 0, 200) if B.symbolic else B.int('years_after', 0, 5)
        a.target = B.flag16('target') if B.symbolic else np.uint16(B.choice('target', [1, 7, 3]))
        a.o = sdt.ordinal(a.date)
        m, d = a.date.month, a.date.day
        def day(k):
            yy = y - a.back + k
            return sdt.ordinal_ymd(yy, m, sym.Min(d, sdt.days_in_month(yy, m)))
        a.day = day
        B.assume(a.avail(a.o))
        notc = lambda k, i, j: And(a.avail(day(k)), Not((a.word(day(k), i, j) & a.target) == a.target))
        a.prior = B.fold('prior', lambda i, j: 0, lambda k, acc, i, j: acc + i2(And(k < a.back, notc(k, i, j))), 'i', 2)
        a.post_ = B.fold('post', lambda i, j: 0, lambda k, acc, i, j: acc + i2(And(k > a.back, notc(k, i, j))), 'i', 2)
        a.total = B.fold('total', lambda i, j: 0, lambda k, acc, i, j: acc + i2(notc(k, i, j)), 'i', 2)
        a.seen = B.fold('seen', lambda: False, lambda k, acc: Or(acc, And(a.avail(day(k)), Not(Eq(k, a.back)))), 'b', 0)
        a.any = B.fold('any', lambda: False, lambda k, acc: Or(acc, a.avail(day(k))), 'b', 0)
        a.n = a.back + a.fwd + 1
        B.assume(a.seen(a.n))
        if B.symbolic: B.assume(Eq(day(a.back), a.o))
        return a
    def get_invariants(self, B, a):
        def inv(v):
            k = v.k
            loc = {}
            past = sym.Sym(lift(k)) > a.back
            if a.seen(k):
                loc['prior_constraint_count'] = arr2(a, lambda i, j: a.prior(k, i, j), 'i', np.int64)
                loc['post_constraint_count'] = arr2(a, lambda i, j: a.post_(k, i, j), 'i', np.int64)
            else:
                loc['prior_constraint_count'] = None; loc['post_constraint_count'] = None
            loc['total_constraint_count'] = arr2(a, lambda i, j: a.total(k, i, j), 'i', np.int64) if a.any(k) else None
            loc['flag_values'] = arr2(a, lambda i, j: a.word(a.o, i, j), 'v16', np.uint16) if past else UNBOUND
            zero = ((a.ny, a.nx), lambda i, j: Implies(Not(a.seen(k)), And(Eq(a.prior(k, i, j), 0), Eq(a.post_(k, i, j), 0))), (a.prior, a.post_))
            zero2 = ((a.ny, a.nx), lambda i, j: Implies(Not(a.any(k)), Eq(a.total(k, i, j), 0)), (a.total,))
            return Inv(locals=loc, facts=[Implies(past, a.any(k))], cells=[zero, zero2])
        return {'calendar_constraint_checks': inv}
    def run(self, M, a):
        return M(PP + 'calendar_check').calendar_constraint_checks('IN', 'OUT', 9, a.date, a.date.year - a.back, a.date.year + a.fwd, a.target)
    def post(self, C, a, out):
        r = out.value
        C.holds('source', not a.bad)
        def ok(i, j):
            w = a.word(a.o, i, j)
            w = setif(a.prior(a.n, i, j) < 1, bit['PRIOR_CALENDAR'], w)
            w = setif(a.post_(a.n, i, j) < 1, bit['POST_CALENDAR'], w)
            return bits_eq(elem(r, i, j), setif(a.total(a.n, i, j) < 3, bit['MISSING_FLAG'], w))
        C.forall('exactly_its_bits', (a.ny, a.nx), ok)

@contract
class OperationDates(Contract):
    """a monthly operation covers each day of its month exactly once, in order"""
    name = 'operation_count.operation_dates'; functions = (PP + 'operation_count:operation_dates',)
    def setup(self, B):
        return NS(y=B.int('year', 1700, 2300), m=B.int('month', 1, 12), n=B.int('operation', 0, 3000) if B.symbolic else B.int('operation', 0, 300))
    def run(self, M, a):
        dtm = sdt.FakeDateTime if isinstance(a.y, sym.Sym) else datetime.datetime
        return M(PP + 'operation_count').operation_dates(dtm(a.y, a.m, 1), a.n)
    def post(self, C, a, out):
        r = out.value
        t = a.y * 12 + (a.m - 1) + a.n
        y, m = t // 12, t % 12 + 1
        n = r.vf_len() if hasattr(r, 'vf_len') else len(r)
        C.holds('every_day', Eq(n, sdt.days_in_month(y, m)))
        el = r.elem if C.symbolic else r.__getitem__
        C.forall('in_order', (n,), lambda k: And(Eq(sdt.ordinal(el(k)), sdt.ordinal_ymd(y, m, 1) + k), Eq(sdt.usod(el(k)), 0)))

PRELOAD = [PP + m for m in ('threshold_check', 'window_check', 'calendar_check', 'outlier_check', 'outlier_window_check', 'merge_flag_files', 'apply_mask', 'cell_percentile_threshold', 'operation_count')]
