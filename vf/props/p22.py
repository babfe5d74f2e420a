"""P22 - output files hold the fields, axes and descriptions they were given"""
import datetime, io, itertools, math, os, random, shutil, tempfile
import numpy as np
from .. import sym, snp
from ..contract import Contract, Failed, NS, Reject
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, elem, Only
from .p05 import quiet

CONTRACTS, contract = contract_list()
OF = 'eustace.outputformats.'
OV, FB, GF, DF, ST, SD, ED, SG, VE = OF + 'outputvariable', OF + 'filebuilder', OF + 'globalfield_filebuilder', OF + 'definitions', OF + 'stations', OF + 'stationdata', OF + 'ensuredirectory', 'eustace.satgrid.filebuilder', OF + 'verify.verify'
VG, VS = OF + 'verify.verify_globalfield', OF + 'verify.verify_stations'
PRELOAD = (OV, FB, GF, DF, ST, SD, SG, VE, VG, VS, ED, OF + 'verify.specification')
BUDGET = dict(quick=dict(search=110), thorough=dict(search=500))
ASSUMPTIONS = ['netCDF4 packs with the scale and offset of a variable to the nearest integer, stores missing values as the fill value and returns what it stored',
               'values given for a packed variable lie in the range it can hold',
               'floating-point arithmetic on coordinates is treated as real arithmetic in the proofs']
EPOCH = datetime.datetime(1850, 1, 1)

# ------------------------------------------------------------------ a ghost of the netCDF library: what is created, described and stored

class GhostVariable(object):
    def __init__(self, name, dtype, dims, kw):
        d = self.__dict__; d['_g'] = NS(name=name, dtype=dtype, dims=tuple(dims), kw=kw, stored=[], scaled=None)
    def set_auto_maskandscale(self, v): self._g.scaled = v
    set_auto_scale = set_auto_mask = lambda self, v: None
    def setncattr(self, k, v): self.__dict__[k] = v
    def setncatts(self, d): self.__dict__.update(d)
    def __setitem__(self, k, v): self._g.stored.append((k, v, dict((n, x) for n, x in self.__dict__.items() if n != '_g')))
    @property
    def attrs(self): return {k: v for k, v in self.__dict__.items() if k != '_g'}
class GhostDataset(object):
    def __init__(self, path, mode='r', format=None, **kw):
        self.__dict__['_g'] = NS(path=path, mode=mode, dims={}, vars={}, closed=0)
        GhostDataset.last.append(self)
    last = []
    def createDimension(self, name, size=None): self._g.dims[name] = size
    def createVariable(self, name, dtype, dims=(), **kw):
        v = GhostVariable(name, dtype, dims, kw); self._g.vars[name] = v; return v
    def setncattr(self, k, v): self.__dict__[k] = v
    def setncatts(self, d): self.__dict__.update(d)
    def close(self): self._g.closed += 1
    @property
    def attrs(self): return {k: v for k, v in self.__dict__.items() if k != '_g'}
def whole(key, n):
    """the key addresses all of a first dimension of n items"""
    if key is Ellipsis: return True
    if isinstance(key, tuple): return all(whole(k, None) for k in key)
    if not isinstance(key, slice) or key.step not in (None, 1): return False
    return And(key.start is None or Eq(key.start, 0), key.stop is None or (n is not None and Eq(key.stop, n)))
def eqattr(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray): return np.array_equal(x, y)
    return type(x) == type(y) and x == y if isinstance(x, (str, bytes)) else x == y
def same_attrs(x, y): return set(x) == set(y) and all(eqattr(x[k], y[k]) for k in x)
META = dict(standard_name='air_temperature', units='K', cell_methods='time: mean', scale_factor=.005, add_offset=273.15, flag_values=np.array([1, 2], np.uint8), flag_meanings='a b', axis='T', bounds='b', calendar='gregorian', ancillary_variables='q', valid_range=np.array([0, 9], np.uint8), cf_role='timeseries_id', length_scale='unknown', time_scale=3.0, flag_masks=np.array([4], np.uint8), length_scale_units='km', time_scale_units='day')

@contract
class AddVariable(Contract):
    """a variable is created once under its name, type, dimensions and fill value, compressed exactly when a level is asked for, described by its own metadata before its values arrive, and given every value and every gap"""
    name = 'file.add_variable'; functions = (FB + ':FileBuilder.add_variable', FB + ':FileBuilder.add_dimension_and_variable', FB + ':FileBuilder.add_dimension', FB + ':FileBuilder.create', FB + ':FileBuilder.save_and_close', OV + ':OutputVariableTemplate.get_metadata')
    def setup(self, B):
        a = NS(B=B, nd=B.choice('nd', [1, 2, 3]), gaps=B.choice('gaps', [True, False]), level=B.choice('level', [0, 4]), axis=B.choice('axis', [None, 'fixed', 'unlimited']), meta=B.choice('meta', [0, 1]), fill=B.choice('fill', [None, -32768]))
        if a.axis and a.nd != 1: raise Reject()
        a.shape = tuple(B.size('n%d' % k, 1, 4) for k in range(a.nd))
        a.v = B.func('v', a.nd, 'r', gen=lambda r, *k: r.randint(-40, 40) / 8.0); a.gap = B.func('gap', a.nd, 'b', gen=lambda r, *k: r.random() < .3)
        if B.symbolic:
            v = snp.from_fn(a.shape, lambda ix: lift(a.v(*[wrapz(i) for i in ix])), 'r', np.dtype('f8'))
            a.values = snp.SMArr(v, snp.from_fn(a.shape, lambda ix: lift(a.gap(*[wrapz(i) for i in ix])), 'b', np.dtype(bool))) if a.gaps else v
        else:
            v = np.zeros(a.shape); m = np.zeros(a.shape, bool)
            for ix in np.ndindex(*a.shape): v[ix] = a.v(*ix); m[ix] = a.gap(*ix)
            a.values = np.ma.masked_array(v, mask=m) if a.gaps else v
        keys = sorted(META); a.meta = {k: META[k] for k in keys[a.meta::2]}
        return a
    def stubs(self, B, a): return {FB + ':Dataset': Only(GhostDataset)}
    def run(self, M, a):
        del GhostDataset.last[:]
        b = M(FB).FileBuilder(); v = M(OV).OutputVariable('name_of_it', np.int16, a.fill, long_name='Long name', **a.meta)
        b.create('path', 'the title', 'the institution', 'the comment', 'the history', 'the source')
        if a.axis: b.add_dimension_and_variable('d0', v, a.values, unlimited=a.axis == 'unlimited'); a.lev = 0
        else:
            for k, n in enumerate(a.shape): b.add_dimension('d%d' % k, n)
            b.add_variable(v, tuple('d%d' % k for k in range(a.nd)), a.values, a.level); a.lev = a.level
        b.save_and_close()
        return GhostDataset.last[0]
    def post(self, C, a, out):
        d = out.value; g = d._g
        C.holds('file', len(GhostDataset.last) == 1 and g.path == 'path' and g.mode == 'w' and g.closed == 1)
        C.holds('attributes', same_attrs({k: v for k, v in d.attrs.items() if k != 'Conventions'}, dict(title='the title', institution='the institution', comment='the comment', history='the history', source='the source')))
        C.holds('conventions', str(d.attrs.get('Conventions')) == 'CF-1.6')
        for k, n in enumerate(a.shape):
            got = g.dims.get('d%d' % k, 'absent')
            C.holds('dimension', got is None if a.axis == 'unlimited' else (not isinstance(got, (str, type(None))) and Eq(got, n)))
        C.holds('one', list(g.vars) == ['name_of_it'])
        v = g.vars['name_of_it']; x = v._g
        C.holds('kind', x.dtype == np.int16 and x.dims == tuple('d%d' % k for k in range(a.nd)) and x.kw.get('fill_value') == a.fill)
        C.holds('compressed', bool(x.kw.get('zlib', False)) == (a.lev > 0) and (a.lev == 0 or x.kw.get('complevel') == a.lev))
        want = dict(a.meta, long_name='Long name')
        C.holds('metadata', same_attrs(v.attrs, want))
        C.holds('stored', len(x.stored) == 1)
        key, val, before = x.stored[0]
        C.holds('described_first', same_attrs({k: y for k, y in before.items() if k in ('scale_factor', 'add_offset', 'valid_range')}, {k: y for k, y in want.items() if k in ('scale_factor', 'add_offset', 'valid_range')}))
        C.holds('all_of_it', whole(key, a.shape[0]))
        C.holds('shape', And(len(val.shape) == a.nd, *[Eq(p, q) for p, q in zip(val.shape, a.shape)]))
        if a.gaps:
            mask = val.getmaskarray() if C.symbolic else np.ma.getmaskarray(val)
            C.forall('gaps', a.shape, lambda *ix: Eq(elem(mask, *ix), a.gap(*ix)))
        data = val.data if isinstance(val, (snp.SMArr, np.ma.MaskedArray)) else val
        C.forall('values', a.shape, lambda *ix: Or(a.gap(*ix) if a.gaps else False, Eq(elem(data, *ix), a.v(*ix))))

@contract
class Axes(Contract):
    """a global field has cell centres as latitudes and longitudes, south to north and west to east, the day as time with bounds from that midnight to the next, and the local time offset of every longitude"""
    name = 'global.axes'; functions = (GF + ':FileBuilderGlobalField.__init__', GF + ':FileBuilderGlobalField.add_global_field')
    def setup(self, B):
        a = NS(B=B, ny=B.size('ny', 2, 40))
        a.nx = 2 * a.ny
        a.day = B.int('day', 0, 80000)
        if B.symbolic:
            a.res = B.real('res'); B.assume(And(a.res > 0, Eq(a.res * a.ny, 180)))
            a.field = B.array('field', (1, a.ny, a.nx), 'f8', -10, 10)
        else:
            a.res = 180.0 / a.ny; a.field = np.arange(a.ny * a.nx * 1.0).reshape((1, a.ny, a.nx))
        return a
    def stubs(self, B, a): return {FB + ':Dataset': Only(GhostDataset), GF + ':ensuredirectory': Only(lambda p: a.__dict__.setdefault('made', []).append(p)), DF + ':GLOBAL_FIELD_SHAPE': (1, a.ny, a.nx), DF + ':GLOBAL_FIELD_RESOLUTION': a.res}
    def run(self, M, a):
        del GhostDataset.last[:]; a.made = []
        b = M(GF).FileBuilderGlobalField('some/path.nc', a.day, 'Data Set', 'v', 'tas', 'inst', 'com', 'hist', 'src')
        b.add_global_field(M(DF).TAS, a.field)
        return GhostDataset.last[0]
    def post(self, C, a, out):
        d = out.value; g = d._g; v = g.vars
        C.holds('file', g.path == 'some/path.nc' and g.mode == 'w' and a.made == ['some/path.nc'])
        C.holds('attributes', d.attrs.get('title', '').endswith('Data Set') and (d.attrs.get('institution'), d.attrs.get('comment'), d.attrs.get('history'), d.attrs.get('source')) == ('inst', 'com', 'hist', 'src'))
        C.holds('names', set(v) == {'time', 'timebounds', 'latitude', 'longitude', 'timeoffset', 'tas'})
        C.holds('dims', set(g.dims) == {'time', 'bounds', 'latitude', 'longitude'})
        C.holds('time.unlimited', g.dims['time'] is None); C.holds('bounds.two', Eq(g.dims['bounds'], 2))
        C.holds('latitude.size', Eq(g.dims['latitude'], a.ny)); C.holds('longitude.size', Eq(g.dims['longitude'], a.nx))
        for n, dims in dict(time=('time',), timebounds=('time', 'bounds'), latitude=('latitude',), longitude=('longitude',), timeoffset=('longitude',), tas=('time', 'latitude', 'longitude')).items(): C.holds(n + '.dims', v[n]._g.dims == dims)
        one = {n: x._g.stored for n, x in v.items()}
        for n, s in one.items(): C.holds(n + '.stored', len(s) == 1)
        val = {n: s[0][1] for n, s in one.items()}
        for n, size in (('latitude', a.ny), ('longitude', a.nx), ('timeoffset', a.nx)): C.holds(n + '.all', And(whole(one[n][0][0], size), len(val[n].shape) == 1, Eq(val[n].shape[0], size)))
        near = (lambda x, y: Eq(x, y)) if C.symbolic else (lambda x, y: abs(x - y) <= 1e-4)
        C.holds('day', And(val['time'].shape == (1,), Eq(elem(val['time'], 0), a.day)))
        C.holds('bounds', And(val['timebounds'].shape == (1, 2), Eq(elem(val['timebounds'], 0, 0), a.day), Eq(elem(val['timebounds'], 0, 1), a.day + 1)))
        half = .5 if not C.symbolic else wrapz(sym.z3.RealVal('1/2'))
        C.forall('latitude', (a.ny,), lambda k: near(elem(val['latitude'], k), a.res * (k + half) - 90))
        C.forall('longitude', (a.nx,), lambda k: near(elem(val['longitude'], k), a.res * (k + half) - 180))
        C.forall('timeoffset', (a.nx,), lambda k: near(360 * elem(val['timeoffset'], k), a.res * (k + half) - 180))
        f = val['tas']
        C.forall('field', (a.ny, a.nx), lambda i, j: Eq(elem(f, 0, i, j), elem(a.field, 0, i, j)))

# ------------------------------------------------------------------ aggregated satellite fields

COUNTS = ('ts_number_of_observations', 'total_number_of_observations')
FIELDS = {'tsmean': 't', 'tsmax': 't', 'tsmin': 't', 'tsvariance': 'v', 'tsmean_unc_ran': 'u', 'tsmean_unc_loc_atm': 'u', 'tsmean_unc_loc_sfc': 'u', 'tsmean_unc_sys': 'u', 'tsmean_unc_spl': 'u'}
@contract
class Aggregates(Contract):
    """every aggregated field is stored under its own name with gaps exactly where it is flagged invalid; counts are stored as they are; axes as given"""
    name = 'satgrid.fields'; functions = tuple(SG + ':FileBuilderAggregateField.' + n for n in ('save', '__init__', 'setfields', 'add_field', 'add_temperature_field', 'add_uncertainty_field', 'add_variance_field'))
    def setup(self, B):
        a = NS(B=B, ny=B.size('ny', 1, 4), nx=B.size('nx', 1, 4), level=B.choice('level', [0, 4])); a.f = {}; a.v = {}
        for k in COUNTS + tuple(FIELDS) + ('latitude', 'longitude'):
            sh = (a.ny, a.nx) if k in COUNTS or k in FIELDS else (a.ny,) if k == 'latitude' else (a.nx,)
            x = a.f[k] = B.array(k, sh, 'i4' if k in COUNTS else 'f8', 0 if k in COUNTS else -1, 300)
            if B.symbolic: a.v[k] = (lambda s: lambda *ix: wrapz(s(tuple(lift(i) for i in ix))))(x.snapshot())
            else:
                if k in FIELDS: x[np.random.RandomState(len(k)).rand(*sh) < .3] = -1.0
                a.v[k] = (lambda y: lambda *ix: y[ix])(x.copy())
        return a
    def stubs(self, B, a): return {FB + ':Dataset': Only(GhostDataset)}
    def run(self, M, a):
        del GhostDataset.last[:]
        M(SG).FileBuilderAggregateField.save('out.nc', a.f, 'the source', a.level)
        return GhostDataset.last[0]
    def post(self, C, a, out):
        d = out.value; g = d._g; v = g.vars
        C.holds('file', len(GhostDataset.last) == 1 and g.path == 'out.nc' and g.mode == 'w' and g.closed == 1 and d.attrs.get('source') == 'the source')
        C.holds('names', set(v) == set(a.f)); C.holds('dims', And(set(g.dims) == {'latitude', 'longitude'}, Eq(g.dims['latitude'], a.ny), Eq(g.dims['longitude'], a.nx)))
        for k in a.f:
            x = v[k]._g; grid = k in COUNTS or k in FIELDS; sh = (a.ny, a.nx) if grid else (a.ny,) if k == 'latitude' else (a.nx,)
            C.holds(k + '.dims', x.dims == (('latitude', 'longitude') if grid else (k,)))
            C.holds(k + '.stored', len(x.stored) == 1)
            key, val, before = x.stored[0]
            C.holds(k + '.all', And(whole(key, sh[0]), len(val.shape) == len(sh), *[Eq(p, q) for p, q in zip(val.shape, sh)]))
            if grid: C.holds(k + '.compressed', bool(x.kw.get('zlib', False)) == (a.level > 0) and (a.level == 0 or x.kw.get('complevel') == a.level))
            masked = isinstance(val, (snp.SMArr, np.ma.MaskedArray))
            if k in FIELDS:
                C.holds(k + '.masked', masked)
                mask = val.getmaskarray() if C.symbolic else np.ma.getmaskarray(val)
                C.forall(k + '.gaps', sh, lambda *ix: Eq(elem(mask, *ix), Eq(a.v[k](*ix), -1)))
            data = val.data if masked else val
            C.forall(k + '.values', sh, lambda *ix: Or(Eq(a.v[k](*ix), -1) if k in FIELDS else False, Eq(elem(data, *ix), a.v[k](*ix))))
            if k in COUNTS: C.holds(k + '.kind', np.dtype(x.dtype).kind in 'iu' and not ({'scale_factor', 'add_offset'} & set(v[k].attrs)))

# ------------------------------------------------------------------ descriptions

def scratch(f):
    d = tempfile.mkdtemp(prefix='vf22')
    try: return f(d)
    finally: shutil.rmtree(d)
def attrs(v): return {k: x for k, x in v.__dict__.items() if x is not None}
def same_desc(x, y): return x.keys() == y.keys() and all(eqattr(x[k], y[k]) for k in x)

@contract
class Template(Contract):
    """a variable made from a template: the template's metadata, the long name with its keywords filled in and a capital first letter, any other keyword as metadata of its own; the template is left as it was"""
    name = 'variable.template'; functions = (OV + ':OutputVariable.from_template', OV + ':OutputVariableTemplate.extend', OV + ':OutputVariableTemplate.get_template_long_name_keywords', OV + ':OutputVariableTemplate.get_metadata')
    prove = False
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed); o = M(OV)
        keys = [k for k in META if k != 'flag_masks']; base = {k: META[k] for k in keys if r.random() < .3}
        words = ['quantity', 'component', 'Part_2', 'x1'][:r.choice([0, 1, 1, 2, 2, 4])]; r.shuffle(words)
        long_ = r.choice([None, ' and '.join('{%s}' % w for w in words) + r.choice(['', ' daily surface air temperature', ' {again}']) if words else r.choice(['total', 'x', 'Total uncertainty', '']), 'Total of ' + ', '.join('{%s}' % w for w in words) if words else 'of them'])
        a.long = long_; used = [w for w in words + ['again'] if long_ and '{%s}' % w in long_]
        a.fill = r.choice([None, -32768, 0]); a.dtype = r.choice([np.int16, np.float32])
        t = o.OutputVariableTemplate(a.dtype, a.fill, template_long_name=long_, **base); a.base = base
        a.before = attrs(t)
        a.ext = {k: META[k] for k in r.sample(sorted(set(META) - set(base)), r.choice([0, 1, 3]))}
        if base and r.random() < .5: a.ext[sorted(base)[0]] = 'replaced'
        if r.random() < .3: a.ext['template_long_name'] = 'Other {component}'
        e = o.OutputVariableTemplate.extend(t, **a.ext); a.extended = attrs(e)
        a.kw = {w: r.choice(['average', 'Minimum', 'é'[:0] + 'x', '2 metre']) for w in used}
        a.extra = {k: ('extra', META[k])[isinstance(META[k], np.ndarray)] for k in r.sample(sorted(META), r.choice([0, 1, 2]))}
        a.given = r.choice([None, None, 'Given name', 'given']) ; a.used = used
        kw = dict(a.kw, **a.extra)
        v = o.OutputVariable.from_template(t, 'the_name', a.given, **kw) if r.random() < .5 else o.OutputVariable.from_template(t, 'the_name', long_name=a.given, **kw)
        a.after = attrs(t); a.meta = v.get_metadata()
        return v
    def post(self, C, a, out):
        v = out.value
        C.holds('template.kept', same_desc(a.after, a.before))
        want = dict(a.before); want.update(a.ext)
        C.holds('extended', same_desc(a.extended, want))
        C.holds('kind', v.name == 'the_name' and v.dtype == a.dtype and v.fill_value == a.fill)
        m = dict(a.base); m.update(a.extra)
        name = a.given
        if name is None and a.long is not None:
            name = a.long
            for k, x in a.kw.items(): name = name.replace('{%s}' % k, x)
            if len(name) >= 2: name = name[0].upper() + name[1:]
        if name is not None: m['long_name'] = name
        C.holds('long_name', a.meta.get('long_name') == name)
        C.holds('metadata', same_desc(a.meta, m))

PACKED = {'temperature': (180.0, 350.0, .005), 'uncertainty': (0.0, 30.0, .001), 'fraction': (0.0, 1.0, 2e-5), 'perturbation': (-100.0, 100.0, .005)}
def family(n):
    for k in ('', 'min', 'max'):
        t = 'tas' + k
        if n in (t, t + 'ensemble'): return 'temperature'
        if n == t + 'uncertainty' or n.startswith(t + '_unc_'): return 'uncertainty'
        if n in (t + 'climatologyfraction', t + 'observationinfluence'): return 'fraction'
        if n == t + '_perturbation': return 'perturbation'
def published(M):
    d = M(DF); return [(n, getattr(d, n)) for n in sorted(dir(d)) if type(getattr(d, n)).__name__ == 'OutputVariable' and family(getattr(d, n).name)]
class Held(dict):
    """what a file holds: something looked for that is not there is a failure of the file"""
    def __missing__(self, k): raise Failed('nothing under %r in the file' % (k,))
def read(path):
    import netCDF4
    with netCDF4.Dataset(path) as nc:
        res = NS(vars=Held(), attrs=Held({k: nc.getncattr(k) for k in nc.ncattrs()}), dims=Held({k: (len(d), d.isunlimited()) for k, d in nc.dimensions.items()}))
        for n, v in nc.variables.items():
            f = v.filters() or {}
            res.vars[n] = NS(value=v[:], dims=v.dimensions, dtype=v.dtype, attrs={k: v.getncattr(k) for k in v.ncattrs()}, level=f.get('complevel', 0) if f.get('zlib') else 0)
        return res
def within(got, want, gaps, tol):
    m = np.ma.getmaskarray(got); g = np.asarray(np.ma.getdata(got), float)
    return got.shape == want.shape and np.array_equal(m, gaps) and bool(np.all(np.abs(g - want)[~gaps] <= tol))

@contract
class Published(Contract):
    """every published temperature, uncertainty, fraction, ensemble and perturbation survives a file: gaps stay gaps, values over their whole range come back within half a packing step, with their names, units and description"""
    name = 'file.published_variables'; functions = (FB + ':FileBuilder.create', FB + ':FileBuilder.add_dimension', FB + ':FileBuilder.add_variable', FB + ':FileBuilder.add_dimension_and_variable', FB + ':FileBuilder.save_and_close', OV + ':OutputVariableTemplate.get_metadata')
    prove = False
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed); vs = r.sample(published(M), 6); a.want = {}
        sh = tuple(r.randint(1, 5) for _ in range(r.choice([1, 2, 3]))); a.sh = sh; a.open = r.random() < .5
        b = M(FB).FileBuilder()
        def go(d):
            p = os.path.join(d, 'x.nc'); b.create(p, 't', 'i', 'c', 'h', 's')
            axis = np.arange(sh[0]) * 3.0 + 1; a.axis = axis
            b.add_dimension_and_variable('time', M(DF).TIME, axis, unlimited=a.open)
            dims = ['time'] + ['d%d' % k for k in range(1, len(sh))]
            for k in range(1, len(sh)): b.add_dimension(dims[k], sh[k])
            for n, v in vs:
                if v.name in a.want: continue
                lo, hi, step = PACKED[family(v.name)]; size = int(np.prod(sh))
                x = np.array([r.choice([lo, hi, r.uniform(lo, hi), r.uniform(lo, hi)]) for _ in range(size)]).reshape(sh)
                g = np.array([r.random() < .3 for _ in range(size)]).reshape(sh); kind = r.choice(['gaps', 'gaps', 'plain', 'nomask'])
                if kind != 'gaps': g[:] = False
                lev = r.choice([0, 0, 1, 4, 9])
                b.add_variable(v, tuple(dims) if r.random() < .5 else dims, np.ma.masked_array(x.copy(), g.copy()) if kind == 'gaps' else x.copy() if kind == 'plain' else np.ma.masked_array(x.copy()), lev)
                a.want[v.name] = (x, g, step, lev, tuple(dims), v.get_metadata(), v.dtype)
            b.save_and_close()
            return read(p)
        return scratch(go)
    def post(self, C, a, out):
        f = out.value
        C.holds('attributes', {k: str(v) for k, v in f.attrs.items()} == dict(title='t', institution='i', comment='c', history='h', source='s', Conventions='CF-1.6'))
        C.holds('time', f.dims['time'] == (a.sh[0], a.open) and np.array_equal(f.vars['time'].value, a.axis))
        C.holds('names', set(f.vars) == set(a.want) | {'time'})
        for n, (x, g, step, lev, dims, meta, dtype) in a.want.items():
            v = f.vars[n]
            C.holds('dims', v.dims == dims and v.dtype == np.dtype(dtype)); C.holds('level', v.level == lev)
            C.holds('values', within(v.value, x, g, step * .5 + 1e-9))
            C.holds('described', same_desc({k: y for k, y in v.attrs.items() if k != '_FillValue'}, meta) and bool(meta.get('long_name')))

@contract
class Descriptions(Contract):
    """no two published names are confused: the long name of a temperature or uncertainty says which of average, minimum and maximum it is, temperatures and uncertainties are in kelvin, and daily statistics say how they were formed"""
    name = 'definitions.descriptions'; functions = (OV + ':OutputVariable.from_template', OV + ':OutputVariableTemplate.extend')
    prove = False; weight = .02
    def setup(self, B): return NS(B=B, k=B.int('k', 0, 0))
    def run(self, M, a): return published(M)
    def post(self, C, a, out):
        seen = {}
        for n, v in out.value:
            m = v.get_metadata(); q = {'tas_': 'average', 'tasmin': 'minimum', 'tasmax': 'maximum'}
            kind = 'minimum' if v.name.startswith('tasmin') else 'maximum' if v.name.startswith('tasmax') else 'average'
            if family(v.name) != 'perturbation' and 'fourier' not in m['long_name']:
                C.holds('quantity', kind in m['long_name'].lower() and not any(w in m['long_name'].lower() for w in {'average', 'minimum', 'maximum'} - {kind}))
            if family(v.name) in ('temperature', 'uncertainty', 'perturbation'): C.holds('kelvin', m.get('units') == 'K')
            if v.name in ('tas', 'tasmin', 'tasmax'): C.holds('method', m.get('cell_methods') == 'time: ' + {'average': 'mean'}.get(kind, kind) and m.get('standard_name') == 'air_temperature')
            C.holds('packing', np.dtype(v.dtype) == np.int16 and v.fill_value == -32768)

# ------------------------------------------------------------------ files of daily fields

@contract
class Paths(Contract):
    """the path of a day's field: the year's folder under the base, then variable, collection, framework, realisation and date; the parent folder is made when it is missing, kept when it is there, and a file in its place is an error"""
    name = 'global.paths'; functions = (GF + ':DatasetAttributesGlobalField.build_pathname', GF + ':DatasetAttributesGlobalField.build_pathname_patterns', ED + ':ensuredirectory')
    prove = False
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed); a.day = r.choice([r.randint(0, 70000), 0, 364, 365, 21914, 54422, 51543 + r.randint(0, 800)]); a.var = r.choice(['tas', 'tasmin', 'tasmax_x']); a.set = r.choice(['Daily', 'example dataset', 'R1413_B', 'ABC'])
        d = M(GF).DatasetAttributesGlobalField(a.set, '1.0', a.var, 'i', 'c', 'h', 's')
        def go(base):
            a.base = base; p = d.build_pathname(base, a.day); a.again = d.build_pathname(base, a.day)
            a.state = r.choice(['new', 'there', 'deep', 'file', 'cwd'])
            tgt = {'new': p, 'there': p, 'deep': os.path.join(base, 'a', 'b', 'c', 'f.nc'), 'file': os.path.join(base, 'plain', 'f.nc'), 'cwd': 'f.nc'}[a.state]
            if a.state == 'there': os.makedirs(os.path.dirname(p)); open(os.path.join(os.path.dirname(p), 'kept'), 'w').close()
            if a.state == 'file': open(os.path.join(base, 'plain'), 'w').close()
            try: M(ED).ensuredirectory(tgt); a.err = None
            except OSError: a.err = True
            a.isdir = not os.path.dirname(tgt) or os.path.isdir(os.path.dirname(tgt)); a.files = sorted(os.path.relpath(os.path.join(x, f), base) for x, _, fs in os.walk(base) for f in fs)
            return p
        return scratch(go)
    def post(self, C, a, out):
        t = EPOCH + datetime.timedelta(days=a.day)
        C.holds('path', out.value == os.path.join(a.base, '%04d' % t.year, '%s_%s_eustace_0_%04d%02d%02d.nc' % (a.var, a.set.lower(), t.year, t.month, t.day)))
        C.holds('stable', a.again == out.value)
        if a.state == 'file': C.holds('refused', a.err is True)
        else: C.holds('made', a.err is None and a.isdir)
        C.holds('nothing_else', a.files == {'there': [os.path.join('%04d' % t.year, 'kept')], 'file': ['plain']}.get(a.state, []))

@contract
class GlobalFile(Contract):
    """a daily file of the published size: axes of the quarter-degree cells, the day and its bounds, every field and uncertainty with its gaps, and it passes the verifier for global fields"""
    name = 'global.file'; functions = (GF + ':FileBuilderGlobalField.__init__', GF + ':FileBuilderGlobalField.add_global_field', GF + ':FileBuilderGlobalField.add_uncertainty_parameter', FB + ':FileBuilder.add_variable', VG + ':VerifyGlobalField.check_all')
    prove = False; weight = .03
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed); rs = np.random.RandomState(a.seed % 2**31); a.day = r.randint(0, 70000); sh = (1, 720, 1440); a.spoil = r.choice([None, None, 'attr', 'cut'])
        a.x = np.linspace(200, 330, 720 * 1440).reshape(sh); a.u = np.linspace(0, 30, 720 * 1440)[::-1].reshape(sh); a.g = rs.rand(*sh) < .2; a.h = rs.rand(*sh) < .2; a.name = r.choice(['TAS', 'TASMIN', 'TASMAX'])
        def go(d):
            p = os.path.join(d, 'sub', 'x.nc'); b = M(GF).FileBuilderGlobalField(p, a.day, 'Set', '1', 'tas', 'inst', 'com', 'hist', 'src')
            a.v = getattr(M(DF), a.name)
            b.add_global_field(a.v, np.ma.masked_array(a.x, a.g)); b.add_uncertainty_parameter('unc1', 'Some uncertainty', np.ma.masked_array(a.u, a.h)); b.save_and_close()
            res = read(p); a.before = NS(text=io.StringIO())
            a.ok = M(VG).VerifyGlobalField().run(NS(pathname=p), a.before.text)
            import netCDF4
            q = os.path.join(d, 'copy.nc'); shutil.copy(p, q)
            with netCDF4.Dataset(q, 'a') as nc:
                if a.spoil == 'attr': nc.variables[a.v.name].units = 'C'
                if a.spoil == 'cut': nc.renameDimension('latitude', 'latitudes')
            a.ok2 = M(VG).VerifyGlobalField().run(NS(pathname=q), io.StringIO())
            a.ok3 = M(VG).VerifyGlobalField().run(NS(pathname=p + 'x'), io.StringIO())
            return res
        return scratch(go)
    def post(self, C, a, out):
        f = out.value; v = f.vars
        C.holds('axes', np.allclose(v['latitude'].value, -89.875 + .25 * np.arange(720), atol=1e-5, rtol=0) and np.allclose(v['longitude'].value, -179.875 + .25 * np.arange(1440), atol=1e-5, rtol=0) and np.allclose(v['timeoffset'].value * 360, -179.875 + .25 * np.arange(1440), atol=1e-4, rtol=0))
        C.holds('day', v['time'].value.tolist() == [a.day] and v['timebounds'].value.tolist() == [[a.day, a.day + 1]] and f.dims['time'] == (1, True))
        C.holds('units', v['time'].attrs['units'] == 'days since 1850-01-01T00:00:00Z')
        C.holds('field', within(v[a.v.name].value, a.x, a.g, .0025 + 1e-9)); C.holds('uncertainty', within(v['unc1'].value, a.u, a.h, .0005 + 1e-9) and v['unc1'].attrs['long_name'] == 'Some uncertainty' and v['unc1'].attrs['units'] == 'K')
        C.holds('verified', a.ok is True and 'Fail' not in a.before.text.getvalue() and 'Pass' in a.before.text.getvalue()); C.holds('spoiled', a.ok2 is (a.spoil is None)); C.holds('absent', a.ok3 is False)

@contract
class AggregateFile(Contract):
    """an aggregated file read back: counts exactly, temperatures, variances and uncertainties within half a packing step, gaps where a value was flagged invalid"""
    name = 'satgrid.file'; functions = (SG + ':FileBuilderAggregateField.save', SG + ':FileBuilderAggregateField.setfields', SG + ':FileBuilderAggregateField.add_field', SG + ':FileBuilderAggregateField.add_variance_field', FB + ':FileBuilder.add_variable')
    prove = False; weight = .6
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed); sh = (r.randint(1, 5), r.randint(1, 5)); a.f = {}
        pick = {'t': (170.0, 340.0), 'u': (0.0, 60.0), 'v': (0.0, 2500.0)}
        for k, kind in FIELDS.items():
            lo, hi = pick[kind]; a.f[k] = np.array([[-1.0 if r.random() < .3 else r.choice([lo, hi, r.uniform(lo, hi)]) for _ in range(sh[1])] for _ in range(sh[0])])
        for k in COUNTS: a.f[k] = np.array([[r.choice([0, r.randint(0, 32767), 32767]) for _ in range(sh[1])] for _ in range(sh[0])], np.int32)
        a.f['latitude'] = np.arange(sh[0]) * .25 - 10; a.f['longitude'] = np.arange(sh[1]) * .25 + 170
        a.given = {k: v.copy() for k, v in a.f.items()}; a.level = r.choice([0, 4])
        def go(d):
            p = os.path.join(d, 'x.nc'); M(SG).FileBuilderAggregateField.save(p, a.f, 'src', a.level); return read(p)
        return scratch(go)
    def post(self, C, a, out):
        f = out.value
        C.holds('names', set(f.vars) == set(a.given)); C.holds('source', f.attrs['source'] == 'src')
        C.holds('given.kept', all(np.array_equal(a.f[k], a.given[k]) for k in a.given))
        for k, x in a.given.items():
            v = f.vars[k]; kind = FIELDS.get(k)
            C.holds('level', kind is None or v.level == a.level)
            C.holds(k, within(v.value, x, x == -1 if kind else np.zeros(x.shape, bool), {'t': .0025, 'u': .0005, 'v': 2.5e-6, None: 0}[kind] + 1e-9))

# ------------------------------------------------------------------ stations

@contract
class Stations(Contract):
    """station data: every sample appears at its own time and station and nowhere else, the rest masked; breaks and detection quality in the order they were added with the index of their station; both files hold them all, and pass the verifier for stations"""
    name = 'stations.files'; functions = tuple(SD + ':' + n for n in ('StationDescriptionArray.get_station_index', 'StationDescriptionArray.get_station_names', 'StationData.add_temperature_sample', 'StationData.add_break', 'StationData.add_break_detection_period', 'StationData.get_unique_temperature_sample_times', 'StationData.get_temperature_samples', 'StationData.get_break_variable', 'StationData.get_break_detection_quality_variable')) + tuple(ST + ':FileBuilderStationData.' + n for n in ('__init__', 'set_temperature_dimensions', 'add_temperature_variable', 'add_status_dimension', 'add_status_variable', 'save_and_close')) + (VS + ':VerifyStationData.check_all',)
    prove = False
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed); d, s, st = M(DF), M(SD), M(ST)
        ns = r.randint(1, 5); a.names = r.sample(['Oslo', 'A', 'Long name of a station, thirty-two'[:32], 'B 2', 'station-5', 'Aa'], ns); a.lat = [r.randint(-90, 90) / 1.0 for _ in a.names]
        data = s.StationData(s.StationDescriptionArray([s.StationDescription(n, la, 10.0, 5.0) for n, la in zip(a.names, a.lat)]))
        times = r.sample([k + o for k in range(40000, 40012) for o in (0.25, 0.5)], r.randint(1, 8))
        a.samples = {}; n = 0
        for t in times:
            for q in r.sample(range(ns), r.randint(1, ns)):
                x = (r.randint(-20000, 15000) * .005 + 273.15, r.randint(-20000, 15000) * .005 + 273.15)
                a.samples[(t, q)] = x
        items = list(a.samples.items()); r.shuffle(items)
        for (t, q), x in items: data.add_temperature_sample(s.StationTemperatureSample(a.names[q], t + r.choice([0, 0, .0001, -.0001]), x[0], 0, x[1], 0))
        a.qual = [(40000.0 + 30 * k, r.randint(0, 2), r.randint(0, 2)) for k in range(r.randint(1, 4))]
        for q in a.qual: data.add_break_detection_period(s.StationBreakDetectionQuality(*q))
        a.breaks = {}
        for w in ('TASMIN', 'TASMAX'):
            a.breaks[w] = [(r.randrange(ns), r.randint(-30, 30) / 4.0, (-r.randint(1, 9) * 1.0, r.randint(1, 9) * 1.0), (-r.randint(10, 90) * 1.0, r.randint(10, 90) * 1.0)) for _ in range(r.randint(1, 4))]
            for q, amp, tb, ab in a.breaks[w]: data.add_break(getattr(d, w), s.StationBreak(a.names[q], amp, tb, ab))
        a.axis = data.get_unique_temperature_sample_times()
        a.idx = [data.descriptions.get_station_index(n) for n in a.names] + [data.descriptions.get_station_index('nowhere')]
        a.vals = [data.get_temperature_samples(a.axis, d.TASMIN), data.get_temperature_samples(a.axis, d.TASMAX)]
        def go(dr):
            b = st.FileBuilderStationData(dr, 'Some REGION', '1.2', 'inst', 'com', 'hist', 'src')
            b.set_temperature_dimensions(data.descriptions, np.array(a.axis))
            b.add_temperature_variable(d.TASMIN, a.vals[0]); b.add_temperature_variable(d.TASMAX, a.vals[1])
            b.add_status_dimension(d.DIMENSION_NAME_DETECTION_TIME)
            for n in ('DETECTION_TIME', 'TASMIN_DETECTION_QC', 'TASMAX_DETECTION_QC'): b.add_status_variable(d.DIMENSION_NAME_DETECTION_TIME, getattr(d, n), data.get_break_detection_quality_variable(getattr(d, n)))
            for w in ('TASMIN', 'TASMAX'):
                dim = getattr(d, 'DIMENSION_NAME_%s_BREAK' % w); b.add_status_dimension(dim)
                for n in ('STATION', 'AMPLITUDE'): v = getattr(d, '%s_BREAK_%s' % (w, n)); b.add_status_variable(dim, v, data.get_break_variable(v))
                for n in ('TIME_BOUNDS', 'TIME_AFFECTED_BOUNDS'): v = getattr(d, '%s_BREAK_%s' % (w, n)); b.add_status_variable(dim, v, data.get_break_variable(v), bounds=True)
            b.save_and_close()
            a.files = sorted(os.listdir(dr))
            p = os.path.join(dr, 'eustace_stations_some region_1.2')
            for lack in ('status', 'temperature'):           # a copy of one of the files is no pair
                os.mkdir(os.path.join(dr, lack)); k = 'temperature' if lack == 'status' else 'status'; shutil.copy(p + '_%s.nc' % k, os.path.join(dr, lack, 'x_%s.nc' % k))
            a.ok = [M(VS).VerifyStationData().run(NS(pathnameprefix=q), io.StringIO()) for q in (p, os.path.join(dr, 'eustace_stations_other'), os.path.join(dr, 'status', 'x'), os.path.join(dr, 'temperature', 'x'))]
            return [read(os.path.join(dr, 'eustace_stations_some region_1.2_%s.nc' % k)) for k in ('temperature', 'status')]
        return scratch(lambda dr: quiet(lambda: go(dr)))
    def post(self, C, a, out):
        t, s = out.value
        axis = sorted({k[0] for k in a.samples})
        C.holds('times', len(a.axis) == len(axis) and np.allclose(a.axis, axis, rtol=0, atol=.0005) and list(a.axis) == sorted(a.axis))
        C.holds('index', a.idx == list(range(len(a.names))) + [None])
        for w, name, tol in ((0, 'tasmin', 1e-3), (1, 'tasmax', 1e-3)):
            want = np.zeros((len(axis), len(a.names))); gap = np.ones(want.shape, bool)
            for (tt, q), x in a.samples.items(): want[axis.index(tt), q] = x[w]; gap[axis.index(tt), q] = False
            C.holds('samples', within(a.vals[w], want, gap, 1e-3)); C.holds('file', within(t.vars[name].value, want, gap, .0025 + 1e-3) and t.vars[name].dims == ('time', 'station'))
        C.holds('files', a.files == ['eustace_stations_some region_1.2_status.nc', 'eustace_stations_some region_1.2_temperature.nc'])
        C.holds('verified', a.ok == [True, False, False, False])
        C.holds('names', [b''.join(np.ma.getdata(row).tolist()).rstrip(b'\0').decode() for row in t.vars['station_name'].value] == a.names)
        C.holds('time', np.allclose(t.vars['time'].value, axis, rtol=0, atol=.01) and np.allclose(t.vars['timebounds'].value, [[x, x + 1] for x in axis], rtol=0, atol=.01) and t.dims['time'] == (len(axis), True) and t.attrs['featureType'] == 'timeSeries')
        for k, n in enumerate(('detection_time', 'tasmin_detection_qc', 'tasmax_detection_qc')): C.holds('quality', s.vars[n].value.tolist() == [q[k] for q in a.qual])
        for w in ('TASMIN', 'TASMAX'):
            for k, n in enumerate(('station', 'amplitude', 'time_bounds', 'time_affected_bounds')): C.holds('breaks', np.array_equal(s.vars['%s_break_%s' % (w.lower(), n)].value, np.array([x[k] for x in a.breaks[w]])))

# ------------------------------------------------------------------ the verifier

@contract
class Verify(Contract):
    """a file passes exactly when it opens, has every required attribute with its value, at least one known variable, every known variable with its type and metadata, and every dimension with its size; each check is reported"""
    name = 'verify.exact'; functions = tuple(VE + ':Verifier.' + n for n in ('check_open', 'check_attributes', 'check_variables', 'check_dimensions', 'check_file', 'has_passed', 'run', 'get_outcomes_table', 'log_outcome'))
    prove = False
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        import netCDF4
        from importlib import import_module
        r = random.Random(a.seed); S = M(OF + 'verify.specification')
        spec = S.FileSpecification(); spec.attributes = dict(title=True, source=r.choice([True, 'abc']), Conventions='CF-1.6', extra=False); spec.dimensions = dict(time=r.choice([None, 3]), latitude=r.choice([4, 5]))
        known = [('v1', np.float32, dict(units='K', long_name=None)), ('v2', np.int16, dict(flag_values=[0, 1, 2], flag_meanings='a b c')), ('v3', None, {}), ('v4', np.uint8, dict(valid_range=None, units='1'))]
        for n, t, m in known:
            v = S.VariableSpecification(n, t)
            for k, x in m.items(): v.add_metadata(k, x)
            spec.variables.append(v)
        a.ok = True
        def off(p=.06): return r.random() < p
        def go(d):
            p = os.path.join(d, 'x.nc')
            if r.random() < .05:
                a.ok = False
                if r.random() < .5: open(p, 'w').write('not a file of this kind')
                return self.verdict(M, p, spec, a)
            with netCDF4.Dataset(p, 'w') as nc:
                for k, x in spec.attributes.items():
                    if off(): a.ok = a.ok and x is False; continue
                    if isinstance(x, str) and off(): nc.setncattr(k, x + 'x'); a.ok = False
                    else: nc.setncattr(k, x if isinstance(x, str) else 'anything')
                for k, x in spec.dimensions.items():
                    w = r.random()
                    if w < .04 and k != 'latitude': a.ok = False; nc.createDimension('other_' + k, 2); continue
                    if w < .08: a.ok = False; nc.createDimension(k, 7)
                    elif w < .12 and x is not None: a.ok = False; nc.createDimension(k, None)
                    elif w < .16 and x is None: a.ok = False; nc.createDimension(k, 3)
                    else: nc.createDimension(k, x)
                for k, d in nc.dimensions.items():
                    if d.isunlimited() and r.random() < .7: nc.createVariable('along_' + k, 'f4', (k,))[0:(spec.dimensions.get(k) or 2)] = 1.0
                have = [v for v in known if r.random() < .7]
                if not have: a.ok = False
                for n, t, m in have:
                    bad = off(); v = nc.createVariable(n, np.float64 if bad else (t or np.int32), ('latitude',))
                    if bad and t is not None: a.ok = False
                    for k, x in m.items():
                        if off(): a.ok = False; continue
                        if x is not None and off(): a.ok = False; x = [0, 1, 9] if isinstance(x, list) else x + '?'
                        elif isinstance(x, list) and off(): a.ok = False; x = [0, 1]
                        v.setncattr(k, np.array(x, np.uint8) if isinstance(x, list) else 'w' if x is None else x)
                if r.random() < .3: nc.createVariable('unknown', 'f4', ('latitude',))
            return self.verdict(M, p, spec, a)
        return scratch(go)
    def verdict(self, M, p, spec, a):
        class V(M(VE).Verifier):
            def check_all(self, args): self.check_file(args, spec, 'Open it')
        v = V(); s = io.StringIO(); res = v.run(p, s); a.text = s.getvalue(); a.n = len(v.outcomes); a.fails = sum(not o.outcome for o in v.outcomes); a.passed = v.has_passed()
        return res
    def post(self, C, a, out):
        C.holds('exact', bool(out.value) == a.ok); C.holds('agrees', bool(a.passed) == a.ok)
        C.holds('reported', a.text.count('| Pass |') + a.text.count('| Fail |') == a.n and a.text.count('| Fail |') == a.fails and (a.fails == 0) == a.ok and a.n > 0)
