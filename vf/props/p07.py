"""P07 - gridding puts each observation in the one cell that contains it"""
import numpy as np
from .. import sym, snp
from ..contract import Contract, NS, Reject
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift, ToReal
from .common import contract_list, elem, Only

CONTRACTS, contract = contract_list()
GRID = 'eustace.satgrid.grid'
GFL = 'eustace.satgrid_iris.gridbin.gridfieldlist'
GB = 'eustace.satgrid_iris.gridbin.gridbin'
GLOB = 'eustace.outputformats.globalfield'
DIAG = 'eustace.analysis.diagnosticgrid'
ASSUMPTIONS = ['coordinates, starts and cell sizes are treated as real numbers (floating point rounding at a cell edge is not modelled); the bounded search uses exactly representable values',
               'the integer types of index arrays (int32) are treated as unbounded']

INCS = [.25, .5, 1.0, 2.0, 5.0, 10.0, 45.0]
def axis(B, p, maxn=40):
    """start (lower edge of the first cell), cell size, number of cells"""
    if B.mode == 'random':
        inc = B.real(p + 'inc', gen=lambda r: r.choice(INCS)); n = B.int(p + 'n', gen=lambda r: r.choice([1, 2, 3, 4, 8, 36, maxn]))
        start = B.real(p + 'start', gen=lambda r: r.choice([0.0, -90.0, -180.0, 1.0, -0.5, r.randint(-720, 720) / 4.0]))
    else:
        inc = B.real(p + 'inc'); n = B.int(p + 'n', 1); start = B.real(p + 'start')
    B.assume(inc > 0); B.assume(n >= 1)
    return NS(start=start, inc=inc, n=n)
def coords(B, p, ax, m, inside=False):
    """coordinate values: often on edges, just inside/outside, near the ends"""
    if B.mode != 'random': return B.array(p, (m,), 'f8')
    def g(r):
        k = r.choice([0, ax.n, ax.n - 1, r.randint(0, ax.n), r.randint(0, ax.n)] + ([] if inside else [-1, ax.n + 1, 2 * ax.n, -ax.n, -3]))
        v = ax.start + k * ax.inc + r.choice([0.0, 0.0, .5, .25, .75, .125, -.125]) * ax.inc
        if inside: v = min(max(v, ax.start), ax.start + (ax.n - .125) * ax.inc)
        return v
    ins = inside or B.r.random() < .5
    return B.array(p, (m,), 'f8', gen=(lambda r: min(max(g(r), ax.start), ax.start + (ax.n - .125) * ax.inc)) if ins else g)
def cell_of(ax, v, i): return And(ax.start + i * ax.inc <= v, v < ax.start + (i + 1) * ax.inc)
def in_cell(ax, v, i, wrap):
    """i is a cell of the axis and contains v (up to whole turns when the axis is circular)"""
    span = ax.n * ax.inc
    hit = cell_of(ax, v, i)
    if wrap:
        if sym._symbolic(ax.inc, v, i): hit = Or(hit, cell_of(ax, v - span, i), cell_of(ax, v + span, i))
        else: hit = any(cell_of(ax, v + t * span, i) for t in range(-4, 5))
    return And(i >= 0, i < ax.n, hit)
def must_accept(ax, v, wrap):
    end = ax.start + ax.n * ax.inc
    return And(v >= ax.start - ax.inc, v < end + ax.inc) if wrap else And(v >= ax.start, v < end)
def all_(B_symbolic, m, fn):
    """for all k < m (as a hypothesis)"""
    if B_symbolic:
        import z3
        k = z3.Int(sym.ctx().name('h'))
        return wrapz(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lift(m)), sym.zbool(fn(wrapz(k))))))
    return all(fn(k) for k in range(m))
def check_axis(C, ax, v, m, wrap, out, prefix=''):
    """postcondition of compute_indices"""
    if out.raises(ValueError):
        C.holds(prefix + 'refused_only_outside', Not(all_(C.symbolic, m, lambda k: must_accept(ax, elem(v, k), wrap))))
        return
    r = out.value
    C.forall(prefix + 'containing_cell', (m,), lambda k: in_cell(ax, elem(v, k), elem(r, k), wrap))
    C.holds(prefix + 'one_index_per_value', Eq(r.shape[0], m) if C.symbolic else r.shape == (m,))

class AxisIndices(Contract):
    weight = 2
    def setup(self, B):
        ax = axis(B, 'a'); m = B.size('m', 0); wrap = B.choice('wrap', [False, True])
        return NS(ax=ax, m=m, wrap=wrap, v=coords(B, 'v', ax, m))
    def post(self, C, a, out): check_axis(C, a.ax, a.v, a.m, a.wrap, out)

@contract
class GridAxisIndices(AxisIndices):
    """GridAxis.compute_indices: the cell whose edges contain the value; outside values are refused, or wrapped when the axis is declared to wrap"""
    name = 'grid.axis.compute_indices'; functions = (GRID + ':GridAxis.compute_indices', GRID + ':GridAxis.__init__')
    def run(self, M, a):
        return M(GRID).GridAxis(a.ax.start, a.ax.inc, a.ax.n, a.wrap).compute_indices(a.v)

@contract
class FieldAxisIndices(AxisIndices):
    """GridFieldAxis.compute_indices (zeroth is the centre of the cell before the first)"""
    name = 'gridfieldlist.axis.compute_indices'; functions = (GFL + ':GridFieldAxis.compute_indices', GFL + ':GridFieldAxis.__init__')
    def run(self, M, a):
        return M(GFL).GridFieldAxis(zeroth=a.ax.start - 0.5 * a.ax.inc, step=a.ax.inc, count=a.ax.n, var_name='x', circular=a.wrap).compute_indices(a.v)

@contract
class AxisPoints(Contract):
    """GridAxis.get_points are the lower edges and get_centres the middles of the cells"""
    name = 'grid.axis.points'; functions = (GRID + ':GridAxis.get_points', GRID + ':GridAxis.get_centres')
    def setup(self, B): return NS(ax=axis(B, 'a'))
    def run(self, M, a):
        g = M(GRID).GridAxis(a.ax.start, a.ax.inc, a.ax.n)
        return g.get_points(), g.get_centres()
    def post(self, C, a, out):
        p, c = out.value
        C.holds('count', And(Eq(p.shape[0], a.ax.n), Eq(c.shape[0], a.ax.n)))
        C.forall('edges', (a.ax.n,), lambda k: Eq(elem(p, k), a.ax.start + k * a.ax.inc))
        C.forall('centres', (a.ax.n,), lambda k: Eq(elem(c, k), a.ax.start + (k + .5) * a.ax.inc))

@contract
class FlatIndices(Contract):
    """GridLatLon: flat cell number is row-major in latitude then longitude, from the two axes' own cells"""
    name = 'grid.latlon.compute_indices'; functions = (GRID + ':GridLatLon.compute_indices', GRID + ':GridLatLon.__init__')
    def setup(self, B):
        lat, lon = axis(B, 'a', 18), axis(B, 'b', 36)
        m = B.size('m', 0)
        a = NS(lat=lat, lon=lon, m=m, wa=B.choice('wa', [False, True]), wb=B.choice('wb', [False, True]))
        if B.symbolic: a.ia, a.ib = B.array('ia', (m,), 'i4', lo=0, hi=lat.n - 1), B.array('ib', (m,), 'i4', lo=0, hi=lon.n - 1)
        a.vlat, a.vlon = coords(B, 'vlat', lat, m), coords(B, 'vlon', lon, m)
        return a
    def stubs(self, B, a):
        if not B.symbolic: return {}
        # callee contract of GridAxis.compute_indices: an index in range (that it is the containing cell is proved separately)
        def ci(self_, values):
            if values is a.vlat and self_ is a.g.axis_lat: return a.ia.copy()
            if values is a.vlon and self_ is a.g.axis_lon: return a.ib.copy()
            raise sym.OutOfSubset('compute_indices of other coordinates')
        return {GRID + ':GridAxis.compute_indices': ci}
    def run(self, M, a):
        G = M(GRID)
        a.g = G.GridLatLon(G.GridAxis(a.lat.start, a.lat.inc, a.lat.n, a.wa), G.GridAxis(a.lon.start, a.lon.inc, a.lon.n, a.wb))
        return a.g.compute_indices(a.vlat, a.vlon), a.g.dimensions
    def post(self, C, a, out):
        if C.symbolic:
            r, d = out.value
            C.holds('dimensions', And(Eq(d[0], a.lat.n), Eq(d[1], a.lon.n)))
            C.forall('row_major', (a.m,), lambda k: Eq(elem(r, k), elem(a.ia, k) * a.lon.n + elem(a.ib, k)))
            return
        flat_post(C, a, out, lambda o: o[0])

def flat_post(C, a, out, get):
    """concrete end-to-end: flat index decodes to the two containing cells"""
    if out.raises(ValueError):
        C.holds('refused_only_outside', not all(must_accept(a.lat, a.vlat[k], a.wa) and must_accept(a.lon, a.vlon[k], a.wb) for k in range(a.m)))
        return
    r = get(out.value)
    C.holds('length', np.shape(r) == (a.m,))
    for k in range(a.m):
        i = int(r[k])
        C.holds('containing_cell', in_cell(a.lat, a.vlat[k], i // a.lon.n, a.wa) and in_cell(a.lon, a.vlon[k], i % a.lon.n, a.wb))

@contract
class AxisDescription(Contract):
    """the coordinate axis written with the fields has the cell centres of the assignment, and is contiguous"""
    name = 'gridfieldlist.axis_coordinates'; functions = (GFL + ':GridFieldAxis.axis_coordinates', GFL + ':GridFieldList.__init__')
    prove = False; weight = .5
    assumptions = ('iris.coords.DimCoord.from_regular is external: axis_coordinates is checked by bounded concrete runs',)
    def setup(self, B):
        a = NS(ax=axis(B, 'a'), circ=B.choice('circ', [False, True]))
        return a
    def run(self, M, a):
        G = M(GFL)
        x = G.GridFieldAxis(zeroth=a.ax.start - .5 * a.ax.inc, step=a.ax.inc, count=a.ax.n, var_name='longitude', circular=a.circ, units='degrees', standard_name='longitude')
        y = G.GridFieldAxis(zeroth=-10.0, step=1.0, count=3, var_name='latitude', circular=False, units='degrees', standard_name='latitude')
        l = G.GridFieldList([y, x])
        a.idx = x.compute_indices(x.axis_coordinates().points.astype(np.float64))
        return x.axis_coordinates(), l.axes_coordinates
    def post(self, C, a, out):
        c, l = out.value
        C.holds('centres', c.points.shape == (a.ax.n,) and all(abs(c.points[k] - (a.ax.start + (k + .5) * a.ax.inc)) <= 1e-4 * max(1, abs(c.points[k]) * 1e-2) for k in range(a.ax.n)))
        C.holds('own_cell', list(a.idx) == list(range(a.ax.n)))
        C.holds('described', c.var_name == 'longitude' and str(c.units) == 'degrees' and c.circular == a.circ)
        C.holds('axis_order', [d for _, d in l] == [0, 1] and l[1][0].var_name == 'longitude' and l[0][0].var_name == 'latitude')

class Coord:
    def __init__(s, p, name): s.points, s.var_name = p, name
class InputCube:
    """stand-in for the iris cube: data with mask, and coordinates looked up by name"""
    def __init__(s, data, cs): s.data, s.cs, s.var_name = data, cs, 'v'
    def coord(s, n):
        if n not in s.cs: raise KeyError(n)
        return s.cs[n]
    def coords(s): return list(s.cs.values())

def flat_(shape, i, j): return i * shape[1] + j

@contract
class InputMap(Contract):
    """compute_input_map: exactly the unmasked inputs, in order, each with the flat number of its own cell"""
    name = 'gridbin.compute_input_map'; functions = (GB + ':GridBins.compute_input_map', GB + ':GridBins.__init__', GB + ':GridBinMap.__init__')
    weight = 3
    timeout_ms = 20000
    def setup(self, B):
        lat, lon = axis(B, 'a', 18), axis(B, 'b', 36)
        three = B.choice('three', [False, True]); alt = B.choice('alt', [False, True]); names = B.choice('names', [False, True]); twod = False if B.symbolic else B.choice('twod', [False, True])
        m = B.size('m', 0)
        a = NS(lat=lat, lon=lon, three=three, alt=alt, names=names, m=m, twod=twod, wa=B.choice('wa', [False, True]), wb=B.choice('wb', [False, True]))
        a.vlat, a.vlon = coords(B, 'vlat', lat, m), coords(B, 'vlon', lon, m)
        a.t = B.array('t', (m,), 'f8', lo=0, hi=0) if three else None
        a.data = B.array('data', (m,), 'f4')
        a.mask = B.array('mask', (m,), bool); a.altmask = B.array('altmask', (m,), bool) if alt else None
        if B.symbolic:
            a.nsel = None
        elif B.mode == 'random':
            # half of the masked inputs have coordinates that do not matter
            used = a.altmask if alt else a.mask
            junk = B.bool('junk')
            if junk:
                a.vlat = np.where(used, 1e6, a.vlat); a.vlon = np.where(used, -1e6, a.vlon)
                B.log['vlat'], B.log['vlon'] = a.vlat, a.vlon
        return a
    def stubs(self, B, a):
        if not B.symbolic: return {}
        a.calls = []
        def ci(self_, values):
            # contract of GridFieldAxis.compute_indices: one index per value, within the axis
            r = snp.fresh_array('axidx', values.shape, 'i4')
            base = r.buf.fn
            def fn(idx):
                v = base(idx)
                import z3
                sym.ctx().define(('rng', v.get_id()), lambda: z3.And(v >= 0, v < lift(self_.count)))
                return v
            r.buf.fn = fn
            a.calls.append((self_, values, r.copy()))
            return r
        return {GFL + ':GridFieldAxis.compute_indices': ci, GFL + ':GridFieldAxis.axis_coordinates': lambda s: None}
    def run(self, M, a):
        A = M(GFL).GridFieldAxis
        axes = [A(a.lat.start - .5 * a.lat.inc, a.lat.inc, a.lat.n, 'latitude', a.wa, standard_name='latitude'), A(a.lon.start - .5 * a.lon.inc, a.lon.inc, a.lon.n, 'longitude', a.wb, standard_name='longitude')]
        if a.three: axes = [A(-1.0, 1.0, 1, 'time', False, standard_name='time')] + axes
        a.axes = axes
        f = (lambda x: x.reshape(1, -1)) if a.twod else (lambda x: x)
        nm = ['TT', 'LA', 'LO'][-len(axes):] if a.names else [x.var_name for x in axes]
        cs = {n: Coord(f(v), n) for n, v in zip(nm, ([a.t] if a.three else []) + [a.vlat, a.vlon])}
        if a.names: cs['latitude'] = cs['longitude'] = None
        data = snp.SMArr(a.data, a.mask) if isinstance(a.data, snp.SArr) else np.ma.masked_array(f(a.data), mask=f(a.mask))
        a.cube = InputCube(data, cs)
        g = M(GB).GridBins(axes)
        kw = {}
        if a.alt: kw['alternative_mask'] = f(a.altmask)
        if a.names: kw['input_coordinate_names'] = nm
        return g.compute_input_map(a.cube, **kw), g
    def post(self, C, a, out):
        used = a.altmask if a.alt else a.mask
        if not C.symbolic:
            keep = [k for k in range(a.m) if not used[k]]
            if out.raises(ValueError):
                C.holds('refused_only_outside', not all(must_accept(a.lat, a.vlat[k], a.wa) and must_accept(a.lon, a.vlon[k], a.wb) for k in keep)); return
            r, g = out.value
            C.holds('kept', r.outputgrid is g and r.inputcube is a.cube)
            C.holds('exactly_unmasked', list(r.mapfrom) == keep)
            C.holds('one_cell_each', len(r.mapto) == len(keep))
            for k, i in zip(keep, r.mapto):
                C.holds('containing_cell', in_cell(a.lat, a.vlat[k], int(i) // a.lon.n, a.wa) and in_cell(a.lon, a.vlon[k], int(i) % a.lon.n, a.wb))
            return
        r, g = out.value
        C.holds('kept', r.outputgrid is g and r.inputcube is a.cube)
        cnt = r.mapfrom.shape[0]
        C.holds('one_cell_each', Eq(r.mapto.shape[0], cnt))
        C.forall('only_unmasked', (cnt,), lambda k: And(elem(r.mapfrom, k) >= 0, elem(r.mapfrom, k) < a.m, Not(elem(used, elem(r.mapfrom, k)))))
        q = snp.compress_of(~used)
        C.forall('every_unmasked', (a.m,), lambda i: Implies(Not(elem(used, i)), And(q.rank(lift(i)) >= 0, q.rank(lift(i)) < cnt, Eq(elem(r.mapfrom, q.rank(lift(i))), i))))
        C.forall('in_order', (cnt,), lambda k: Implies(k > 0, elem(r.mapfrom, k - 1) < elem(r.mapfrom, k)))
        def cells(ax, vals):
            """the cell numbers returned for this axis, and that they were asked for the coordinates of the selected inputs"""
            c = [(v, x) for s, v, x in a.calls if s is ax]
            C.holds('assigned_once', len(c) == 1)
            C.holds('count', Eq(c[0][0].shape[0], cnt))
            C.forall('own_coordinates', (cnt,), lambda k: Eq(elem(c[0][0], k), elem(vals, elem(r.mapfrom, k))))
            return c[0][1]
        ia, ib = cells(a.axes[-2], a.vlat), cells(a.axes[-1], a.vlon)
        C.forall('row_major', (cnt,), lambda k: Eq(elem(r.mapto, k), elem(ia, k) * a.lon.n + elem(ib, k)))

@contract
class AxesRefused(Contract):
    """only two axes, or three with a single first point, are accepted"""
    name = 'gridbin.axes'; functions = (GB + ':GridBins.__init__', DIAG + ':DiagnosticGridObservationConnector.__init__')
    weight = .5
    def setup(self, B): return NS(n=B.choice('naxes', [1, 2, 3, 4]), c=B.int('count', 1, None if B.symbolic else 3), d=B.choice('diag', [False, True]))
    def stubs(self, B, a): return {GFL + ':GridFieldAxis.axis_coordinates': lambda s: None}
    def run(self, M, a):
        axes = [M(GFL).GridFieldAxis(0.0, 1.0, a.c if k == 0 else 4, 'x%d' % k, False) for k in range(a.n)]
        if a.d:
            src = NS(observation_location_lookup=lambda: np.array([[1.0, 2.0], [1.0, 2.0]]))
            if a.n == 2 and not isinstance(a.c, int): axes[0].count = 4
            if a.n == 2: axes[0].count = 4
            return M(DIAG).DiagnosticGridObservationConnector(axes, src)
        return M(GB).GridBins(axes)
    def post(self, C, a, out):
        ok = Or(a.n == 2, And(a.n == 3, Eq(a.c, 1)))
        if out.raises(ValueError): C.holds('refused_only_bad', Not(ok))
        else:
            out.value; C.holds('bad_refused', ok)

@contract
class ConnectorIndices(Contract):
    """the diagnostic grid's cell of every location is the one containing its latitude (row 0) and longitude (row 1)"""
    name = 'diagnosticgrid.location_cells'; functions = (DIAG + ':DiagnosticGridObservationConnector.__init__',)
    weight = 2
    def setup(self, B):
        lat, lon = axis(B, 'a', 18), axis(B, 'b', 36)
        m = B.size('m', 0)
        a = NS(lat=lat, lon=lon, m=m, wa=B.choice('wa', [False, True]), wb=B.choice('wb', [False, True]), three=B.choice('three', [False, True]))
        if B.symbolic: a.ia, a.ib = B.array('ia', (m,), 'i4', lo=0, hi=lat.n - 1), B.array('ib', (m,), 'i4', lo=0, hi=lon.n - 1)
        a.vlat, a.vlon = coords(B, 'vlat', lat, m), coords(B, 'vlon', lon, m)
        return a
    def stubs(self, B, a):
        if not B.symbolic: return {}
        a.calls = []
        def ci(self_, values):
            if self_ is a.axes[-2]: a.calls.append((0, values)); return a.ia.copy()
            if self_ is a.axes[-1]: a.calls.append((1, values)); return a.ib.copy()
            raise sym.OutOfSubset('other axis')
        return {GFL + ':GridFieldAxis.compute_indices': ci}
    def run(self, M, a):
        A = M(GFL).GridFieldAxis
        a.axes = [A(a.lat.start - .5 * a.lat.inc, a.lat.inc, a.lat.n, 'latitude', a.wa), A(a.lon.start - .5 * a.lon.inc, a.lon.inc, a.lon.n, 'longitude', a.wb)]
        if a.three: a.axes = [A(0.0, 1.0, 1, 'time', False)] + a.axes
        if isinstance(a.vlat, snp.SArr):
            vl, vo = a.vlat, a.vlon
            import z3
            lookup = snp.from_fn((2, a.m), lambda idx: z3.If(idx[0] == 0, vl.at((idx[1],)), vo.at((idx[1],))), 'r', np.float64)
        else: lookup = np.vstack([a.vlat, a.vlon])
        return M(DIAG).DiagnosticGridObservationConnector(a.axes, NS(observation_location_lookup=lambda: lookup)).grid_indices_for_location_ids
    def post(self, C, a, out):
        if not C.symbolic: return flat_post(C, a, out, lambda o: o)
        r = out.value
        C.holds('both_axes', sorted(k for k, _ in a.calls) == [0, 1])
        for k, v in a.calls: C.forall('own_coordinates', (a.m,), lambda i: Eq(elem(v, i), elem(a.vlon if k else a.vlat, i)))
        C.forall('row_major', (a.m,), lambda i: Eq(elem(r, i), elem(a.ia, i) * a.lon.n + elem(a.ib, i)))

@contract
class GlobalAxes(Contract):
    """the global product axes: quarter-degree cells from 90S and 180W, every coordinate of the globe is in exactly one cell"""
    name = 'globalfield.axes'; functions = (GLOB + ':GlobalFieldAxes2D.__init__', GLOB + ':GlobalFieldAxes2DWithTime.__init__', GLOB + ':GlobalFieldAxes2D.aslist', GLOB + ':GlobalFieldAxes2DWithTime.aslist')
    def setup(self, B): return NS(lat=B.real('lat', -90, 89.9375, gen=lambda r: r.randint(-90 * 16, 90 * 16 - 1) / 16.0), lon=B.real('lon', -180, 179.9375, gen=lambda r: r.randint(-180 * 16, 180 * 16 - 1) / 16.0), t=B.int('t', 0, 80000), withtime=B.choice('withtime', [False, True]))
    def run(self, M, a):
        G = M(GLOB)
        l = (G.GlobalFieldAxes2DWithTime(a.t) if a.withtime else G.GlobalFieldAxes2D()).aslist()
        arr = (lambda v: snp.array([v])) if snp.active() else (lambda v: np.array([v]))
        return l, [x.compute_indices(arr(v)) for x, v in zip(l, ([a.t] if a.withtime else []) + [a.lat, a.lon])]
    def post(self, C, a, out):
        l, ix = out.value
        C.holds('axes', [x.var_name for x in l] == (['time'] if a.withtime else []) + ['latitude', 'longitude'])
        C.holds('shape', [x.count for x in l] == ([1] if a.withtime else []) + [720, 1440])
        la, lo = elem(ix[-2], 0), elem(ix[-1], 0)
        C.holds('latitude_cell', And(la >= 0, la < 720, -90 + la * .25 <= a.lat, a.lat < -90 + (la + 1) * .25))
        C.holds('longitude_cell', And(lo >= 0, lo < 1440, -180 + lo * .25 <= a.lon, a.lon < -180 + (lo + 1) * .25))
        if a.withtime: C.holds('time_cell', Eq(elem(ix[0], 0), 0))

@contract
class Fields(Contract):
    """get_or_create_field: a field of the grid's shape, filled and fully masked the first time, the same field afterwards"""
    name = 'gridfieldlist.fields'; functions = (GFL + ':GridFieldList.get_or_create_field', GFL + ':GridFieldList.create_field', GFL + ':GridFieldList.get_field', GB + ':GridBins.get_field', GB + ':GridBinMap.get_input_array')
    prove = False; weight = .5
    assumptions = ('iris cubes are external: field creation and lookup are checked by bounded concrete runs',)
    def setup(self, B):
        return NS(lat=axis(B, 'a', 5), lon=axis(B, 'b', 6), usemask=B.bool('usemask'), init=B.choice('init', [0, -1, 7]), dt=B.choice('dt', ['f4', 'f8', 'i4']), bins=B.bool('bins'), masked=B.bool('masked'))
    def run(self, M, a):
        G, Bn = M(GFL), M(GB)
        from iris.cube import Cube
        from iris.coords import AuxCoord
        axes = [G.GridFieldAxis(x.start - .5 * x.inc, x.inc, x.n, n, False, standard_name=n) for x, n in ((a.lat, 'latitude'), (a.lon, 'longitude'))]
        # keep the latitudes legal for iris
        axes[0].zeroth, axes[0].step = -10.0, 1.0
        axes[1].zeroth, axes[1].step = -10.0, 1.0
        g = (Bn.GridBins if a.bins else G.GridFieldList)(axes)
        D = G.GridFieldDescriptor
        a.f1 = g.get_or_create_field(D('one', dtype=np.dtype(a.dt), usemask=a.usemask), a.init)
        a.first = (np.ma.getdata(a.f1.data).copy(), np.ma.getmaskarray(a.f1.data).copy(), np.ma.isMaskedArray(a.f1.data))
        a.f2 = g.get_or_create_field(D('two', dtype=np.dtype(a.dt)), 3)
        a.again = g.get_or_create_field(D('one', dtype=np.dtype(a.dt), usemask=a.usemask), 99)
        a.g = g
        d = np.arange(6.0).reshape(2, 3)
        cube = Cube(np.ma.masked_array(d, mask=d > 3) if a.masked else d, var_name='main', aux_coords_and_dims=[(AuxCoord(d * 10, var_name='aux'), (0, 1)), (AuxCoord(d * 7, var_name='aux2'), (0, 1))])
        m = Bn.GridBinMap(g, cube, None, None)
        a.in1, a.in2 = m.get_input_array(D('main')), m.get_input_array(D('aux2'))
        try: m.get_input_array(D('other')); a.missing = None
        except ValueError: a.missing = True
    def post(self, C, a, out):
        out.value
        d, m, ism = a.first
        C.holds('shape', d.shape == (a.lat.n, a.lon.n) and d.dtype == np.dtype(a.dt))
        C.holds('initial', bool((d == a.init).all()) and ism == a.usemask and bool(m.all() if a.usemask else not m.any()))
        C.holds('same_field', a.again is a.f1 and a.f2 is not a.f1 and len(a.g) == 2)
        C.holds('lookup', a.g.get_field('one') is a.f1 and a.g.get_field('two') is a.f2 and a.g.get_field('three') is None)
        x = np.arange(6.0).reshape(2, 3)
        C.holds('inputs', not np.ma.isMaskedArray(a.in1) and np.array_equal(a.in1, x) and np.array_equal(a.in2, x * 7) and a.missing is True)
