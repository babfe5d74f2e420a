"""P08 - gridded satellite statistics equal the statistics of the cell's observations"""
import numpy as np
from .. import sym, snp
from ..contract import Contract, NS, Reject
from ..load import Inv
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift, ToReal
from .common import contract_list, elem, Only
from . import p07

CONTRACTS, contract = contract_list()
AGG = 'eustace.satgrid.aggregate'
AG = 'eustace.satgrid.aggregate_grid'
FAG = 'eustace.satgrid.file_aggregate_grid'
SF = 'eustace.satgrid.satellite_file'
OP = 'eustace.satgrid_iris.gridbin.operation.'
PIPE = 'eustace.satgrid_iris.pipeline'
SAT = 'eustace.satgrid_iris.satellite'
GFL, GB = p07.GFL, p07.GB
ASSUMPTIONS = ['float32/float64 accumulation is treated as exact real arithmetic in the proofs; the bounded search uses values whose sums are exact in float32, or a relative tolerance of 1e-4',
               'bin index arrays are assumed to hold valid cell numbers (P07), arrays passed to the C functions are contiguous and of the element type the C code declares (checked by the executor)']
PRELOAD = (AGG, OP + 'count', OP + 'sumcountmaxmin', OP + 'sumsq', OP + 'sumsqdev', PIPE, FAG)
F4, I4 = np.float32, np.int32

def close(a, b): return abs(float(a) - float(b)) <= 1e-4 * max(1.0, abs(float(b)))
def exact32(r): return r.randint(-400, 400) / 4.0

class Accumulate(Contract):
    """running totals: after any prefix of the observations each cell holds its initial value combined with exactly its own observations"""
    weight = 2
    func = None
    twod = True
    def setup(self, B):
        ncell = B.size('cells', 1); n = B.size('n', 0, 60)
        a = NS(cells=ncell, n=n)
        a.idx = B.array('idx', (n,), I4, lo=0, hi=ncell - 1)
        a.val = B.array('val', (n,), F4, gen=exact32) if not B.symbolic else B.array('val', (n,), F4)
        a.k = B.real('k', gen=exact32)
        mk = lambda nm, dt: B.array(nm, (ncell,), dt) if B.symbolic or dt is I4 else B.array(nm, (ncell,), dt, gen=exact32)
        a.bins = {nm: mk(nm, dt) for nm, dt in self.outputs}
        a.mean = mk('mean', F4)
        a.frm = None
        if self.mapped:
            m = B.size('m', 1)
            a.m = m
            a.src = B.array('src', (m,), F4) if B.symbolic else B.array('src', (m,), F4, gen=exact32)
            a.frm = B.array('frm', (n,), I4, lo=0, hi=m - 1)
        a.init = {nm: v.copy() for nm, v in a.bins.items()}
        steps = self.steps(a)
        def mkfold(nm, f):
            ini, s = a.init[nm], steps[nm]
            sort = 'i' if dict(self.outputs)[nm] is I4 else 'r'
            return B.fold(nm, lambda c: elem(ini, c), lambda k, v, c: If(Eq(elem(a.idx, k), c), s(v, k, c), v) if isinstance(k, sym.Sym) or isinstance(c, sym.Sym) else (s(v, k, c) if elem(a.idx, k) == c else v), sort, 1)
        a.fold = {nm: mkfold(nm, None) for nm, _ in self.outputs}
        return a
    mapped = False
    def x(self, a, k): return elem(a.src, elem(a.frm, k)) if self.mapped else elem(a.val, k)
    def get_invariants(self, B, a):
        def inv(v): return Inv(arrays=[(a.bins[nm], (lambda nm: lambda c: a.fold[nm](v.k, c))(nm)) for nm, _ in self.outputs])
        return {'*': inv}
    def post(self, C, a, out):
        out.value
        for nm, _ in self.outputs:
            C.forall(nm, (a.cells,), lambda c: Eq(elem(a.bins[nm], c), a.fold[nm](a.n, c)) if C.symbolic else close(elem(a.bins[nm], c), a.fold[nm](a.n, c)))

add = lambda f: (lambda v, k, c: v + f(k, c))
def lo_(f): return lambda v, k, c: If(f(k, c) < v, f(k, c), v)
def hi_(f): return lambda v, k, c: If(f(k, c) > v, f(k, c), v)

@contract
class CSum(Accumulate):
    name = 'aggregate.sum'; functions = (AGG + ':aggregate_sum',); outputs = (('bins', F4),)
    def steps(self, a): return dict(bins=add(lambda k, c: self.x(a, k)))
    def run(self, M, a): return M(AGG).aggregate_sum(a.bins['bins'], a.val, a.idx)

@contract
class CConstant(Accumulate):
    name = 'aggregate.constant'; functions = (AGG + ':aggregate_constant',); outputs = (('bins', F4),)
    def steps(self, a): return dict(bins=add(lambda k, c: a.k))
    def run(self, M, a): return M(AGG).aggregate_constant(a.bins['bins'], a.k, a.idx)

@contract
class CCount(Accumulate):
    name = 'aggregate.count'; functions = (AGG + ':aggregate_count',); outputs = (('bins', I4),)
    def steps(self, a): return dict(bins=add(lambda k, c: 1))
    def run(self, M, a): return M(AGG).aggregate_count(a.bins['bins'], a.idx)

@contract
class CDevSq(Accumulate):
    name = 'aggregate.sum_dev_sq'; functions = (AGG + ':aggregate_sum_dev_sq',); outputs = (('bins', F4),)
    def steps(self, a): return dict(bins=add(lambda k, c: (self.x(a, k) - elem(a.mean, c)) * (self.x(a, k) - elem(a.mean, c))))
    def run(self, M, a): return M(AGG).aggregate_sum_dev_sq(a.bins['bins'], a.mean, a.val, a.idx)

@contract
class CStats(Accumulate):
    name = 'aggregate.count_sum_min_max'; functions = (AGG + ':aggregate_count_sum_min_max',); outputs = (('cnt', I4), ('sum', F4), ('mn', F4), ('mx', F4))
    def steps(self, a):
        f = lambda k, c: self.x(a, k)
        return dict(cnt=add(lambda k, c: 1), sum=add(f), mn=lo_(f), mx=hi_(f))
    def run(self, M, a): return M(AGG).aggregate_count_sum_min_max(a.bins['cnt'], a.bins['sum'], a.bins['mn'], a.bins['mx'], a.val, a.idx)

class Operate(Accumulate): mapped = True

@contract
class OpCount(Operate):
    name = 'operation.count'; functions = (OP + 'count:GridBinOperationCount.operate', OP + 'count:GridBinOperationCount.__init__'); outputs = (('count', I4),)
    def steps(self, a): return dict(count=add(lambda k, c: 1))
    def run(self, M, a): return M(OP + 'count').GridBinOperationCount().operate(a.frm, a.idx, count=a.bins['count'], inputvalue=a.src)

@contract
class OpStats(Operate):
    name = 'operation.sumcountmaxmin'; functions = (OP + 'sumcountmaxmin:GridBinOperationSumCountMaxMin.operate', OP + 'sumcountmaxmin:GridBinOperationSumCountMaxMin.__init__')
    outputs = (('total', F4), ('count', I4), ('maximum', F4), ('minimum', F4))
    def steps(self, a):
        f = lambda k, c: self.x(a, k)
        return dict(count=add(lambda k, c: 1), total=add(f), minimum=lo_(f), maximum=hi_(f))
    def run(self, M, a): return M(OP + 'sumcountmaxmin').GridBinOperationSumCountMaxMin().operate(a.frm, a.idx, inputvalue=a.src, **a.bins)

@contract
class OpSumSq(Operate):
    name = 'operation.sumsq'; functions = (OP + 'sumsq:GridBinOperationSumSq.operate',); outputs = (('sumsq', F4),)
    def steps(self, a): return dict(sumsq=add(lambda k, c: self.x(a, k) * self.x(a, k)))
    def run(self, M, a): return M(OP + 'sumsq').GridBinOperationSumSq().operate(a.frm, a.idx, inputvalue=a.src, **a.bins)

@contract
class OpSumConstSq(Operate):
    name = 'operation.sumconstsq'; functions = (OP + 'sumsq:GridBinOperationSumConstSq.operate',); outputs = (('sumsq', F4),)
    def steps(self, a): return dict(sumsq=add(lambda k, c: elem(a.src, 0) * elem(a.src, 0)))
    def run(self, M, a): return M(OP + 'sumsq').GridBinOperationSumConstSq().operate(a.frm, a.idx, singlevalue=a.src, **a.bins)

@contract
class OpSumSqDev(Operate):
    name = 'operation.sumsqdev'; functions = (OP + 'sumsqdev:GridBinOperationSumSqDev.operate',); outputs = (('sumsqdev', F4),)
    def steps(self, a): return dict(sumsqdev=add(lambda k, c: (self.x(a, k) - elem(a.mean, c)) * (self.x(a, k) - elem(a.mean, c))))
    def run(self, M, a): return M(OP + 'sumsqdev').GridBinOperationSumSqDev().operate(a.frm, a.idx, inputvalue=a.src, existingmean=a.mean, **a.bins)

@contract
class GridAccumulate(Accumulate):
    """AggregateGridCountSumMinMax.aggregate_at_indices: every total of the grid is updated once with its own quantity"""
    name = 'aggregate_grid.aggregate_at_indices'; functions = (AG + ':AggregateGridCountSumMinMax.aggregate_at_indices', AG + ':AggregateGridCount.aggregate_at_indices', AG + ':AggregateGridSumDevSq.aggregate_at_indices')
    outputs = (('count', I4), ('values_sum', F4), ('values_sum_sq', F4), ('values_min', F4), ('values_max', F4), ('uncertainty_random_sum_sq', F4), ('uncertainty_local_atm_sum_sq', F4),
               ('uncertainty_local_sfc_sum_sq', F4), ('uncertainty_systematic_sum_sq', F4), ('total', I4), ('sum_devsq', F4))
    extra = ('ran', 'atm', 'sfc')
    weight = 1.5
    def setup(self, B):
        self.B = B
        return Accumulate.setup(self, B)
    def steps(self, a):
        for nm in self.extra: setattr(a, nm, self.B.array(nm, (a.n,), F4) if self.B.symbolic else self.B.array(nm, (a.n,), F4, gen=lambda r: r.randint(0, 12) / 4.0))
        f = lambda k, c: elem(a.val, k)
        sq = lambda arr: add(lambda k, c: elem(arr, k) * elem(arr, k))
        return dict(count=add(lambda k, c: 1), values_sum=add(f), values_sum_sq=sq(a.val), values_min=lo_(f), values_max=hi_(f), uncertainty_random_sum_sq=sq(a.ran), uncertainty_local_atm_sum_sq=sq(a.atm),
                    uncertainty_local_sfc_sum_sq=sq(a.sfc), uncertainty_systematic_sum_sq=add(lambda k, c: a.k * a.k), total=add(lambda k, c: 1), sum_devsq=add(lambda k, c: (f(k, c) - elem(a.mean, c)) * (f(k, c) - elem(a.mean, c))))
    def get_invariants(self, B, a):
        def inv(v):
            bufs = [x.arr.buf if hasattr(x, 'arr') and hasattr(x.arr, 'buf') else getattr(x, 'buf', None) for x in v.entry.values()]
            return Inv(arrays=[(a.bins[nm], (lambda nm: lambda c: a.fold[nm](v.k, c))(nm)) for nm, _ in self.outputs if any(b is a.bins[nm].buf for b in bufs)])
        return {'*': inv}
    def run(self, M, a):
        G = M(AG)
        d = (a.cells,) if isinstance(a.idx, snp.SArr) else (a.cells, 1)
        g, o, v = G.AggregateGridCountSumMinMax(d), G.AggregateGridCount(d), G.AggregateGridSumDevSq(d)
        sh = (lambda x: x) if isinstance(a.idx, snp.SArr) else (lambda x: x.reshape(d))
        for nm, _ in self.outputs:
            t, at = {'total': (o, 'count'), 'sum_devsq': (v, 'sum_devsq')}.get(nm, (g, nm))
            if not hasattr(t, at): raise AttributeError(at)
            setattr(t, at, sh(a.bins[nm]))
        g.aggregate_at_indices(a.idx, a.val, a.ran, a.atm, a.sfc, a.k)
        o.aggregate_at_indices(a.idx)
        v.aggregate_at_indices(a.mean, a.idx, a.val)
        for nm, _ in self.outputs:
            t, at = {'total': (o, 'count'), 'sum_devsq': (v, 'sum_devsq')}.get(nm, (g, nm))
            a.bins[nm] = getattr(t, at).ravel()

# ------------------------------------------------------------------ the operation runner

FIELD, INPUT = 'field', 'input'

@contract
class RunOperation(Contract):
    """GridBinOperation.run: inputs and outputs reach operate() as flat arrays of the right fields, exactly the cells
    mapped to become valid, other cells stay as they were, and nothing runs with a missing descriptor"""
    name = 'operation.run'; functions = (OP + 'operation:GridBinOperation.run', OP + 'operation:GridBinOperation.set_output_descriptor', OP + 'operation:GridBinOperation.set_input_descriptor', OP + 'operation:GridBinOperation.__init__')
    weight = 2
    def setup(self, B):
        h, w, n = B.size('h', 1, None if B.symbolic else 4), B.size('w', 1, None if B.symbolic else 4), B.size('n', 0)
        a = NS(h=h, w=w, n=n, missing=B.choice('missing', [None, 'x', 'out', 'plain']), ini=B.real('ini', gen=exact32), log=[])
        if B.symbolic: B.assume(h * w >= 1)
        a.mapto = B.array('mapto', (n,), I4, lo=0, hi=h * w - 1); a.mapfrom = B.array('mapfrom', (n,), I4, lo=0, hi=3)
        a.data, a.mask, a.plain = B.array('data', (h, w), F4), B.array('mask', (h, w), bool), B.array('plain', (h, w), I4)
        a.inp = B.array('inp', (2, 3), F4)
        a.mask0 = a.mask.copy()
        return a
    def run(self, M, a):
        O = M(OP + 'operation')
        field = snp.SMArr(a.data, a.mask) if isinstance(a.data, snp.SArr) else np.ma.masked_array(a.data, mask=a.mask, copy=False)
        class Sub(O.GridBinOperation):
            def operate(s, mapfrom, mapto, **k): a.log.append((mapfrom, mapto, k))
        D = lambda n: NS(var_name=n)
        class Grid:
            def get_or_create_field(s, d, initial):
                a.log.append((FIELD, d.var_name, initial))
                return NS(data=field if d.var_name == 'OUT' else a.plain)
        class Map:
            outputgrid, mapfrom, mapto = Grid(), a.mapfrom, a.mapto
            def get_input_array(s, d): a.log.append((INPUT, d.var_name)); return a.inp
        op = Sub(outputids=['out', 'plain'], inputids=['x'])
        if a.missing != 'out': op.set_output_descriptor('out', D('OUT'), a.ini)
        if a.missing != 'plain': op.set_output_descriptor('plain', D('PLAIN'))
        if a.missing != 'x': op.set_input_descriptor('x', D('X'))
        for bad in (lambda: op.set_output_descriptor('nope', D('X')), lambda: op.set_input_descriptor('out', D('X')), lambda: op.set_input_descriptor('x', 'notadescriptor')):
            try: bad(); a.log.append('accepted')
            except (ValueError, TypeError): pass
        a.field = field
        op.run(Map())
    def post(self, C, a, out):
        C.holds('identifiers_checked', 'accepted' not in a.log)
        ran = [x for x in a.log if isinstance(x, tuple) and isinstance(x[-1], dict)]
        if a.missing is not None:
            C.holds('missing_refused', out.raises(ValueError) and not ran); return
        out.value
        C.holds('ran_once', len(ran) == 1)
        f, t, k = ran[0]
        C.holds('map', f is a.mapfrom and t is a.mapto and sorted(k) == ['out', 'plain', 'x'])
        C.holds('fields', sorted(str(x[1]) for x in a.log if x[0] is FIELD) == ['OUT', 'PLAIN'] and [x[1] for x in a.log if x[0] is INPUT] == ['X'])
        for x in a.log:
            if x[0] is FIELD: C.holds('initial', Eq(x[2], a.ini if x[1] == 'OUT' else 0))
        C.forall('input', (6,), lambda i: Eq(elem(k['x'], i), elem(a.inp, i // 3, i % 3)))
        fl = lambda i, j: i * a.w + j
        if C.symbolic:
            C.forall('output', (a.h, a.w), lambda i, j: And(Eq(elem(k['out'], fl(i, j)), elem(a.data, i, j)), Eq(elem(k['plain'], fl(i, j)), elem(a.plain, i, j))))
            C.holds('writes_through', k['out'].buf is a.data.buf and k['plain'].buf is a.plain.buf)
        else:
            C.holds('writes_through', np.shares_memory(k['out'], a.data) and np.shares_memory(k['plain'], a.plain) and np.array_equal(k['out'], a.data.ravel()) and np.array_equal(k['plain'], a.plain.ravel()))
        m = a.field.mask
        hit = (lambda c: exists(a.n, lambda q: Eq(elem(a.mapto, q), c))) if C.symbolic else (lambda c: any(a.mapto == c))
        C.forall('validity', (a.h, a.w), lambda i, j: Eq(elem(m, i, j), And(elem(a.mask0, i, j), Not(hit(fl(i, j))))) if C.symbolic else bool(m[i, j]) == (bool(a.mask0[i, j]) and not hit(fl(i, j))))

def exists(n, fn):
    import z3
    q = z3.Int(sym.ctx().name('ex'))
    return wrapz(z3.Exists([q], z3.And(q >= 0, q < lift(n), sym.zbool(fn(wrapz(q))))))

# ------------------------------------------------------------------ derived fields

def sqrt_is(C, x, y):
    """x = sqrt(y)"""
    if C.symbolic: return And(x >= 0, Eq(x * x, y))
    return close(x * x, y) and x >= 0

FIELDS = ['tsmean', 'tsmin', 'tsmax', 'tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_sys']
ACC = ['values_sum', 'values_sum_sq', 'values_min', 'values_max', 'uncertainty_random_sum_sq', 'uncertainty_local_atm_sum_sq', 'uncertainty_local_sfc_sum_sq', 'uncertainty_systematic_sum_sq']
@contract
class ComputeFields(Contract):
    """mean, extremes and propagated uncertainties of every cell from its totals; cells without observations flagged invalid with count zero"""
    name = 'aggregate_grid.compute_fields'; functions = (AG + ':AggregateGridCountSumMinMax.compute_fields', AG + ':AggregateGridCountSumMinMax.__init__')
    weight = 2; timeout_ms = 20000
    def setup(self, B):
        h, w = B.size('h', 1), B.size('w', 1)
        a = NS(h=h, w=w, flag=B.real('flag', gen=lambda r: -1.0), cnt=B.array('cnt', (h, w), I4, lo=0, hi=None if B.symbolic else 4))
        for n in ACC: setattr(a, n, B.array(n, (h, w), F4, lo=0) if 'sq' in n else B.array(n, (h, w), F4))
        return a
    def run(self, M, a):
        g = M(AG).AggregateGridCountSumMinMax((a.h, a.w))
        a.fresh = g.__dict__.copy()
        g.count = a.cnt
        for n in ACC:
            if not hasattr(g, n): raise AttributeError(n)
            setattr(g, n, getattr(a, n))
        return g.compute_fields(a.flag)
    def post(self, C, a, out):
        f = out.value
        C.holds('names', sorted(f) == sorted(FIELDS + ['ts_number_of_observations']))
        for n in FIELDS + ['ts_number_of_observations']: C.holds('shape', And(Eq(f[n].shape[0], a.h), Eq(f[n].shape[1], a.w)))
        hw = (a.h, a.w)
        empty = lambda i, j: Eq(elem(a.cnt, i, j), 0)
        if not C.symbolic: empty = lambda i, j: a.cnt[i, j] == 0
        cnt = lambda i, j: elem(a.cnt, i, j)
        C.forall('count', hw, lambda i, j: Eq(elem(f['ts_number_of_observations'], i, j), cnt(i, j)))
        for n in FIELDS: C.forall(n + '.empty', hw, lambda i, j: Implies(empty(i, j), Eq(elem(f[n], i, j), a.flag)))
        eq = (lambda x, y: Eq(x, y)) if C.symbolic else close
        def full(name, fn): C.forall(name, hw, (lambda i, j: Implies(Not(empty(i, j)), fn(i, j))) if C.symbolic else (lambda i, j: empty(i, j) or fn(i, j)))
        full('mean', lambda i, j: eq(elem(f['tsmean'], i, j) * cnt(i, j), elem(a.values_sum, i, j)))
        full('min', lambda i, j: Eq(elem(f['tsmin'], i, j), elem(a.values_min, i, j)))
        full('max', lambda i, j: Eq(elem(f['tsmax'], i, j), elem(a.values_max, i, j)))
        # random: root sum of squares over count; the others: root mean square
        full('unc_ran', lambda i, j: And(elem(f['tsmean_unc_ran'], i, j) >= 0, eq(elem(f['tsmean_unc_ran'], i, j) * elem(f['tsmean_unc_ran'], i, j) * cnt(i, j) * cnt(i, j), elem(a.uncertainty_random_sum_sq, i, j))))
        for n, s in (('tsmean_unc_loc_atm', 'uncertainty_local_atm_sum_sq'), ('tsmean_unc_loc_sfc', 'uncertainty_local_sfc_sum_sq'), ('tsmean_unc_sys', 'uncertainty_systematic_sum_sq')):
            full(n, lambda i, j: And(elem(f[n], i, j) >= 0, eq(elem(f[n], i, j) * elem(f[n], i, j) * cnt(i, j), elem(getattr(a, s), i, j))))
        fr = a.fresh
        C.forall('starts_empty', hw, lambda i, j: And(Eq(elem(fr['count'], i, j), 0), *[Eq(elem(fr[n], i, j), 0) for n in ACC if 'sum' in n]))
        C.forall('starts_outside_range', hw, lambda i, j: And(elem(fr['values_min'], i, j) >= 1e30, elem(fr['values_max'], i, j) <= -1e30))

@contract
class SecondOrder(Contract):
    """variance (n-1) and sampling uncertainty of cells with more than one observation, others flagged invalid"""
    name = 'file_aggregate.second_order'; functions = (FAG + ':SatelliteFileAggregator.compute_fields_second_order',)
    weight = 2; timeout_ms = 20000
    def setup(self, B):
        h, w = B.size('h', 1), B.size('w', 1)
        a = NS(h=h, w=w, cnt=B.array('cnt', (h, w), I4, lo=0, hi=None if B.symbolic else 4), extra=B.array('extra', (h, w), I4, lo=0, hi=None if B.symbolic else 4), dev=B.array('dev', (h, w), F4, lo=0))
        return a
    def run(self, M, a):
        F = M(FAG); A = M('eustace.satgrid.grid').GridAxis
        s = F.SatelliteFileAggregator(A(0.0, 1.0, a.h), A(0.0, 1.0, a.w), 'LST', 1, 1, 1, 1, 10)
        s.outputgrid.count = a.cnt; s.obsgrid.count = a.cnt + a.extra; s.devsqgrid.sum_devsq = a.dev
        return s.compute_fields_second_order()
    def post(self, C, a, out):
        f = out.value
        C.holds('names', sorted(f) == ['tsmean_unc_spl', 'tsvariance'])
        hw = (a.h, a.w)
        n = lambda i, j: elem(a.cnt, i, j)
        N = lambda i, j: elem(a.cnt, i, j) + elem(a.extra, i, j)
        v, u = (lambda i, j: elem(f['tsvariance'], i, j)), (lambda i, j: elem(f['tsmean_unc_spl'], i, j))
        eq = (lambda x, y: Eq(x, y)) if C.symbolic else close
        few = lambda i, j: n(i, j) <= 1
        C.forall('too_few_flagged', hw, lambda i, j: Implies(few(i, j), And(Eq(v(i, j), -1.0), Eq(u(i, j), -1.0))))
        if C.symbolic:
            C.forall('variance', hw, lambda i, j: Implies(Not(few(i, j)), eq(v(i, j) * (n(i, j) - 1), elem(a.dev, i, j))))
            # (N-n) s / (N-1), s the standard deviation
            C.forall('sampling', hw, lambda i, j: Implies(Not(few(i, j)), And(u(i, j) >= 0, eq(u(i, j) * u(i, j) * (N(i, j) - 1) * (N(i, j) - 1) * (n(i, j) - 1), (N(i, j) - n(i, j)) * (N(i, j) - n(i, j)) * elem(a.dev, i, j)))))
        else:
            C.forall('variance', hw, lambda i, j: few(i, j) or close(v(i, j), a.dev[i, j] / float(n(i, j) - 1)))
            C.forall('sampling', hw, lambda i, j: few(i, j) or close(u(i, j), (N(i, j) - n(i, j)) * np.sqrt(a.dev[i, j] / float(n(i, j) - 1)) / float(N(i, j) - 1)))

@contract
class QcIndices(Contract):
    """pixels whose masked quality flags equal the filter, all of them, in order"""
    name = 'satellite_file.qc'; functions = (SF + ':SatelliteFile.find_qc_flag_indices',)
    weight = 2
    def setup(self, B):
        n = B.size('n', 0)
        return NS(n=n, qc=B.array('qc', (n,), np.uint16), m=B.flag16('m'), f=B.flag16('f'))
    def run(self, M, a):
        if not isinstance(a.qc, snp.SArr):
            return M(SF).SatelliteFile.find_qc_flag_indices(a.qc.reshape(1, -1), a.m, a.f & a.m)
        return M(SF).SatelliteFile.find_qc_flag_indices(a.qc, a.m, a.f)
    def post(self, C, a, out):
        r = out.value
        if not C.symbolic:
            C.holds('exactly', list(r) == [k for k in range(a.n) if int(a.qc[k]) & int(a.m) == int(a.f) & int(a.m)]); return
        ok = lambda k: Eq(elem(a.qc, k) & a.m, a.f)
        cnt = r.vf_len()
        raw = r.arr() if isinstance(r, snp.SNZ1) else r
        C.forall('only_matching', (cnt,), lambda k: And(elem(r, k) >= 0, elem(r, k) < a.n, ok(elem(r, k))))
        C.forall('in_order', (cnt - 1,), lambda k: elem(r, k) < elem(r, k + 1))
        q = snp.compress_of(snp.from_fn((a.n,), lambda ix: sym.zbool(ok(wrapz(ix[0]))), 'b'))
        C.forall('all_matching', (a.n,), lambda i: Implies(ok(i), And(q.rank(i) >= 0, q.rank(i) < cnt, Eq(wrapz(raw.at((lift(q.rank(i)),))), i))))

# ------------------------------------------------------------------ whole aggregations

def cell_stats(obs):
    """obs: list of (cell, value, ran, atm, sfc, sys) -> by cell"""
    by = {}
    for o in obs: by.setdefault(o[0], []).append(o)
    return by

def sat_case(B, maxfiles=3):
    nfiles = B.int('nfiles', 1, maxfiles)
    lat = NS(start=-2.0, inc=1.0, n=B.int('nlat', 1, 4)); lon = NS(start=-180.0, inc=.5, n=B.int('nlon', 1, 5))
    files = []
    for f in range(nfiles):
        n = B.int('n%d' % f, 1, 12)
        g = lambda ax: (lambda r: ax.start + r.randint(0, 8 * ax.n - 1) / 8.0 * ax.inc)
        files.append(NS(n=n, lat=B.array('lat%d' % f, (n,), F4, gen=g(lat)), lon=B.array('lon%d' % f, (n,), F4, gen=g(lon)),
            obs=B.array('obs%d' % f, (n,), F4, gen=lambda r: r.randint(1000, 1400) / 4.0 if r.random() < .9 else 0.0), ran=B.array('ran%d' % f, (n,), F4, gen=lambda r: r.randint(0, 12) / 4.0),
            atm=B.array('atm%d' % f, (n,), F4, gen=lambda r: r.randint(0, 12) / 4.0), sfc=B.array('sfc%d' % f, (n,), F4, gen=lambda r: r.randint(0, 12) / 4.0), sys=B.array('sys%d' % f, (1,), F4, gen=lambda r: r.randint(0, 8) / 4.0),
            qc=B.array('qc%d' % f, (n,), I4, gen=lambda r: r.choice([0, 1, 1, 3, 3, 3, 7, 5])), mask=B.array('mask%d' % f, (n,), bool), status=B.choice('status%d' % f, ['ok', 'ok', 'ok', 'missing', 'error'])))
    return NS(files=files, lat=lat, lon=lon, command=B.choice('command', [False, True]))

def expect(a, use_mask):
    """observations per cell: valid (qc&3==3) and of interest (qc&1==1)"""
    valid, total = {}, {}
    for f in a.files:
        if f.status != 'ok': continue
        for k in range(f.n):
            c = (int(np.floor((f.lat[k] - a.lat.start) / a.lat.inc)), int(np.floor((f.lon[k] - a.lon.start) / a.lon.inc)))
            if use_mask and getattr(f, 'badcoord', None) is not None and f.badcoord[k]: continue
            if f.qc[k] & 3 == 3 and not (use_mask and f.mask[k]): valid.setdefault(c, []).append((f.obs[k], f.ran[k], f.atm[k], f.sfc[k], f.sys[0]))
            if f.qc[k] & 1 == 1: total[c] = total.get(c, 0) + 1
    return valid, total

def check_cells(C, a, get, valid, total):
    """get(name, i, j) -> value or None when missing"""
    for i in range(a.lat.n):
        for j in range(a.lon.n):
            obs = valid.get((i, j), []); n = len(obs)
            C.holds('count', int(get('ts_number_of_observations', i, j)) == n)
            C.holds('total', int(get('total_number_of_observations', i, j)) == total.get((i, j), 0))
            if n == 0:
                for nm in FIELDS: C.holds('empty_is_missing', get(nm, i, j) is None)
                C.holds('empty_is_missing', get('tsvariance', i, j) is None and get('tsmean_unc_spl', i, j) is None)
                continue
            v = np.array([[float(x) for x in o] for o in obs])
            C.holds('mean', close(get('tsmean', i, j), v[:, 0].mean()))
            C.holds('min', close(get('tsmin', i, j), v[:, 0].min())); C.holds('max', close(get('tsmax', i, j), v[:, 0].max()))
            C.holds('unc_ran', close(get('tsmean_unc_ran', i, j), np.sqrt((v[:, 1] ** 2).sum()) / n))
            for c, nm in ((2, 'tsmean_unc_loc_atm'), (3, 'tsmean_unc_loc_sfc'), (4, 'tsmean_unc_sys')): C.holds(nm, close(get(nm, i, j), np.sqrt((v[:, c] ** 2).sum() / n)))
            if n > 1:
                var = ((v[:, 0] - v[:, 0].mean()) ** 2).sum() / (n - 1)
                C.holds('variance', abs(get('tsvariance', i, j) - var) <= 1e-2 * max(1, var))
                N = total.get((i, j), 0)
                if N >= n: C.holds('sampling', abs(get('tsmean_unc_spl', i, j) - (N - n) * np.sqrt(var) / (N - 1)) <= 2e-2 * max(1, var))
            else: C.holds('single_has_no_spread', get('tsvariance', i, j) is None and get('tsmean_unc_spl', i, j) is None)

class Scalar:
    """a scalar netCDF variable"""
    def __init__(self, v): self.v = v
    def __getitem__(self, k): return np.ma.masked_array(self.v)

def command_args(a):
    return NS(y0=a.lat.start, ys=a.lat.inc, yn=a.lat.n, x0=a.lon.start, xs=a.lon.inc, xn=a.lon.n, wrapcoords=False, qc_mask_obs=1, qc_filter_obs=1, qc_mask_valid=3, qc_filter_valid=3, obsname='LST', maxbinobs=10)

@contract
class SatgridEndToEnd(Contract):
    """satgrid: the fields after any sequence of files are the statistics of exactly the accepted pixels of each cell, however they were split into files"""
    name = 'satgrid.files'; functions = (FAG + ':SatelliteFileAggregator.run', FAG + ':SatelliteFileAggregator.aggregate_file', FAG + ':SatelliteFileAggregator.aggregate_file_second_order', FAG + ':SatelliteFileAggregator.compute_fields_first_order', FAG + ':SatelliteFileAggregator.__init__', FAG + ':SatelliteFileAggregator.from_command_arguments',
        AG + ':AggregateGridCountSumMinMax.aggregate_at_indices', AG + ':AggregateGridCount.aggregate_at_indices', AG + ':AggregateGridSumDevSq.aggregate_at_indices', SF + ':SatelliteFile.get_variable_at_indices', SF + ':SatelliteFile.get_indices_from_qc', SF + ':SatelliteFile.get_variable')
    prove = False; weight = 3
    assumptions = ('the file loop of satgrid is checked by bounded concrete runs of whole aggregations (up to 3 files of 12 pixels); its accumulators and field computations are proved',)
    def setup(self, B): return sat_case(B)
    def run(self, M, a):
        F = M(FAG); S = M(SF); A = M('eustace.satgrid.grid').GridAxis
        s = F.SatelliteFileAggregator(A(a.lat.start, a.lat.inc, a.lat.n), A(a.lon.start, a.lon.inc, a.lon.n), 'LST', 1, 1, 3, 3, 10)
        if a.command: s = F.SatelliteFileAggregator.from_command_arguments(command_args(a))
        class Name:
            def __init__(x, f): x.f = f
            def check_readable(x): return x.f.status != 'missing'
        class File(S.SatelliteFile):
            def __init__(x, name):
                f = name.f
                if f.status == 'error': raise IOError('broken')
                sh = lambda v: v.reshape(1, -1)
                x.handle_lst = NS(variables={'LST': sh(f.obs), 'QC': sh(f.qc), 'lat': sh(f.lat), 'lon': sh(f.lon)})
                x.handle_aux = NS(variables={'LST_unc_ran': sh(f.ran), 'LST_unc_loc_atm': sh(f.atm), 'LST_unc_loc_sfc': sh(f.sfc), 'LST_unc_sys': Scalar(f.sys[0])})
        old = F.SatelliteFile
        F.SatelliteFile = File
        try: return s.run([Name(f) for f in a.files])
        finally: F.SatelliteFile = old
    def post(self, C, a, out):
        r = out.value
        C.holds('load_log', [x.status for x in r.load] == [f.status for f in a.files])
        if not any(f.status == 'ok' for f in a.files):
            C.holds('nothing', r.fields is None); return
        valid, total = expect(a, False)
        f = r.fields
        def get(n, i, j):
            v = f[n][i, j]
            return v if n.endswith('observations') or v >= 0 else None
        check_cells(C, a, get, valid, total)
        C.holds('centres', np.allclose(f['latitude'], a.lat.start + (np.arange(a.lat.n) + .5) * a.lat.inc) and np.allclose(f['longitude'], a.lon.start + (np.arange(a.lon.n) + .5) * a.lon.inc))

@contract
class PipelineEndToEnd(Contract):
    """satgrid_iris: the same, with masked pixels and invalid coordinates excluded"""
    name = 'satgrid_iris.pipeline'; functions = (PIPE + ':GridBinPipelineSatellite.run', PIPE + ':GridBinPipelineSatellite.__init__', PIPE + ':GridBinPipelineSatellite.from_command_arguments', PIPE + ':PostProcessMean.run', PIPE + ':PostProcessRandomError.run', PIPE + ':PostProcessRMS.run', PIPE + ':PostProcessSamplingUncertainty.run',
        SAT + ':SatelliteCollection.apply_filter', SAT + ':SatelliteCollection.generate_safety_mask', SAT + ':SatelliteCollection.get_filter_from_qc_flags', SAT + ':SatelliteCollection.__init__')
    prove = False; weight = 1
    assumptions = ('iris cubes are external: the satgrid_iris pipeline is checked by bounded concrete runs of whole aggregations (up to 3 files of 12 pixels); its binning operations are proved',)
    def setup(self, B):
        a = sat_case(B)
        for k, f in enumerate(a.files):
            f.badcoord = B.array('bad%d' % k, (f.n,), bool, gen=lambda r: r.random() < .1)
            f.badlat = B.array('badlat%d' % k, (f.n,), bool)
        return a
    def run(self, M, a):
        P, S = M(PIPE), M(SAT)
        from iris.cube import Cube
        from iris.coords import AuxCoord
        A = M(GFL).GridFieldAxis
        class Group(list):
            def __init__(x, f): x.f = f
            def check_readable(x): return x.f.status != 'missing'
        def load(fields, group):
            f = group.f
            if f.status == 'error': raise IOError('broken')
            sh = lambda v: v.copy().reshape(1, -1)
            lat, lon = f.lat.copy(), f.lon.copy()
            lat[f.badcoord & f.badlat] = -32768.0; lon[f.badcoord & ~f.badlat] = -32768.0
            aux = [(AuxCoord(sh(lat), var_name='latitude', standard_name='latitude'), (0, 1)), (AuxCoord(sh(lon), var_name='longitude', standard_name='longitude'), (0, 1))]
            aux += [(AuxCoord(sh(v), var_name=n, long_name=n), (0, 1)) for v, n in ((f.qc, 'QC'), (f.ran, 'LST_unc_ran'), (f.atm, 'LST_unc_loc_atm'), (f.sfc, 'LST_unc_loc_sfc'))]
            aux += [(AuxCoord(f.sys.copy(), var_name='LST_unc_sys', long_name='LST_unc_sys'), None)]
            c = Cube(np.ma.masked_array(sh(f.obs), mask=sh(f.mask)), var_name='LST', aux_coords_and_dims=aux)
            return S.SatelliteCollection(fields, c)
        names = S.SatelliteFieldNames(primary='LST', qc='QC', coordinate_fields=['latitude', 'longitude'], uncertainty_fields=['LST_unc_ran', 'LST_unc_loc_atm', 'LST_unc_loc_sfc'], uncertainty_scalars=['LST_unc_sys'],
            output_primary='ts', output_uncertainty=['tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc'], output_uncertainty_binned_scalars=['tsmean_unc_sys'])
        p = P.GridBinPipelineSatellite(A(a.lat.start - .5 * a.lat.inc, a.lat.inc, a.lat.n, 'latitude', False, units='degrees_north', standard_name='latitude'),
            A(a.lon.start - .5 * a.lon.inc, a.lon.inc, a.lon.n, 'longitude', False, units='degrees_east', standard_name='longitude'), 1, 1, 3, 3)
        if a.command: p = P.GridBinPipelineSatellite.from_command_arguments(command_args(a))
        old = S.SatelliteCollection.__dict__['load']
        S.SatelliteCollection.load = staticmethod(load)
        import sys, os
        err, sys.stderr = sys.stderr, open(os.devnull, 'w')
        try: d = p.run(names, NS(filenames=[Group(f) for f in a.files]))
        finally:
            sys.stderr = err
            S.SatelliteCollection.load = old
        return d, p.bins
    def post(self, C, a, out):
        d, bins = out.value
        C.holds('load_log', [x.status for x in d.load] == [f.status for f in a.files])
        if not any(f.status == 'ok' for f in a.files):
            C.holds('nothing', len(bins) == 0); return
        valid, total = expect(a, True)
        F = {c.var_name: c.data for c in bins}
        C.holds('names', sorted(F) == sorted(FIELDS + ['tsvariance', 'tsmean_unc_spl', 'ts_number_of_observations', 'total_number_of_observations']))
        def get(n, i, j):
            v = F[n][i, j]
            if v is np.ma.masked or np.ma.getmaskarray(F[n])[i, j]: return None
            return v
        check_cells(C, a, get, valid, total)

@contract
class OtherAccumulators(Contract):
    """AggregateGridSum and AggregateGridArray: the same statistics from sequences of batches"""
    name = 'aggregate_grid.others'; functions = (AG + ':AggregateGridSum.aggregate_at_indices', AG + ':AggregateGridSum.get_mean', AG + ':AggregateGridArray.aggregate_at_indices', AG + ':AggregateGridArray.compute_fields')
    prove = False; weight = 1
    assumptions = ('AggregateGridSum and AggregateGridArray (not used by the production command) are checked by bounded concrete runs',)
    def setup(self, B):
        a = sat_case(B)
        for f in a.files:
            f.status = 'ok'; f.qc = np.full(f.n, 3, I4)
            f.obs = np.where(f.obs == 0, F4(270), f.obs).astype(F4)     # AggregateGridArray uses zero as 'no value'
        return a
    def run(self, M, a):
        G = M(AG); d = (a.lat.n, a.lon.n)
        s, r = G.AggregateGridSum(d), G.AggregateGridArray(d, 40)
        for f in a.files:
            ix = (np.floor((f.lat - a.lat.start) / a.lat.inc) * a.lon.n + np.floor((f.lon - a.lon.start) / a.lon.inc)).astype(I4)
            s.aggregate_at_indices(ix, f.obs)
            r.aggregate_at_indices(ix, f.obs, f.ran, f.atm, f.sfc, f.sys[0])
        return s, s.get_mean(-1.0), r.compute_fields(-1.0)
    def post(self, C, a, out):
        s, m, f = out.value
        valid, _ = expect(a, False)
        for i in range(a.lat.n):
            for j in range(a.lon.n):
                o = valid.get((i, j), []); n = len(o)
                C.holds('count', s.count[i, j] == n and f['ts_number_of_observations'][i, j] == n)
                if n == 0: C.holds('empty', m[i, j] == -1 and all(f[x][i, j] == -1 for x in FIELDS)); continue
                v = np.array([[float(x) for x in y] for y in o])
                C.holds('mean', close(m[i, j], v[:, 0].mean()) and close(f['tsmean'][i, j], v[:, 0].mean()))
                C.holds('extremes', close(f['tsmin'][i, j], v[:, 0].min()) and close(f['tsmax'][i, j], v[:, 0].max()))
                C.holds('unc', close(f['tsmean_unc_ran'][i, j], np.sqrt((v[:, 1] ** 2).sum()) / n) and all(close(f[x][i, j], np.sqrt((v[:, c] ** 2).sum() / n)) for c, x in ((2, 'tsmean_unc_loc_atm'), (3, 'tsmean_unc_loc_sfc'), (4, 'tsmean_unc_sys'))))

@contract
class LoadCollection(Contract):
    """loading: the primary field keeps its mask plus the pixels for which an auxiliary field is missing; every auxiliary field and scalar
    is attached under its own name; a masked scalar is refused when there are pixels it would apply to"""
    name = 'satellite.load'; functions = (SAT + ':SatelliteCollection.load',)
    prove = False; weight = .6
    assumptions = ('iris file loading is external: SatelliteCollection.load is checked by bounded concrete runs with the iris load functions replaced by in-memory cubes',)
    def setup(self, B):
        h, w = B.int('h', 1, 3), B.int('w', 1, 4)
        a = NS(h=h, w=w)
        for n in ('lst', 'qc', 'ran', 'atm', 'sfc', 'latitude', 'longitude'): setattr(a, n, B.array(n, (h, w), I4 if n == 'qc' else F4, lo=0, hi=7 if n == 'qc' else None))
        a.mask = B.array('mask', (h, w), bool)
        a.auxmask = {n: B.array('m' + n, (h, w), bool, gen=lambda r: r.random() < .15) for n in ('ran', 'atm', 'sfc')}
        a.hasmask = {n: B.choice('has' + n, [True, False]) for n in ('ran', 'atm', 'sfc')}
        a.sys, a.sysmasked = B.real('sys', gen=lambda r: r.randint(0, 8) / 4.0), B.choice('sysmasked', [None, False, False, True])
        return a
    def run(self, M, a):
        S = M(SAT)
        from iris.cube import Cube, CubeList
        D = {'LST': np.ma.masked_array(a.lst.copy(), mask=a.mask.copy()), 'QC': a.qc, 'latitude': a.latitude, 'longitude': a.longitude}
        for n in ('ran', 'atm', 'sfc'): D['unc_' + n] = np.ma.masked_array(getattr(a, n).copy(), mask=a.auxmask[n].copy()) if a.hasmask[n] else getattr(a, n).copy()
        D['sys'] = np.array([a.sys], F4) if a.sysmasked is None else np.ma.masked_array(np.array([a.sys], F4), mask=[a.sysmasked])
        cubes = [Cube(v, var_name=k, long_name=k) for k, v in D.items()]
        def pick(con): return CubeList([c for c in cubes if con._cube_func(c)])
        def load(files, constraints): return CubeList([c for con in constraints for c in pick(con)])
        def load_cube(f, constraint):
            r = pick(constraint)
            if len(r) != 1: raise ValueError('one cube expected')
            return r[0]
        old = S.load, S.load_cube
        S.load, S.load_cube = load, load_cube
        import sys, os
        err, sys.stderr = sys.stderr, open(os.devnull, 'w')
        f = S.SatelliteFieldNames('LST', 'QC', ['latitude', 'longitude'], ['unc_ran', 'unc_atm', 'unc_sfc'], ['sys'], 'ts', ['a', 'b', 'c'], ['d'])
        try: return S.SatelliteCollection.load(f, ['x', 'y'])
        finally:
            S.load, S.load_cube = old
            sys.stderr = err
    def post(self, C, a, out):
        m = a.mask.copy()
        for n in ('ran', 'atm', 'sfc'):
            if a.hasmask[n]: m |= a.auxmask[n]
        if a.sysmasked and not m.all():
            C.holds('masked_scalar_refused', out.raises(ValueError)); return
        r = out.value.cube
        C.holds('mask', np.array_equal(np.ma.getmaskarray(r.data), m))
        C.holds('values', np.array_equal(np.ma.getdata(r.data)[~m], a.lst[~m]))
        for n, v in (('QC', a.qc), ('unc_ran', a.ran), ('unc_atm', a.atm), ('unc_sfc', a.sfc), ('latitude', a.latitude), ('longitude', a.longitude)):
            cs = [c for c in r.coords() if c.var_name == n]
            C.holds('attached', len(cs) == 1 and np.array_equal(np.ma.getdata(cs[0].points)[~m], v[~m]))
        cs = [c for c in r.coords() if c.var_name == 'sys']
        C.holds('scalar', len(cs) == 1 and np.ma.getdata(cs[0].points).ravel()[0] == (0 if a.sysmasked else F4(a.sys)))
