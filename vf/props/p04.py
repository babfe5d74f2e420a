"""P04 - work splitting"""
import datetime
import numpy as np
import contextlib, io, sys, types
from .. import sdt, sym
from ..contract import Contract, NS, Reject
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, Only
from . import p14

CONTRACTS, contract = contract_list()
CAT = 'eumopps.catalogue.'
FMT = CAT + 'fileio.formatnetcdf'
RD = FMT + ':CatalogueReaderNetCDF.'
DT = datetime.datetime
def size(x): return x.vf_len() if hasattr(x, 'vf_len') else len(x)
def at(x, k): return x.elem(k) if hasattr(x, 'vf_len') else x[int(k)] if not isinstance(k, sym.Sym) else _pick(x, k)
def _pick(x, k):
    r = x[-1]
    for i in range(len(x) - 1): r = tuple(If(Eq(k, i), u, v) for u, v in zip(x[i], r)) if isinstance(r, tuple) else If(Eq(k, i), x[i], r)
    return r

@contract
class ThreadIndices(Contract):
    """the split over threads is a partition of 0..total-1 into at most numthreads consecutive non-empty ranges"""
    name = 'dataset.compute_checksum_thread_indices'; functions = (CAT + 'dataset:CatalogueDataSubset.compute_checksum_thread_indices',)
    weight = 3
    def setup(self, B): return NS(n=B.int('total', 0, None if B.symbolic else 400), t=B.int('threads', 1, None if B.symbolic else 70))
    def run(self, M, a): return M(CAT + 'dataset').CatalogueDataSubset.compute_checksum_thread_indices(a.n, a.t)
    def post(self, C, a, out):
        r = out.value
        m = size(r)
        C.holds('at_most_threads', And(m >= 0, m <= a.t))
        C.holds('none_only_when_empty', Implies(Eq(m, 0), Eq(a.n, 0)))
        C.forall('no_empty_part', (m,), lambda k: at(r, k)[0] < at(r, k)[1])
        C.forall('within', (m,), lambda k: And(at(r, k)[0] >= 0, at(r, k)[1] <= a.n))
        C.forall('starts_where_previous_ends', (m,), lambda k: Eq(at(r, k)[0], If(Eq(k, 0), 0, at(r, k - 1)[1]) if C.symbolic else (0 if k == 0 else at(r, k - 1)[1])))
        if C.symbolic: C.holds('ends_at_total', Implies(m > 0, Eq(at(r, m - 1)[1], a.n)) if not (isinstance(m, int) and m == 0) else Eq(a.n, 0))
        elif m: C.holds('ends_at_total', at(r, m - 1)[1] == a.n)

@contract
class ChecksumAll(Contract):
    """every file of the subset has its checksum computed exactly once, and all are done on return"""
    name = 'dataset.compute_checksum'; functions = (CAT + 'dataset:CatalogueDataSubset.compute_checksum', CAT + 'dataset:CatalogueDataSet.checksum', CAT + 'dataset:ChecksumThread.run')
    prove = False; weight = .5
    assumptions = ('compute_checksum (threads) is checked by bounded concrete runs: 0..400 files, thread limit 1..70',)
    def setup(self, B): return NS(n=B.choice('n', [0, 1, 2, 63, 64, 65, 127, 128, 129, 200, 400]) if B.r.random() < .5 else B.int('n1', 0, 300), m=B.int('m', 0, 20), t=B.int('threads', 1, 70)) if B.mode == 'random' else NS(n=B.int('n1'), m=B.int('m'), t=B.int('threads'))
    def stubs(self, B, a): return {CAT + 'dataset:CHECKSUM_NUM_THREADS': a.t}
    def run(self, M, a):
        import threading
        d = M(CAT + 'dataset')
        lock = threading.Lock()
        class F:
            def __init__(s): s.calls = []
            def compute_checksum(s, p):
                with lock: s.calls.append(p)
        a.files = [[F() for _ in range(a.n)], [F() for _ in range(a.m)]]
        d.CatalogueDataSet(path='PATH', subsets=[d.CatalogueDataSubset(matches=list(f)) for f in a.files]).checksum()
        return [[list(x.calls) for x in f] for f in a.files]
    def post(self, C, a, out):
        for f in out.value:
            for k, c in enumerate(f): C.holds('exactly_once', c == ['PATH'])

@contract
class OperationCount(Contract):
    """the number of batches advertised is the smallest that covers all operations; no operation group means none"""
    name = 'formatnetcdf.operationcount'; functions = (RD + 'operationcount',)
    weight = 3
    def setup(self, B): return NS(n=B.int('count', 0, None if B.symbolic else 3000), b=B.int('batchsize', 1, None if B.symbolic else 70), found=B.choice('found', [True, False]), default=B.choice('default', [False, True]), log=[])
    def stubs(self, B, a):
        f = NS(close=lambda: a.log.append('close'))
        def opn(p): a.log.append(('open', p)); return f
        def find(self, nc, name):
            a.log.append(('find', nc is f, name))
            return NS(getncattr=lambda k: a.n if k == 'count' else None, ncattrs=lambda: ['count'], count=a.n) if a.found else None
        return {'eumopps.netcdfobjects.netcdfobjects:nc_open_for_load': opn, RD + 'findoperation': find}
    def run(self, M, a):
        r = M(FMT).CatalogueReaderNetCDF()
        return r.operationcount('CAT', 'OP') if a.default else r.operationcount('CAT', 'OP', a.b)
    def post(self, C, a, out):
        r, n, b = out.value, (a.n if a.found else 0), (1 if a.default else a.b)
        C.holds('looks_up_this_operation', ('open', 'CAT') in a.log and ('find', True, 'OP') in a.log)
        C.holds('covers_all', r * b >= n)
        C.holds('no_more_than_needed', And(r >= 0, Implies(r > 0, (r - 1) * b < n)))

@contract
class FindOperation(Contract):
    """an operation is found by name, class or function name; an ambiguous name is refused; an unknown one gives none"""
    name = 'formatnetcdf.findoperation'; functions = (RD + 'findoperation',)
    prove = False
    def setup(self, B):
        n = B.int('n', 0, 5)
        a = NS(n=n, names=[B.choice('name%d' % i, [None, 'A', 'B', 'm.f', 'm.C']) for i in range(n)], cls=[B.choice('cls%d' % i, [None, None, 'm.C', 'A']) for i in range(n)],
               fn=[B.choice('fn%d' % i, [None, None, 'm.f', 'm.g']) for i in range(n)], q=B.choice('q', ['A', 'B', 'm.f', 'm.C', 'm.g', 'zzz']))
        return a
    def run(self, M, a):
        class G:
            def __init__(s, at, run=None): s.at, s.run = at, run; [setattr(s, k, v) for k, v in at.items()]
            def ncattrs(s): return list(s.at)
            def getncattr(s, k): return s.at[k]
            def __getitem__(s, k): return s.run
            @property
            def groups(s): return dict(runmodule=s.run)
        a.g = []
        for i in range(a.n):
            run = G({k: v for k, v in (('python_class', a.cls[i]), ('python_function', a.fn[i])) if v is not None})
            a.g.append(G({} if a.names[i] is None else dict(name=a.names[i]), run))
        nc = NS(dimensions=dict(operations=NS(size=a.n)), groups={'operations_%d' % i: g for i, g in enumerate(a.g)})
        m = M(FMT)
        suffix = m.netcdfobjects.LISTITEM_OBJECT_SUFFIX
        nc.groups = {suffix.format('operations', i): g for i, g in enumerate(a.g)}
        return m.CatalogueReaderNetCDF().findoperation(nc, a.q)
    def post(self, C, a, out):
        hits = [i for i in range(a.n) if a.q in (a.names[i], a.cls[i], a.fn[i])]
        if len(hits) > 1: C.holds('ambiguous_refused', out.raises(ValueError))
        elif not hits: C.holds('unknown_is_none', out.value is None)
        elif sum(a.q == v for v in (a.names[hits[0]], a.cls[hits[0]], a.fn[hits[0]])) == 1: C.holds('found', out.value is a.g[hits[0]])

@contract
class BatchSpec(Contract):
    """a module's batches cover its operations: cycle points 0..ceil(n/size)-1, subtasks 0..size-1"""
    name = 'jinja.BatchSpecification'
    functions = tuple(CAT + 'jinja.batches:BatchSpecification.' + m for m in ('operation_count', 'cycle_points_required', 'scheduling', 'subtask_parameters', 'subtask', 'subtask_name'))
    def setup(self, B): return NS(n=B.int('n', 0, None if B.symbolic else 4000), b=B.int('b', 1, None if B.symbolic else 400), log=[])
    def stubs(self, B, a):
        def count(self, pathname, modulename, batchsize=1):
            a.log.append((pathname, modulename, batchsize))
            if not B.symbolic: return -(-a.n // batchsize)
            r = B.int('r%d' % len(a.log), 0)
            B.assume(And(r * batchsize >= a.n, (r - 1) * batchsize < a.n)); return r
        return {RD + 'operationcount': count}
    def run(self, M, a):
        s = M(CAT + 'jinja.batches').BatchSpecification('CAT.nc', 'mod', a.b, '--opt')
        return s.operation_count(), s.cycle_points_required(), s.scheduling(), s.subtask_parameters(), s.subtask(), s.subtask_name()
    def post(self, C, a, out):
        n, cyc, sched, par, sub, nm = out.value
        C.holds('operations', Eq(n, a.n))
        C.holds('cycle_points_cover', cyc * a.b >= a.n); C.holds('cycle_points_needed', (cyc - 1) * a.b < a.n)
        C.holds('asks_for_this_module', all(l[0] == 'CAT.nc' and l[1] == 'mod' for l in a.log))
        f = lambda v: ('%s' % v) if isinstance(v, sym.Sym) else str(v)
        def same(t, *parts):
            if not C.symbolic: return t == ''.join(map(str, parts))
            return sdt.same_text(t, ''.join(p if isinstance(p, str) else format(p, '') if isinstance(p, sym.Sym) else str(p) for p in parts))
        C.holds('parameters', same(par, 'subtask_mod = 0..', a.b - 1))
        C.holds('subtask_name', nm == 'mod<subtask_mod>')
        if not C.symbolic:
            C.holds('scheduling', sched == 'R/P1/%d' % (cyc - 1))
            C.holds('subtask', '[[mod<subtask_mod>]]' in sub and 'python -m eumopps.catalogue.commandrun CAT.nc mod $CYLC_TASK_PARAM_subtask_mod --use_batch_size %d --batch $CYLC_TASK_CYCLE_POINT --opt' % a.b in sub)

@contract
class BatchCollection(Contract):
    """a suite runs cycle points 0..(largest number of batches of any module)-1"""
    name = 'jinja.BatchSpecificationCollection'
    functions = tuple(CAT + 'jinja.batches:BatchSpecificationCollection.' + m for m in ('cycle_points_required', 'initial_cycle_point', 'final_cycle_point', 'subtasks', 'subtask_parameters')) + tuple(
        CAT + 'jinja.eumopps_cylc:eumopps_' + m for m in ('cycle_points_required', 'initial_cycle_point', 'final_cycle_point', 'parameters', 'subtasks', 'module_scheduling', 'module_subtask', 'module_subtask_name'))
    prove = False
    def setup(self, B):
        k = B.int('k', 1, 4)
        return NS(n={'m%d' % i: B.int('n%d' % i, 0, 500) for i in range(k)}, b={'m%d' % i: B.int('b%d' % i, 1, 60) for i in range(k)})
    def stubs(self, B, a):
        def count(self, pathname, modulename, batchsize=1):
            if pathname != 'C_' + modulename: return -5
            return -(-a.n[modulename] // batchsize)
        return {RD + 'operationcount': count}
    def run(self, M, a):
        f = M(CAT + 'jinja.eumopps_cylc').eumopps_cylc
        specs = {m: dict(catalogue='C_' + m, batchsize=a.b[m]) for m in a.n}
        return ([f(specs, x) for x in ('cycle_points_required', 'initial_cycle_point', 'final_cycle_point', 'parameters', 'subtasks')],
                {m: [f(specs, 'module_scheduling', m), f(specs, 'module_subtask', m), f(specs, 'module_subtask_name', m)] for m in a.n})
    def post(self, C, a, out):
        (cyc, first, last, par, sub), mods = out.value
        need = {m: -(-a.n[m] // a.b[m]) for m in a.n}
        C.holds('enough_for_the_largest', cyc == max(need.values())); C.holds('from_zero', first == 0); C.holds('last', last == cyc - 1)
        C.holds('all_parameters', sorted(l.strip() for l in par.strip().split('\n')) == sorted('subtask_%s = 0..%d' % (m, a.b[m] - 1) for m in a.n))
        for m in a.n:
            C.holds('schedule_of_module', mods[m][0] == 'R/P1/%d' % (need[m] - 1))
            C.holds('subtask_of_module', mods[m][1] in sub and '--use_batch_size %d ' % a.b[m] in mods[m][1] and 'commandrun C_%s %s ' % (m, m) in mods[m][1] and mods[m][2] in mods[m][1])

@contract
class CommandRun(Contract):
    """commandrun runs exactly operation batch*size+index (or index) of the named operation, once; inconsistent arguments, an unknown operation, an index out of range or a changed toolchain run nothing"""
    name = 'commandrun.commandrun'; functions = (CAT + 'commandrun:commandrun',)
    def setup(self, B):
        a = NS(index=B.int('index', -3, 20), mode=B.choice('mode', ['plain', 'batch', 'size_only', 'batch_only']), size=B.int('size', 1, None if B.symbolic else 9), batch=B.int('batch', 0, None if B.symbolic else 9),
               n=B.int('n', 0, None if B.symbolic else 60), exists=B.choice('exists', [True, True, False]), match=B.choice('toolchain_matches', [True, False]), allow=B.choice('allow', [False, True]), just=B.choice('justlist', [False, True]), log=[])
        return a
    def stubs(self, B, a):
        class Op:
            toolchain = 'T0'; runmodule = 'MODULE'
            def current_runtime_toolchain(s): return 'T0' if a.match else 'T1'
            def resolve_single_operation(s, path, i, stamp):
                a.log.append(('resolve', path, i, stamp))
                if Or(i < 0, i >= a.n): raise IndexError('operation index out of range')
            def run(s): a.log.append(('run',)); return 'RESULT'
        def load(self, path, name):
            a.log.append(('load', path, name)); return Op() if a.exists else None
        return {RD + 'load_identifier': lambda self, p: 'ID', RD + 'load_operation': load, 'eumopps.jsonobjects.jsonobjects:save': lambda *k: None}
    def run(self, M, a):
        k = {}
        if a.mode in ('batch', 'size_only'): k['use_batch_size'] = a.size
        if a.mode in ('batch', 'batch_only'): k['batch'] = a.batch
        return M(CAT + 'commandrun').commandrun('STAMP', 'CAT', 'OP', a.index, justlist=a.just, allow_toolchain_mismatch=a.allow, **k)
    def post(self, C, a, out):
        runs = [l for l in a.log if l[0] == 'run']; res = [l for l in a.log if l[0] == 'resolve']
        if a.mode in ('size_only', 'batch_only'):
            C.holds('inconsistent_arguments_refused', out.raises(ValueError) and not runs); return
        want = a.batch * a.size + a.index if a.mode == 'batch' else a.index
        for l in res: C.holds('right_operation', And(Eq(l[2], want), l[1] == 'CAT', l[3] == 'STAMP'))
        C.holds('right_name', all(l[1:] == ('CAT', 'OP') for l in a.log if l[0] == 'load'))
        if not a.exists:
            C.holds('unknown_runs_nothing', not runs and (a.mode == 'batch' or out.raises(ValueError))); return
        C.holds('resolved_once', len(res) == 1)
        if out.raises(ValueError):
            C.holds('refused_runs_nothing', not runs)
            C.holds('refused_only_for_cause', Or(want < 0, want >= a.n, And(not a.match, not a.allow, not a.just)))
        else:
            out.value
            C.holds('in_range', And(want >= 0, want < a.n))
            C.holds('runs_once', len(runs) == (0 if a.just else 1))
            if not a.just: C.holds('toolchain', a.match or a.allow); C.holds('result', out.value == 'RESULT')

@contract
class ResolveSingle(Contract):
    """resolving one operation takes element operationindex of every parameter list, and only for an index in range and lists of the advertised length"""
    name = 'operation.resolve_single_operation'
    functions = (CAT + 'operation:Operation.resolve_single_operation', CAT + 'operation:Operation.update_runmodule_parameters', CAT + 'operation:Operation.updatewalk', CAT + 'operation:OperationResolveSingleOperation.process',
                 CAT + 'operationparameters:OperationParameterList.resolve_single_operation', CAT + 'operationparameters:OperationParameterList.count')
    def setup(self, B):
        a = NS(n=B.int('n', 0, None if B.symbolic else 8), m=B.int('m', 0, None if B.symbolic else 8), i=B.int('i', -4, None if B.symbolic else 11))
        if B.mode == 'random' and B.r.random() < .7: a.m = a.n; B.log['m'] = a.n
        a.f, a.g = B.func('f', 1, gen=lambda r, k: 100 + k), B.func('g', 1, gen=lambda r, k: 900 + k)
        return a
    def run(self, M, a):
        from ..load import SymList
        P = M(CAT + 'operationparameters')
        mk = lambda n, f: SymList(n, f) if isinstance(n, sym.Sym) else [f(k) for k in range(n)]
        run = {'python_function': 'x.y', 'p': P.OperationParameterList(mk(a.n, a.f)), 'nested': {'q': [P.OperationParameterList(mk(a.m, a.g)), 'lit']}, 'stamp': P.OperationTimeStamp()}
        op = M(CAT + 'operation').Operation(run, None, count=a.n)
        op.resolve_single_operation('CAT', a.i, 'STAMP')
        return op.runmodule
    def post(self, C, a, out):
        if out.raises(IndexError): C.holds('refused_out_of_range', Or(a.i < 0, a.i >= a.n)); return
        if out.raises(ValueError): C.holds('refused_mismatch', Not(Eq(a.n, a.m))); return
        r = out.value
        C.holds('accepted_only_in_range', And(a.i >= 0, a.i < a.n, Eq(a.n, a.m)))
        C.holds('own_element', And(Eq(r['p'], a.f(a.i)), Eq(r['nested']['q'][0], a.g(a.i))))
        C.holds('rest_kept', r['nested']['q'][1] == 'lit' and r['stamp'] == 'STAMP' and r['python_function'] == 'x.y')

@contract
class RunOne(Contract):
    """running an operation calls its own function (or its module's run) once with exactly its own parameters, and gives back what that returns"""
    name = 'operation.run'; functions = (CAT + 'operation:Operation.run', CAT + 'operation:Operation.__init__')
    def setup(self, B):
        a = NS(kind=B.choice('kind', ['function', 'module', 'neither']), keys=B.choice('keys', [(), ('time',), ('inputs', 'output'), ('a', 'functions', 'python')]), none=B.choice('none', [None, 0, 1, 2]), place=B.choice('place', ['vfpack04.work.mod', 'vfmod04']), calls=[])
        a.x = [B.int('x%d' % k, -99, 99) for k in range(3)]; a.r = B.int('r', -99, 99)
        return a
    def work(self, a, name='work'):
        class F(object):
            __module__ = 'pack'
            def __call__(s, *t, **k): a.calls.append((name, t, k)); return a.r
            def __repr__(s): return name
        return F()
    def run(self, M, a):
        O = M(CAT + 'operation').Operation
        a.params = {k: None if n == a.none else a.x[n] for n, k in enumerate(a.keys)}
        if a.kind == 'neither': return O(dict(a.params), None).run()
        if a.kind == 'module':
            class Module(object):
                def run(s): a.calls.append(('run', (), {})); return a.r
            return O(Module(), None).run()
        try:
            for n in ('vfpack04', 'vfpack04.work', 'vfpack04.work.mod', 'vfmod04'):
                m = sys.modules[n] = types.ModuleType(n)
                if not n.startswith('vfpack04') or n.endswith('mod'): m.work, m.other = self.work(a, 'work in ' + n), self.work(a, 'other')
            sys.modules['vfpack04'].work = sys.modules['vfpack04.work']; sys.modules['vfpack04.work'].mod = sys.modules['vfpack04.work.mod']
            with contextlib.redirect_stdout(io.StringIO()): return O(dict(a.params, python_function=a.place + '.work'), None).run()
        finally:
            for n in ('vfpack04', 'vfpack04.work', 'vfpack04.work.mod', 'vfmod04'): sys.modules.pop(n, None)
    def post(self, C, a, out):
        if a.kind == 'neither': C.holds('refused', out.raises(ValueError)); return
        r = out.value
        c = a.calls
        C.holds('called_once', len(c) == 1 and c[0][0] == ('run' if a.kind == 'module' else 'work in ' + a.place) and c[0][1] == ())
        if a.kind == 'function':
            C.holds('own_names', sorted(c[0][2]) == sorted(a.keys))
            C.holds('own_values', And(True, *[(c[0][2][k] is None if v is None else c[0][2][k] is not None and Eq(c[0][2][k], v)) for k, v in a.params.items()]))
        C.holds('result', Eq(r, a.r))

@contract
class MultipleCommands(Contract):
    """a batch runs its operations 0..size-1 once each in order and hands all results to the outer operation; an empty batch is refused"""
    name = 'multiplecommandsrun.multiple_commands_run'; functions = (CAT + 'multiplecommandsrun:multiple_commands_run',)
    prove = False
    def setup(self, B): return NS(size=B.int('size', 0, 12), batch=B.int('batch', 0, 5), allow=B.bool('allow'), just=B.choice('just', [False, False, True]), log=[], got=[])
    def stubs(self, B, a):
        def run(timestamp, cataloguepathname, operationname, index, use_batch_size=None, batch=None, justlist=False, allow_toolchain_mismatch=False):
            a.log.append((timestamp, cataloguepathname, operationname, index, use_batch_size, batch, justlist, allow_toolchain_mismatch)); return index * 10
        return {CAT + 'multiplecommandsrun:commandrun': Only(run)}
    def run(self, M, a):
        import sys, types
        m = types.ModuleType('vf_outer'); m.outer = a.got.append
        sys.modules['vf_outer'] = m
        try: return M(CAT + 'multiplecommandsrun').multiple_commands_run('TS', 'CAT', 'vf_outer.outer', 'IN', a.size, a.batch, a.allow, a.just)
        finally: del sys.modules['vf_outer']
    def post(self, C, a, out):
        if a.size == 0: C.holds('empty_refused', out.raises(ValueError) and not a.log); return
        out.value
        C.holds('each_once_in_order', a.log == [('TS', 'CAT', 'IN', i, a.size, a.batch, False, a.allow) for i in range(a.size)])
        if not a.just: C.holds('all_results_in_order', a.got == [[i * 10 for i in range(a.size)]])

PO = 'eustace.postprocess.operation_count'
@contract
class PostprocessCount(Contract):
    """there is one postprocessing operation per month from the start year to the end year"""
    name = 'operation_count.operation_count'; functions = (PO + ':operation_count',)
    dates_in_range = True
    def setup(self, B):
        a = NS(s=B.int('start', 1600, 2300), n=B.int('years', 1, 400)); return a
    def run(self, M, a): return M(PO).operation_count(a.s, a.s + a.n - 1)
    def post(self, C, a, out): C.holds('months', Eq(out.value, 12 * a.n))

@contract
class PostprocessDates(p14.OperationDates):
    __doc__ = p14.OperationDates.__doc__
    name = 'operation_count.operation_dates'

@contract
class PostprocessPartition(Contract):
    """the postprocessing operations of a range of years together hold every day exactly once, in order"""
    name = 'operation_count.partition'; functions = (PO + ':operation_count', PO + ':operation_dates')
    prove = False; weight = .1
    def setup(self, B): return NS(s=B.int('start', 1850, 2016), n=B.int('years', 1, 5))
    def run(self, M, a):
        m = M(PO)
        return [d for k in range(m.operation_count(a.s, a.s + a.n - 1)) for d in m.operation_dates(DT(a.s, 1, 1), k)]
    def post(self, C, a, out):
        n = (DT(a.s + a.n, 1, 1) - DT(a.s, 1, 1)).days
        C.holds('every_day_once', out.value == [DT(a.s, 1, 1) + datetime.timedelta(days=k) for k in range(n)])

PH = 'eustace.analysis.advanced_standard.examples.placeholder'
AS = 'eustace.analysis.advanced_standard.examples.step'
def ds(d): return sdt.ordinal(d) - DT(1850, 1, 1).toordinal()

@contract
class DayNumbersInYear(Contract):
    """the day numbers of a year are consecutive from its 1 January to its 31 December"""
    name = 'placeholder.day_numbers_in_year'; functions = (PH + ':day_numbers_in_year',)
    def setup(self, B): return NS(y=B.int('year', 1700, 2300), i=B.int('index', 0, 300))
    def run(self, M, a):
        D = sdt.FakeDateTime if isinstance(a.y, sym.Sym) else DT
        return M(PH).day_numbers_in_year(NS(time_at_index=lambda k: D(a.y + k, 1, 1)), a.i)
    def post(self, C, a, out):
        r = out.value; o = sdt.ordinal_ymd(a.y + a.i, 1, 1) - DT(1850, 1, 1).toordinal()
        C.holds('count', Eq(size(r), sdt.days_in_year(a.y + a.i)))
        C.forall('in_order', (size(r),), lambda k: Eq(at(r, k), o + k))

class _Annual(Contract):
    prove = False; weight = .1
    def setup(self, B):
        s = B.datetime('start', lo=DT(1840, 1, 1), hi=DT(2030, 1, 1), midnight=B.choice('m', [True, False]))
        e = s + datetime.timedelta(days=B.int('days', 0, 900), seconds=B.choice('sec', [0, 0, 3600, 86399]))
        B.log['end'] = e
        return NS(s=s, e=e)
    def run(self, M, a):
        st = M(AS).StepAnnual(a.s, a.e)
        return getattr(M(PH), self.cls)().operation_input_resolve([False] * st.count(), None, st).operation_parameters
    def post(self, C, a, out):
        r = out.value
        C.holds('one_part_per_year', len(r) == a.e.year - a.s.year + 1)
        flat = [self.day(x) for p in r for x in p]
        C.holds('every_day_exactly_once_in_order', flat == list(range(ds(a.s), ds(a.e) + 1)))
        for k, p in enumerate(r): C.holds('in_its_own_year', all((DT(1850, 1, 1) + datetime.timedelta(days=int(self.day(x)))).year == a.s.year + k for x in p))
@contract
class AnnualIndices(_Annual):
    """the days of the analysis period are split over years, each in its own year's batch, once and in order"""
    name = 'placeholder.AnalysisAnnualBatchDayIndices'; functions = (PH + ':AnalysisAnnualBatchDayIndices.operation_input_resolve',); cls = 'AnalysisAnnualBatchDayIndices'
    def day(self, x): return int(x)
@contract
class AnnualTimes(_Annual):
    """the days of the analysis period, as times, are split over years, each in its own year's batch, once and in order"""
    name = 'placeholder.AnalysisAnnualBatchDayTimes'; functions = (PH + ':AnalysisAnnualBatchDayTimes.operation_input_resolve',); cls = 'AnalysisAnnualBatchDayTimes'
    def day(self, x): return (x - DT(1850, 1, 1)).days

PRELOAD = [CAT + 'dataset', CAT + 'commandrun', CAT + 'jinja.eumopps_cylc', CAT + 'operation', PO, PH]
