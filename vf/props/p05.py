"""P05 - operations get the inputs and outputs of their own time step"""
import datetime, os, random, shutil, tempfile
import numpy as np
from .. import sdt, sym, snp, load
from ..contract import Contract, NS, Reject
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, Only
from .p04 import size, at

CONTRACTS, contract = contract_list()
CAT = 'eumopps.catalogue.'
PH, OP, PAR = CAT + 'placeholder', CAT + 'operation', CAT + 'operationparameters'
EXS = 'eustace.analysis.advanced_standard.examples.step'
DT, TD = datetime.datetime, datetime.timedelta
PRELOAD = (CAT + 'step', CAT + 'dataset', CAT + 'catalogue', CAT + 'storage', PH, OP, PAR, CAT + 'fileio.formatnetcdf', CAT + 'build')
BUDGET = dict(quick=dict(search=50), thorough=dict(search=300))
ASSUMPTIONS = ('missing-data policies are the three documented strings; a placeholder object is not shared between two parameters',
               'file names within a subset are distinct (they are paths of one directory tree)')

def seq(B, n, f): return load.SymList(n, f) if B.symbolic else [f(k) for k in range(n)]
class Kept:
    """the steps that are not skipped, in order"""
    def __init__(self, n, skip, symbolic):
        if symbolic:
            p = snp.compress_of(snp.from_fn((n,), lambda idx: sym.zbool(Not(skip(wrapz(idx[0])))), 'b'))
            self.n, self.at = p.count, lambda k: wrapz(p.sel(lift(k))[0])
        else:
            l = [i for i in range(n) if not skip(i)]
            self.n, self.at = len(l), lambda k: l[int(k)]

@contract
class Alignment(Contract):
    """after any skip requests, every parameter list and every output is restricted to the same kept steps in order, and the operation count is their number"""
    name = 'operation.resolve_operation_references'
    functions = tuple(OP + ':' + f for f in ('Operation.resolve_operation_references', 'Operation.update_runmodule_parameters', 'Operation.updatewalk', 'OperationResolveInputReferences.process', 'OperationResolveOutputReferences.process')) + (PAR + ':OperationParameterList.restrict_to_subset', PAR + ':OperationParameterList.count')
    weight = 2
    assumptions = ('resolve_operation_references: the placeholders are any objects that set skip flags of steps and return one value per step',)
    def setup(self, B):
        a = NS(n=B.size('n', 1, 9), kind=B.choice('kind', ['dict', 'class', 'nested']), s1=B.func('s1', 1, 'b', gen=lambda r, *k: r.random() < .3), s2=B.func('s2', 1, 'b', gen=lambda r, *k: r.random() < .3),
               p1=B.func('p1', 1, 'i', gen=lambda r, *k: r.randrange(-50, 50)), p2=B.func('p2', 1, 'i', gen=lambda r, *k: r.randrange(-50, 50)), o=B.func('o', 1, 'i', gen=lambda r, *k: r.randrange(-50, 50)), seen=[], log=[])
        a.symbolic, a.B = B.symbolic, B
        return a
    def stubs(self, B, a): return {OP + ':Operation.current_runtime_toolchain': lambda self: ['chain']}
    def run(self, M, a):
        ph, par, op = M(PH), M(PAR), M(OP)
        a.step = NS(count=lambda: a.n)
        a.cat = NS(datasets=[])
        class In(ph.Input):
            def __init__(s, skip, value): s.skip, s.value = skip, value
            def operation_input_resolve(s, rs, cat, step):
                a.log.append(cat is a.cat and step is a.step)
                a.lens = getattr(a, 'lens', []) + [size(rs)]
                if a.symbolic:
                    old = rs.elem
                    if s.skip is not None: rs.elem = lambda j: Or(old(j), s.skip(j))
                elif s.skip is not None:
                    for i in range(len(rs)):
                        if s.skip(i): rs[i] = True
                return par.OperationParameterList(seq(a, a.n, s.value))
        class Out(ph.Output):
            def operation_output_resolve(s, cat, step, indices):
                a.log.append(cat is a.cat and step is a.step)
                a.seen.append(indices)
                return par.OperationParameterList(load.SymList(size(indices), lambda k: a.o(at(indices, k))) if a.symbolic else [a.o(i) for i in indices])
        x = dict(a=In(a.s1, a.p1), b=In(None, a.p2), c=In(a.s2, a.p1), o=Out(), lit=7, name='text', none=None)
        if a.kind == 'nested': run = {'python_function': 'm.f', 'a': x['a'], 'in': {'b': x['b'], 'deep': [x['c'], 3]}, 'o': x['o'], 'lit': 7, 'name': 'text', 'none': None}
        elif a.kind == 'dict': run = dict(x, python_function='m.f')
        else:
            class Module(object):
                def run(self): pass
            run = Module(); run.__dict__.update(x)
        o = op.Operation(run, a.step, newdatasets=[NS(name='new', path='')])
        o.resolve_operation_references(a.cat, '/default')
        r = o.runmodule
        d = r if isinstance(r, dict) else r.__dict__
        if a.kind == 'nested': d = dict(a=d['a'], b=d['in']['b'], c=d['in']['deep'][0], o=d['o'], lit=d['lit'] if d['in']['deep'][1] == 3 else None, name=d['name'], none=d['none'])
        return d, o
    def post(self, C, a, out):
        d, o = out.value
        k = Kept(a.n, lambda i: Or(a.s1(i), a.s2(i)), C.symbolic)
        C.holds('catalogue_and_step_passed', all(a.log) and len(a.log) == 4)
        C.holds('one_flag_per_step', And(*[Eq(l, a.n) for l in a.lens]))
        C.holds('count', Eq(o.count, k.n))
        C.holds('literals_untouched', d['lit'] == 7 and d['name'] == 'text' and d['none'] is None)
        C.holds('new_datasets_added', len(a.cat.datasets) == 1 and a.cat.datasets[0].path == '/default' and not o.newdatasets)
        for name, f in (('a', a.p1), ('b', a.p2), ('c', a.p1), ('o', a.o)):
            l = d[name].operation_parameters
            C.holds(name + '.count', And(Eq(size(l), k.n), Eq(d[name].count(), k.n)))
            C.forall(name + '.aligned', (k.n,), lambda j, l=l, f=f: Eq(at(l, j), f(k.at(j))))
        C.holds('outputs_once', len(a.seen) == 1 and Eq(size(a.seen[0]), k.n))
        C.forall('outputs_for_kept_steps', (k.n,), lambda j: Eq(at(a.seen[0], j), k.at(j)))

@contract
class Restrict(Contract):
    """restriction to a list of indices takes exactly those values in that order"""
    name = 'operationparameters.restrict_to_subset'; functions = (PAR + ':OperationParameterList.restrict_to_subset', PAR + ':OperationParameterList.count', PAR + ':OperationParameterList.resolve_single_operation')
    def setup(self, B):
        n, m = B.size('n', 1, 9), B.size('m', 0, 9)
        a = NS(n=n, m=m, p=B.func('p', 1, 'i', gen=lambda r, *k: r.randrange(99)), ix=B.func('ix', 1, 'i', gen=lambda r, *k: r.randrange(n)), cls=B.choice('cls', ['OperationParameterList', 'OperationFileReference', 'OperationFileListReference']))
        a.symbolic = B.symbolic
        a.j = B.int('j', 0, 8)
        if B.symbolic: B.forall_assume((m,), lambda k: And(a.ix(k) >= 0, a.ix(k) < n)) if hasattr(B, 'forall_assume') else None
        return a
    def run(self, M, a):
        p = getattr(M(PAR), a.cls)(seq(a, a.n, a.p))
        ix = load.SymList(a.m, lambda k: self.index(a, k)) if a.symbolic else [a.ix(k) for k in range(a.m)]
        return p, p.restrict_to_subset(ix)
    def index(self, a, k):
        i = a.ix(k); sym.ctx().assume(And(i >= 0, i < a.n)); return i
    def post(self, C, a, out):
        p, q = out.value
        C.holds('same_object', p is q)
        C.holds('count', And(Eq(size(q.operation_parameters), a.m), Eq(q.count(), a.m)))
        C.forall('values', (a.m,), lambda k: Implies(And(a.ix(k) >= 0, a.ix(k) < a.n), Eq(at(q.operation_parameters, k), a.p(a.ix(k)))))

@contract
class StepValues(Contract):
    """the step time and step index placeholders give each step its own time and number"""
    name = 'placeholder.step_values'; functions = (PH + ':StepTime.operation_input_resolve', PH + ':StepIndex.operation_input_resolve')
    def setup(self, B):
        a = NS(n=B.size('n', 1, 12), t=B.func('t', 1, 'i', gen=lambda r, *k: r.randrange(10 ** 6)), which=B.choice('which', ['StepTime', 'StepIndex'])); a.symbolic = B.symbolic
        return a
    def run(self, M, a): return getattr(M(PH), a.which)().operation_input_resolve(None, None, NS(count=lambda: a.n, time_at_index=lambda i: a.t(i)))
    def post(self, C, a, out):
        l = out.value.operation_parameters
        get = (lambda k: wrapz(l.at((lift(k),)))) if isinstance(l, snp.SArr) else lambda k: at(l, k)
        C.holds('one_per_step', Eq(l.shape[0] if isinstance(l, snp.SArr) else size(l), a.n))
        C.forall('values', (a.n,), lambda k: Eq(get(k), a.t(k) if a.which == 'StepTime' else k))

@contract
class Single(Contract):
    """one operation is resolved to its own values; indices outside the operation and lists of another length are refused"""
    name = 'operation.resolve_single_operation'; functions = (OP + ':Operation.resolve_single_operation', OP + ':OperationResolveSingleOperation.process', PAR + ':OperationParameterList.resolve_single_operation')
    def setup(self, B):
        n = B.size('n', 0, 9)
        a = NS(n=n, m=B.choice('m', ['same', 'other']), d=B.int('d', 1, 3), i=B.int('i', -3 if not B.symbolic else None, 12 if not B.symbolic else None), p=B.func('p', 1, 'i', gen=lambda r, *k: r.randrange(99)), q=B.func('q', 1, 'i', gen=lambda r, *k: r.randrange(99)), log=[])
        a.symbolic = B.symbolic
        return a
    def run(self, M, a):
        par, op = M(PAR), M(OP)
        class One(par.OperationParameter):
            def resolve_single_operation(s, path, index): a.log.append((path, index)); return 'one'
        o = op.Operation({'python_function': 'm.f', 'a': par.OperationParameterList(seq(a, a.n, a.p)), 'b': {'c': [par.OperationParameterList(seq(a, a.n if a.m == 'same' else a.n + a.d, a.q))]}, 'stamp': par.OperationTimeStamp(), 'one': One(), 'lit': 'x'}, None, count=a.n)
        o.resolve_single_operation('CAT', a.i, 'STAMP')
        return o.runmodule
    def post(self, C, a, out):
        inside = And(a.i >= 0, a.i < a.n)
        if out.raised:
            C.holds('refused_for_a_reason', out.raises(IndexError, ValueError) and (a.m == 'other' or Not(inside)))
            return
        r = out.value
        C.holds('inside', inside)
        C.holds('lengths_agree', a.m == 'same')
        C.holds('resolved', not any(isinstance(x, (list, dict)) or hasattr(x, 'operation_parameters') or hasattr(x, 'resolve_single_operation') for x in (r['a'], r['b']['c'][0], r['one'])))
        C.holds('own_values', And(Eq(r['a'], a.p(a.i)), Eq(r['b']['c'][0], a.q(a.i))))
        C.holds('others', r['stamp'] == 'STAMP' and r['one'] == 'one' and r['lit'] == 'x' and r['python_function'] == 'm.f')
        C.holds('index_passed', len(a.log) == 1 and a.log[0][0] == 'CAT' and Eq(a.log[0][1], a.i))

# ------------------------------------------------------------------ the mapping from steps to files

def build_name(patterns, t):
    l = [p for p in patterns]
    for k, v in (('Y', '%04d' % t.year), ('m', '%02d' % t.month), ('d', '%02d' % t.day), ('H', '%02d' % t.hour), ('M', '%02d' % t.minute), ('S', '%02d' % t.second)): l = [p.replace('%' + k, v) for p in l]
    return os.path.join(*l)

FIELDS = dict(daily='Ymd', monthly='Ym', annual='Y', once='')
UNIQUE = dict(daily=[['%Y/', 'f_%Y%m%d.bin'], ['%Y/%m/', 'f_%d.bin'], ['f_%Y%m%d%H%M.bin'], ['%d/', '%m_%Y'], ['%Y%m/', '%d.nc']],
              monthly=[['%Y/', 'f_%m.bin'], ['f_%Y%m%d.bin'], ['%m/', '%Y_%d%H.bin']], annual=[['%Y/', 'f.bin'], ['f_%Y%m%d.bin'], ['a/', '%m%Y']], once=[['fixed.bin'], ['%Y/', 'f_%Y%m%d.bin'], ['a/', 'b.bin']])
OTHER = dict(daily=[['%Y/', 'f_%Y%m.bin'], ['fixed.bin'], ['f_%m%d.bin'], ['%Y.bin'], ['%Y/', 'f_%d.bin'], ['clim/', 'f_%m.nc']], monthly=[['%Y/', 'f.bin'], ['fixed.bin'], ['f_%m.bin'], ['x/', 'f_%m.bin']], annual=[['fixed.bin'], ['m/', 'fixed']], once=[])

class World:
    """a step object of the repository together with the days, months or years it stands for"""
    def __init__(self, M, r, maxsteps=9):
        self.kind = r.choice(['daily', 'daily', 'daily', 'monthly', 'annual', 'once'])
        self.start = DT(r.choice([1999, 2000, 1850, 2003]), r.choice([1, 2, 12, 11]), r.choice([1, 27, 28, 30]) if True else 1) if r.random() < 0 else DT(r.choice([1999, 2000, 1850, 2003]), r.choice([1, 2, 12, 11]), r.choice([1, 15, 27, 28]))
        n = r.randrange(1, maxsteps + 1)
        if self.kind == 'daily':
            self.lo = [self.start + TD(i) for i in range(n + 1)]
            self.step = M(CAT + 'step').StepDaily(self.start, self.start + TD(n - 1))
        elif self.kind == 'monthly':
            f = DT(self.start.year, self.start.month, 1)
            def plus(i): q = f.month - 1 + i; return DT(f.year + q // 12, q % 12 + 1, 1)
            self.lo = [plus(i) for i in range(n + 1)]
            self.step = M(EXS).StepMonthly(self.start, min(self.lo[-1] - TD(1), DT(self.lo[-2].year, self.lo[-2].month, r.choice([1, 15, 28]))) if n > 1 else self.start)
        elif self.kind == 'annual':
            self.lo = [DT(self.start.year + i, 1, 1) for i in range(n + 1)]
            self.step = M(EXS).StepAnnual(self.start, DT(self.start.year + n - 1, 12, r.choice([1, 31])))
        else:
            n = 1; self.lo = None; self.step = M(CAT + 'step').StepOnce()
        self.n = n
    def index(self, t):
        if self.kind == 'once': return 0
        for i in range(self.n):
            if self.lo[i] <= t < self.lo[i + 1]: return i
        return None
    def times(self, r, n):
        """file times in, before and after the steps, in no particular order; several files may share a day"""
        if self.kind == 'once': return [self.start + TD(r.randrange(60), hours=r.randrange(24)) for _ in range(n)]
        span = (self.lo[-1] - self.lo[0]).days
        out = []
        for _ in range(n):
            u = r.random()
            if u < .15: t = self.lo[r.randrange(self.n + 1)]
            elif u < .25: t = self.lo[r.randrange(self.n + 1)] - TD(seconds=1)
            elif u < .35: t = self.lo[0] - TD(r.randrange(1, 400))
            elif u < .45: t = self.lo[-1] + TD(r.randrange(0, 400))
            else: t = self.lo[0] + TD(r.randrange(span), hours=r.choice([0, 0, 6, 23]), minutes=r.choice([0, 59]))
            out.append(t)
        return out
    def name(self, patterns, i):
        if self.kind == 'once': return os.path.join(*patterns)
        return build_name(patterns, self.lo[i])
    def covered(self, r, patterns, extra):
        """one file for (most) steps in random order"""
        l = [(self.lo[i] if self.lo else self.start) + TD(hours=r.choice([0, 0, 12])) for i in range(self.n) if r.random() < .85]
        l += self.times(r, extra)
        r.shuffle(l)
        return l

def subset_for(M, r, w, unique, dense=False):
    """(subset, expected file numbers per step)"""
    d = M(CAT + 'dataset')
    patterns = list(r.choice((UNIQUE if unique else OTHER)[w.kind]))
    n = r.choice([0, 1, 2, 3, 5, 8, 12])
    times = w.covered(r, patterns, r.choice([0, 0, 1, 3])) if r.random() < .5 or dense else w.times(r, n)
    files = []
    if unique:
        for k, t in enumerate(times): files.append(d.CatalogueFileEntry('%02d_%s' % (k, build_name(patterns, t)), t))
        expect = [[k for k, t in enumerate(times) if w.index(t) == i] for i in range(w.n)]
    else:
        seen = set()
        for t in times:
            nm = build_name(patterns, t) if r.random() < .9 else 'other%d' % len(files)
            if nm not in seen: seen.add(nm); files.append(d.CatalogueFileEntry(nm, t))
        expect = [[k for k, f in enumerate(files) if f.name == w.name(patterns, i)] for i in range(w.n)]
    s = d.CatalogueDataSubset(M(CAT + 'storage').DataStorageFiles(patterns), files)
    return s, expect

def quiet(f):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): return f()

POLICY = ['not_allowed', 'allowed', 'skip']
@contract
class FindReferences(Contract):
    """every step gets exactly the files whose time (or name, where the pattern does not fix the step) belongs to it, in catalogue order, and missing input is treated as the policy says"""
    name = 'placeholder.find_references'
    functions = tuple(PH + ':' + f for f in ('InputFileList.find_references', 'InputFileList.operation_input_resolve', 'InputFile.operation_input_resolve')) + (CAT + 'step:StepDaily.is_uniquely_defined_by', CAT + 'step:StepDaily.create_output_entry', CAT + 'step:StepOnce.create_output_entry', CAT + 'catalogue:Catalogue.datasubset', CAT + 'dataset:CatalogueDataSet.subset')
    prove = False; weight = 25
    assumptions = ('find_references is checked by bounded concrete runs: up to 9 daily, monthly, annual or single steps and up to 21 files in, before and after them',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), unique=B.choice('unique', [True, False]), policy=B.choice('policy', POLICY), single=B.choice('single', [False, True]), dense=B.choice('dense', [True, False]))
    def run(self, M, a):
        r = random.Random(a.seed)
        d = M(CAT + 'dataset')
        a.w = w = World(M, r)
        if w.kind == 'once': a.unique = True
        s, a.expect = quiet(lambda: subset_for(M, r, w, a.unique, a.dense))
        if a.single and a.unique and r.random() < .6 and s.matches:       # at most one file per step
            keep, used = [], set()
            for f in s.matches:
                i = w.index(f.time)
                if i is None or i not in used: keep.append(f); used.add(i)
            s.matches = keep
            a.expect = [[k for k, f in enumerate(keep) if w.index(f.time) == i] for i in range(w.n)]
        other = lambda: d.CatalogueDataSubset(M(CAT + 'storage').DataStorageFiles(['x']), [])
        a.ds, a.sub = r.randrange(3), r.randrange(3)
        sets = [d.CatalogueDataSet('other%d' % k, '/o', None, [other()]) for k in range(a.ds)]
        sets.append(d.CatalogueDataSet('wanted', '/w', None, [other() for _ in range(a.sub)] + [s, other()]))
        sets += [d.CatalogueDataSet('later', '/l', None, [other()])]
        cat = M(CAT + 'catalogue').Catalogue(sets)
        a.skip0 = [r.random() < .15 for _ in range(w.n)]
        a.skip = list(a.skip0)
        before = [(f.name, f.time) for f in s.matches]
        cls = M(PH).InputFile if a.single else M(PH).InputFileList
        a.mod = M(PH)
        p = quiet(lambda: cls('wanted', a.sub, a.policy).operation_input_resolve(a.skip, cat, w.step))
        a.unchanged = before == [(f.name, f.time) for f in s.matches]
        return p
    def post(self, C, a, out):
        w = a.w
        missing = [i for i in range(w.n) if not a.expect[i]]
        many = a.single and any(len(e) > 1 for e in a.expect)
        refuse = many or (a.policy == 'not_allowed' and missing)
        if refuse:
            C.holds('refused', out.raised and out.raises(a.mod.OperationException)); return
        p = out.value
        want = [[x for e in (ex if ex else [-1] if a.policy == 'allowed' else []) for x in (a.ds, a.sub, e)] for ex in a.expect]
        C.holds('one_list_per_step', len(p.operation_parameters) == w.n)
        C.holds('exactly_the_files_of_the_step', [list(x) for x in p.operation_parameters] == want)
        C.holds('kind', type(p) is (M_ := a.mod).OperationFileReference if a.single else type(p) is a.mod.OperationFileListReference)
        C.holds('skips', [bool(x) for x in a.skip] == [bool(s or (a.policy == 'skip' and not a.expect[i])) for i, s in enumerate(a.skip0)])
        C.holds('catalogue_unchanged', a.unchanged)

@contract
class Refused(Contract):
    """inputs and outputs that are not in the catalogue, and outputs already defined, are refused"""
    name = 'placeholder.refused'; functions = (PH + ':InputFileList.find_references', PH + ':OutputFile.operation_output_resolve', CAT + 'catalogue:Catalogue.datasubset', CAT + 'catalogue:Catalogue.dataset', CAT + 'dataset:CatalogueDataSet.subset')
    prove = False; weight = 2
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), what=B.choice('what', ['dataset', 'subset', 'negative', 'patterns', 'defined', 'fine']), side=B.choice('side', ['in', 'list', 'out']))
    def run(self, M, a):
        r = random.Random(a.seed)
        d, st, ph = M(CAT + 'dataset'), M(CAT + 'storage'), M(PH)
        start = DT(2001, 2, 27)
        n = r.randrange(1, 5)
        step = M(CAT + 'step').StepDaily(start, start + TD(n - 1))
        files = [d.CatalogueFileEntry('f%s' % k, start + TD(k)) for k in range(n)]
        out = a.side == 'out'
        sub = d.CatalogueDataSubset(st.DataStorageFiles(['f_%Y%m%d']), [] if out and a.what != 'defined' else files[:r.randrange(1, n + 1)] if out else files)
        if a.what == 'patterns': sub.layout = st.DataStorage()
        cat = M(CAT + 'catalogue').Catalogue([d.CatalogueDataSet('A', '/a', None, [sub])])
        name, k = ('B' if a.what == 'dataset' else 'A'), (1 if a.what == 'subset' else -1 if a.what == 'negative' else 0)
        a.mod = ph
        if out: return quiet(lambda: ph.OutputFile(name, k).operation_output_resolve(cat, step, list(range(n))))
        return quiet(lambda: (ph.InputFile if a.side == 'in' else ph.InputFileList)(name, k).operation_input_resolve([False] * n, cat, step))
    def post(self, C, a, out):
        fine = a.what == 'fine' or (a.what == 'defined' and a.side != 'out')
        C.holds('accepted_or_refused', (not out.raised) if fine else (out.raised and out.raises(a.mod.OperationException)))

@contract
class Outputs(Contract):
    """each kept step is given the output name built for that step; steps with the same name share one entry and different names never do"""
    name = 'placeholder.OutputFile'; functions = (PH + ':OutputFile.operation_output_resolve', CAT + 'step:StepDaily.create_output_entry', CAT + 'step:StepDaily.filename_from_patterns')
    prove = False; weight = 6
    assumptions = ('OutputFile is checked by bounded concrete runs: up to 40 steps',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), unique=B.choice('unique', [True, False]))
    def run(self, M, a):
        r = random.Random(a.seed)
        d = M(CAT + 'dataset')
        a.w = w = quiet(lambda: World(M, r, 40))
        a.patterns = list(r.choice((UNIQUE if a.unique or w.kind == 'once' else OTHER)[w.kind]))
        s = d.CatalogueDataSubset(M(CAT + 'storage').DataStorageFiles(a.patterns))
        a.ds, a.sub = r.randrange(3), r.randrange(2)
        other = lambda: d.CatalogueDataSubset(M(CAT + 'storage').DataStorageFiles(['x']), [])
        cat = M(CAT + 'catalogue').Catalogue([d.CatalogueDataSet('o%d' % k, '/o', None, [other()]) for k in range(a.ds)] + [d.CatalogueDataSet('wanted', '/w', None, [other() for _ in range(a.sub)] + [s])])
        a.kept = [i for i in range(w.n) if r.random() < .8]
        p = quiet(lambda: M(PH).OutputFile('wanted', a.sub).operation_output_resolve(cat, w.step, list(a.kept)))
        a.mod = M(PH)
        return p, s.matches
    def post(self, C, a, out):
        p, files = out.value
        C.holds('one_reference_per_step', len(p.operation_parameters) == len(a.kept) and type(p) is a.mod.OperationFileReference)
        names = [f.name for f in files]
        C.holds('no_duplicate_entries', len(set(names)) == len(names))
        C.holds('no_other_entries', set(names) == {a.w.name(a.patterns, i) for i in a.kept})
        first = {}
        for j, i in enumerate(a.kept):
            ref = list(p.operation_parameters[j])
            ok = len(ref) == 3 and ref[:2] == [a.ds, a.sub] and 0 <= ref[2] < len(files) and names[ref[2]] == a.w.name(a.patterns, i)
            C.holds('own_name', ok)
            if ok and ref[2] not in first:
                first[ref[2]] = i
                C.holds('time', files[ref[2]].time == (a.w.lo[i] if a.w.lo else None))

@contract
class Lookups(Contract):
    """data sets are found by name, with the index that refers to them"""
    name = 'catalogue.lookups'; functions = tuple(CAT + 'catalogue:Catalogue.' + f for f in ('datasetindex', 'dataset', 'datasubset', 'number_of_subsets'))
    prove = False; weight = 2
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), q=B.choice('q', ['a', 'b', 'c', 'zz', '']), k=B.int('k', -2, 4))
    def run(self, M, a):
        r = random.Random(a.seed)
        d = M(CAT + 'dataset')
        names = r.sample(['a', 'b', 'c', 'd', 'aa'], r.randrange(0, 5))
        a.sets = [d.CatalogueDataSet(n, '/' + n, None, [d.CatalogueDataSubset() for _ in range(r.randrange(4))]) for n in names]
        c = M(CAT + 'catalogue').Catalogue(list(a.sets))
        return c.datasetindex(a.q), c.dataset(a.q), c.datasubset(a.q, a.k), c.number_of_subsets(a.q)
    def post(self, C, a, out):
        i, ds, sub, n = out.value
        want = [k for k, s in enumerate(a.sets) if s.name == a.q]
        if not want: C.holds('absent', i is None and ds is None and sub is None and n == 0)
        else:
            s = a.sets[want[0]]
            C.holds('index', i == want[0]); C.holds('dataset', ds is s); C.holds('subsets', n == len(s.subsets))
            C.holds('subset', sub is (s.subsets[a.k] if 0 <= a.k < len(s.subsets) else None))

@contract
class Patterns(Contract):
    """a step counts as fixed by the file name exactly when the patterns together hold every field of the step"""
    name = 'step.is_uniquely_defined_by'; functions = (CAT + 'step:StepDaily.is_uniquely_defined_by', CAT + 'step:StepOnce.is_uniquely_defined_by')
    prove = False; weight = 2
    def setup(self, B):
        k = B.int('k', 1, 3)
        return NS(patterns=[''.join(B.choice('p%d%d' % (i, j), ['', '', 'f_', '%Y', '%m', '%d', '%H', 'Y', 'm', 'd', '/', '%M']) for j in range(4)) for i in range(k)], kind=B.choice('kind', ['daily', 'once']))
    def run(self, M, a):
        s = M(CAT + 'step')
        return (s.StepDaily(DT(2000, 1, 1), DT(2000, 1, 2)) if a.kind == 'daily' else s.StepOnce()).is_uniquely_defined_by(a.patterns)
    def post(self, C, a, out):
        held = {f for f in 'Ymd' if any('%' + f in p for p in a.patterns)}
        C.holds('holds_all_fields', bool(out.value) == (a.kind == 'once' or held == set('Ymd')))

@contract
class EndToEnd(Contract):
    """an operation over several inputs with different policies, saved to the catalogue file and resolved for one step, is handed the path names of that step's files and outputs"""
    name = 'operation.end_to_end'
    functions = tuple(OP + ':Operation.' + f for f in ('resolve_operation_references', 'resolve_single_operation', 'run')) + (PAR + ':OperationFileReference.resolve_single_operation', PAR + ':OperationFileListReference.resolve_single_operation', CAT + 'fileio.formatnetcdf:CatalogueReaderNetCDF.load_data_pathnames', CAT + 'build:build')
    prove = False; weight = 4
    assumptions = ('the path through the catalogue file is checked by bounded concrete runs with the installed netCDF4',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), filtered=B.choice('filtered', [False, False, True]), update=B.choice('update', [False, True]))
    def stubs(self, B, a): return {OP + ':Operation.current_runtime_toolchain': lambda self: ['chain'], 'eumopps.toolchain:versionlist': lambda: ['v'], CAT + 'dataset:CatalogueDataSet.search': lambda self: None, CAT + 'dataset:CatalogueDataSet.checksum': lambda self: None}
    def run(self, M, a):
        r = random.Random(a.seed)
        d, st, ph = M(CAT + 'dataset'), M(CAT + 'storage'), M(PH)
        for _ in range(60):
            a.w = w = quiet(lambda: World(M, r, 6))
            if w.kind != 'once': break
        def one(unique, single):
            s, e = quiet(lambda: subset_for(M, r, w, unique, True))
            if single and unique:
                keep, used = [], set()
                for f in s.matches:
                    i = w.index(f.time)
                    if i is None or i not in used: keep.append(f); used.add(i)
                s.matches = keep
                e = [[k for k, f in enumerate(keep) if w.index(f.time) == i] for i in range(w.n)]
            return s, e
        a.inputs, sets = [], []
        for k in range(r.randrange(1, 4)):
            single, unique, pol = r.random() < .5, r.random() < .6, r.choice(['skip', 'allowed', 'skip', 'not_allowed'])
            s, e = one(unique, single)
            if pol == 'not_allowed' and not all(e): pol = 'skip'
            subs = [d.CatalogueDataSubset(st.DataStorageFiles(['x']), [d.CatalogueFileEntry('x', DT(2000, 1, 1))]) for _ in range(r.randrange(2))] + [s]
            sets.append(d.CatalogueDataSet('in%d' % k, '/data/in%d' % k, None, subs))
            a.inputs.append((k, len(subs) - 1, single, pol, s, e))
        if a.filtered:
            r.shuffle(sets) if False else None
            sets.append(d.CatalogueDataSet('unwanted', '/u', None, [d.CatalogueDataSubset(st.DataStorageFiles(['y']), [d.CatalogueFileEntry('y', DT(2000, 1, 1))])]))
            a.inputs = a.inputs[:1]
        outpat = [list(r.choice(UNIQUE[w.kind])), list(r.choice(OTHER[w.kind]))]
        a.outpat = outpat
        run = {'python_function': 'nowhere.f', 'when': ph.StepTime(), 'number': ph.StepIndex(), 'label': 'const', 'size': 3}
        for k, sub, single, pol, s, e in a.inputs: run['input%d' % k] = (ph.InputFile if single else ph.InputFileList)('in%d' % k, sub, pol)
        for k in range(2): run['output%d' % k] = ph.OutputFile('out%d' % k)
        o = M(OP).Operation(run, w.step, name='theop', newdatasets=[d.CatalogueDataSet('out%d' % k, '' if k else '/explicit', None, [d.CatalogueDataSubset(st.DataStorageFiles(outpat[k]))]) for k in range(2)])
        kept = [i for i in range(w.n) if not any(pol == 'skip' and not e[i] for _, _, _, pol, _, e in a.inputs)]
        if not kept: raise Reject()
        a.kept = kept
        C = M(CAT + 'catalogue').Catalogue
        rd = M(CAT + 'fileio.formatnetcdf').CatalogueReaderNetCDF()
        box = tempfile.mkdtemp(prefix='vf_p05_')
        try:
            path = os.path.join(box, 'cat.nc')
            b = M(CAT + 'build')
            if a.update and not a.filtered:
                k0 = r.randrange(len(sets) + 1)
                quiet(lambda: b.build(C(sets[:k0], operations=[]) , path, nochecksum=True)) if k0 else quiet(lambda: b.build(C([d.CatalogueDataSet('first', '/f', None, [d.CatalogueDataSubset(st.DataStorageFiles(['z']), [d.CatalogueFileEntry('z', DT(2000, 1, 1))])])]), path, nochecksum=True))
                quiet(lambda: b.build(C(sets[k0:], operations=[o]), path, update=True, pathdefault='/default', nochecksum=True))
            else:
                if a.filtered: sets.insert(0, sets.pop())
                quiet(lambda: b.build(C(sets, operations=[o]), path, dataset_filter='in0' if a.filtered else None, pathdefault='/default', nochecksum=True))
            res, a.count = [], rd.operationcount(path, 'theop')
            for j in range(a.count):
                q = rd.load_operation(path, 'theop')
                q.resolve_single_operation(path, j, 'STAMP')
                res.append(q.runmodule)
            return res
        finally: shutil.rmtree(box)
    def post(self, C, a, out):
        res, w = out.value, a.w
        C.holds('one_operation_per_kept_step', a.count == len(a.kept))
        for j, i in enumerate(a.kept):
            m = res[j]
            C.holds('time_of_step', m['when'] == w.lo[i]); C.holds('number_of_step', m['number'] == i); C.holds('literals', m['label'] == 'const' and m['size'] == 3)
            for k, sub, single, pol, s, e in a.inputs:
                want = [os.path.join('/data/in%d' % k, s.matches[x].name) for x in e[i]] or [None]
                C.holds('files_of_step', (m['input%d' % k] == want[0]) if single else (list(m['input%d' % k]) == want))
            for k in range(2): C.holds('outputs_of_step', m['output%d' % k] == os.path.join('/explicit' if k == 0 else '/default', w.name(a.outpat[k], i)))
