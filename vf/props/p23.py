"""P23 - the generated plan of the iterated analysis computes everything in order, from the latest states, into places of their own"""
import contextlib, copy, inspect, io, itertools, json, os, random, shutil, tempfile
import z3
from .. import sym, load, sdt, src
from ..contract import Contract, NS, Reject
from ..load import Inv, SymList
from ..sym import And, Or, Not, Implies, If, Eq, Sym, OutOfSubset, wrapz, lift
from .common import contract_list
from .p04 import size, at

CONTRACTS, contract = contract_list()
def quiet(): return contextlib.redirect_stdout(io.StringIO())
JF = 'eumopps.catalogue.jsonfiller'
EX = 'eustace.analysis.advanced_standard.examples.jsonfiller'
MC = 'eustace.analysis.advanced_standard.examples.moving_climatology'
PRELOAD = (JF, EX)
BUDGET = dict(quick=dict(search=90), thorough=dict(search=300))
ASSUMPTIONS = ['the names of commands and datasets do not end in a digit and are all different',
               'the proofs over all iterations use one set of names: the functions only concatenate names']
TEMPLATES = os.path.join(src.REPO, 'src/roses/fullstace/advanced_standard/templates')
FILES = dict(op='advstd_operation_template.json', batch='advstd_batch_operation_template.json', grid='advstd_outputgrid_template.json')
STORES = ('storage_climatology', 'storage_large_scale', 'storage_local')
KNOWN = ('insitu_land', 'insitu_ocean', 'surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice')
PH, AP = 'eumopps.catalogue.placeholder.', 'eustace.analysis.advanced_standard.examples.placeholder.'

def template(which):
    t = json.load(open(os.path.join(TEMPLATES, FILES[which])))
    if 'inputsources' in t['runmodule']: t['runmodule']['inputsources'] = [s for s in t['runmodule']['inputsources'] if s['name'] in KNOWN]
    return t

# ------------------------------------------------------------------ names that carry a symbolic number

class Name(object):
    """text around whole numbers: two are the same when text and numbers are (numbers are not negative and follow text that ends in no digit)"""
    def __init__(self, *parts):
        p = []
        for x in parts:
            if isinstance(x, str) and p and isinstance(p[-1], str): p[-1] += x
            else: p.append(x)
        self.parts = [x for x in p if not isinstance(x, str) or x]
    def __add__(self, o):
        if isinstance(o, (str, Name)): return Name(*(self.parts + (o.parts if isinstance(o, Name) else [o])))
        return NotImplemented
    def __radd__(self, o): return Name(*([o] + self.parts)) if isinstance(o, str) else NotImplemented
    def cond(self, o):
        o = named(o)
        if isinstance(o, str): return False
        if not isinstance(o, Name) or len(self.parts) != len(o.parts): return False
        c = []
        for x, y in zip(self.parts, o.parts):
            if isinstance(x, str) or isinstance(y, str):
                if x != y if isinstance(x, str) and isinstance(y, str) else True: return False
            else: c.append(Eq(x, y))
        return And(*c) if c else True
    def __eq__(self, o): return self.cond(o)
    def __ne__(self, o): return Not(self.cond(o))
    __hash__ = None
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return 'Name%r' % (self.parts,)
    def __str__(self): return ''.join(x if isinstance(x, str) else sdt.marker(x.z, '') for x in self.parts)
    def __format__(self, spec):
        if spec: raise OutOfSubset('formatted name')
        return str(self)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise OutOfSubset('text of a symbolic number: ' + n)
def named(o):
    """text in which symbolic numbers were formatted plainly, as a Name"""
    if not isinstance(o, str): return o
    if 'Sym(' in o or 'Name[' in o: raise OutOfSubset('text of a symbolic number')
    if '\x01' not in o: return o
    parts, k = [], 0
    for m in sdt.TOKEN.finditer(o):
        z, spec = sdt.FMT[int(m.group(1))]
        if spec not in ('', 'd', 's') or not z3.is_int(z): raise OutOfSubset('formatted number ' + spec)
        parts += [o[k:m.start()], wrapz(z)]; k = m.end()
    return Name(*(parts + [o[k:]]))
def digits(i): return Name(i) if isinstance(i, Sym) else str(i)

def deq(x, y):
    """the two descriptors say the same"""
    x, y = named(x), named(y)
    if isinstance(x, Name) or isinstance(y, Name): return (x if isinstance(x, Name) else y).cond(y if isinstance(x, Name) else x)
    if isinstance(x, Sym) or isinstance(y, Sym): return Eq(x, y)
    if isinstance(x, dict) and isinstance(y, dict):
        if set(x) != set(y): return False
        return And(True, *[deq(x[k], y[k]) for k in sorted(x)])
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)): return And(True, *[deq(p, q) for p, q in zip(x, y)]) if len(x) == len(y) else False
    return type(x) == type(y) and x == y or (isinstance(x, (int, bool)) and isinstance(y, (int, bool)) and x == y)
def where(x, y, path=''):
    """first difference (concrete)"""
    if isinstance(x, dict) and isinstance(y, dict):
        for k in sorted(set(x) | set(y)):
            if k not in x: return path + '/' + k + ' missing'
            if k not in y: return path + '/' + k + ' extra'
            w = where(x[k], y[k], path + '/' + k)
            if w: return w
        return None
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        for k, (p, q) in enumerate(zip(x, y)):
            w = where(p, q, path + '/%d' % k)
            if w: return w
        return None
    return None if deq(x, y) is True else '%s: %r instead of %r' % (path, x, y)

# ------------------------------------------------------------------ what a plan has to say

class Plan(object):
    """names and settings of a plan, and what each of its operations is"""
    def __init__(self, names, n, start, end, land, glob, module=JF, first=0, gridlast=True):
        self.__dict__.update(names); self.names, self.n, self.start, self.end, self.land, self.glob, self.module, self.first, self.gridlast = names, n, start, end, land, glob, module, first, gridlast
        self.sol = [self.cs_name, self.ls_name, self.loc_name]; self.meas = [self.cm_name, self.lm_name]
    def filler(self, M, inpath=TEMPLATES, outpath='', files=FILES):
        F = M(self.module).FullstaceJsonFiller
        head = (self.n,) if self.module == JF else (self.first, self.first + self.n - 1, 1 if self.gridlast else 0)
        return F(*(head + (inpath, outpath, files['op'], files['batch'], files['grid'], self.start, self.end, self.land, self.glob,
                 self.cm_cmd, self.cm_name, self.cs_cmd, self.cs_name, self.lm_cmd, self.lm_name, self.ls_cmd, self.ls_name, self.loc_cmd, self.loc_name, self.grid_cmd, self.grid_name, self.out_c, self.out_l, self.out_loc)))
    @property
    def last(self): return self.first + self.n - 1
    def islast(self, i):
        """branches when symbolic"""
        return bool(And(Eq(i, self.last), self.gridlast))
    def state_size(self, M): return M(self.module).FullstaceJsonFiller.STATE_SAMPLE_SIZE
    def pattern(self, ds, dated, ext):
        if dated is None: return [ds + '/', ds + '.' + ext]
        return [ds + '/%Y/', ds + '_' + dated + '.' + ext]
    def newdataset(self, t, ds, dated, ext='pickle'):
        d = copy.deepcopy(t['newdatasets'][0]); d['name'] = ds; d['subsets'][0]['layout']['patterns'] = self.pattern(ds, dated, ext)
        return d
    def base(self, t, cmd, function):
        t['name'] = cmd; r = t['runmodule']
        r.update(insitu_biases=self.land, global_biases=self.glob, compute_uncertainties=0, method='EXACT', compute_sample=0, sample_size=0, compute_prior_sample=0, python_function=MC + '.' + function)
        t['step'].update(start=self.start + '000000', end=self.end + '000000')
        return r
    def others(self, r, c, i):
        """the latest state of every other component"""
        for j in range(3):
            if j < c: r[STORES[j]]['statefilename_read'] = dict(python_class=PH + 'InputFile', datasetname=self.sol[j] + '_' + digits(i))
            elif j > c and i > 0: r[STORES[j]]['statefilename_read'] = dict(python_class=PH + 'InputFile', datasetname=self.sol[j] + '_' + digits(i - 1))
    def others_batch(self, r, c, i):
        """the latest state of every component, the daily ones as a list for the days of the batch"""
        for j in range(3):
            if j >= c and not i > 0: continue
            ds = self.sol[j] + '_' + digits(i if j < c else i - 1)
            if j < 2: r[STORES[j]]['statefilename_read'] = dict(python_class=PH + 'InputFile', datasetname=ds)
            else: r[STORES[j]]['statefilelist_read'] = dict(python_class=AP + 'AnnualBatchDays', datasetname=ds); r[STORES[j]]['time_list'] = dict(python_class=AP + 'AnalysisAnnualBatchDayIndices')
    def measurement(self, c, i):
        t = template('op'); ds = self.meas[c] + '_' + digits(i)
        r = self.base(t, (self.cm_cmd, self.lm_cmd)[c] + '_' + digits(i), 'process_inputs'); r['component_index'] = c
        self.others(r, c, i); r['storage_local']['time_index'] = dict(python_class=AP + 'AnalysisStepIndex')
        r[STORES[c]].update(measurement_time_index_write=dict(python_class=AP + 'AnalysisStepIndex'), measurementfilename_write=dict(python_class=PH + 'OutputFile', datasetname=ds))
        t['newdatasets'] = [self.newdataset(t, ds, '%Y%m%d')]
        return t
    def measurement_batch(self, c, i):
        t = template('batch'); ds = self.meas[c] + '_' + digits(i)
        r = self.base(t, (self.cm_cmd, self.lm_cmd)[c] + '_' + digits(i), 'process_inputs_batch'); r['component_index'] = c
        self.others_batch(r, c, i)
        r[STORES[c]]['measurementfilename_write'] = dict(python_class=PH + 'OutputFile', datasetname=ds)
        t['newdatasets'] = [self.newdataset(t, ds, '%Y%m')]
        return t
    def samples(self, t, M, c, i, dated, what, batch=False, ds=None):
        r = t['runmodule']; ds = self.sol[c] + '_' + what + '_' + digits(i)
        key = what + ('_filelist_write' if batch else '_filename_write')
        r[STORES[c]][key] = dict(python_class=(AP + 'AnnualBatchDaysOutput') if batch else (PH + 'OutputFile'), datasetname=ds)
        r['compute_' + what] = 1; r['sample_size'] = self.state_size(M)
        return self.newdataset(t, ds, dated)
    def solution(self, M, c, i, prior):
        t = template('op'); ds = self.sol[c] + '_' + digits(i)
        r = self.base(t, (self.cs_cmd, self.ls_cmd)[c] + '_' + digits(i), 'solve'); r['component_index'] = c
        t['step'] = dict(python_class='eumopps.catalogue.step.StepOnce')
        r[STORES[c]].update(measurementfilelist_read=dict(python_class=PH + 'InputFileList', datasetname=self.meas[c] + '_' + digits(i)), statefilename_write=dict(python_class=PH + 'OutputFile', datasetname=ds))
        new = [self.newdataset(t, ds, None)]
        if self.islast(i):
            new.append(self.samples(t, M, c, i, None, 'sample'))
            if prior: new.append(self.samples(t, M, c, i, None, 'prior_sample'))
        for k in ('inputsources', 'time_index'): del r[k]
        t['newdatasets'] = new
        return t
    def prior(self, M, c, i):
        """drawn on its own, in the last iteration"""
        t = template('op')
        r = self.base(t, (self.cs_cmd, self.ls_cmd)[c] + '_prior_sample_' + digits(i), 'solve'); r['component_index'] = c
        t['step'] = dict(python_class='eumopps.catalogue.step.StepOnce')
        t['newdatasets'] = [self.samples(t, M, c, i, None, 'prior_sample')]
        for k in ('inputsources', 'time_index'): del r[k]
        return t
    def local(self, M, i):
        t = template('op'); ds = self.loc_name + '_' + digits(i)
        r = self.base(t, self.loc_cmd + '_' + digits(i), 'process_inputs'); r['component_index'] = 2
        self.others(r, 2, i)
        r['storage_local'].update(time_index=dict(python_class=AP + 'AnalysisStepIndex'), statefilename_write=dict(python_class=PH + 'OutputFile', datasetname=ds))
        new = [self.newdataset(t, ds, '%Y%m%d')]
        if self.islast(i): new += [self.samples(t, M, 2, i, '%Y%m%d', w) for w in ('sample', 'prior_sample')]
        t['newdatasets'] = new
        return t
    def local_batch(self, M, i):
        t = template('batch'); ds = self.loc_name + '_' + digits(i)
        r = self.base(t, self.loc_cmd + '_' + digits(i), 'process_inputs_batch'); r['component_index'] = 2
        self.others_batch(r, 2, i)
        r['storage_local'].update(time_list=dict(python_class=AP + 'AnalysisAnnualBatchDayIndices'), statefilelist_write=dict(python_class=AP + 'AnnualBatchDaysOutput', datasetname=ds))
        new = [self.newdataset(t, ds, '%Y%m%d')]
        if self.islast(i): new += [self.samples(t, M, 2, i, '%Y%m%d', w, batch=True) for w in ('sample', 'prior_sample')]
        t['newdatasets'] = new
        return t
    def grids(self):
        """the four published datasets"""
        tail = '' if self.module == JF else '_' + digits(self.last)
        return [self.grid_name + tail, self.out_c + tail, self.out_l + tail, self.out_loc + tail]
    def gridding(self):
        t = template('grid'); r = self.base(t, self.grid_cmd, 'output_grid'); r['sample_size'] = 10
        g = self.grids()
        for k, ds in zip(('outputfile', 'climatologyfile', 'largescalefile', 'localfile'), g): r[k] = dict(python_class=PH + 'OutputFile', datasetname=ds)
        for s, ds in zip(STORES, self.sol):
            for k, w in (('statefilename_read', '_'), ('sample_filename_read', '_sample_'), ('prior_sample_filename_read', '_prior_sample_')): r[s][k] = dict(python_class=PH + 'InputFile', datasetname=ds + w + digits(self.last), missing_data='allowed')
        t['newdatasets'] = [self.newdataset(t, ds, '%Y%m%d', 'nc') for ds in g]
        return t
    def gridding_batch(self):
        t = template('batch'); tail = '' if self.module == JF else '_' + digits(self.last)
        r = self.base(t, self.grid_cmd + tail, 'output_grid_batch'); r['sample_size'] = 10
        g = self.grids()
        for k, ds in zip(('outputfiles', 'climatologyfiles', 'largescalefiles', 'localfiles'), g): r[k] = dict(python_class=AP + 'AnnualBatchDaysOutput', datasetname=ds)
        for j, (s, ds) in enumerate(zip(STORES, self.sol)):
            for k, w in (('state', '_'), ('sample_', '_sample_'), ('prior_sample_', '_prior_sample_')):
                if j < 2: r[s][k + 'filename_read'] = dict(python_class=PH + 'InputFile', datasetname=ds + w + digits(self.last))
                else: r[s][k + 'filelist_read'] = dict(python_class=AP + 'AnnualBatchDays', datasetname=ds + w + digits(self.last), missing_data='allowed')
        r['storage_local']['time_list'] = dict(python_class=AP + 'AnalysisAnnualBatchDayIndices')
        del r['inputsources']; r['time_indices'] = dict(python_class=AP + 'AnalysisAnnualBatchDayIndices')
        t['newdatasets'] = [self.newdataset(t, ds, '%Y%m%d', 'nc') for ds in g]
        return t
    def whole(self, M, batch):
        ops = []
        for i in range(self.first, self.first + self.n):
            for c in (0, 1):
                ops += [(self.measurement_batch if batch else self.measurement)(c, i), self.solution(M, c, i, not batch)]
                if batch and self.islast(i): ops.append(self.prior(M, c, i))
            ops.append(self.local(M, i))
        if self.gridlast: ops.append(self.gridding_batch() if batch else self.gridding())
        return ops

FIELDS = ('cm_cmd', 'cm_name', 'cs_cmd', 'cs_name', 'lm_cmd', 'lm_name', 'ls_cmd', 'ls_name', 'loc_cmd', 'loc_name', 'grid_cmd', 'grid_name', 'out_c', 'out_l', 'out_loc')
USUAL = dict(zip(FIELDS, ('climatology_input', 'measurement_climatology', 'climatology_solve', 'solution_climatology', 'large_scale_input', 'measurement_large_scale', 'large_scale_solve', 'solution_large_scale', 'local_input_and_solve', 'solution_local', 'output_grid', 'eustace_infilled', 'eustace_climatology', 'eustace_large_scale', 'eustace_local')))
def names(rnd):
    if rnd is None or rnd.random() < .3: return dict(USUAL)
    pick = set()
    while len(pick) < len(FIELDS): pick.add(''.join(rnd.choice('abcxyz_') for _ in range(rnd.randint(1, 6))) + rnd.choice('mnop'))
    pick = sorted(pick); rnd.shuffle(pick)
    return dict(zip(FIELDS, pick))
class Text(object):
    """the text of a symbolic number, while the code runs"""
    def __init__(self, on): self.on = on
    def __enter__(self): self.was = load.STR; load.STR = Name if self.on else self.was
    def __exit__(self, *a): load.STR = self.was

KINDS = ('measurement', 'solution', 'local', 'measurement_batch', 'posterior', 'prior', 'local_batch')

@contract
class Operation(Contract):
    """each operation of an iteration reads the newest state of the other components (this iteration's where it was solved before, the previous iteration's otherwise, none in the first), reads the measurements of its own component and iteration, writes under its own names, and draws samples in the last iteration only"""
    name = 'plan.operation'
    functions = tuple(JF + ':FullstaceJsonFiller.' + f for f in ('fill_single_operation_space', 'fill_single_measurement_operation_space_time', 'fill_single_solution_operation_space_time', 'fill_single_posterior_solution_operation_space_time', 'fill_single_prior_solution_operation_space_time', 'fill_batch_measurement_operation_space', 'fill_batch_measurement_operation_space_time', 'add_sample_information', 'add_prior_sample_information', 'fill_primary_keys', 'fill_secondary_keys', 'fill_secondary_keys_batch', 'return_output_patterns', 'load_templates', 'restrict_inputs', '__init__'))
    module = JF; weight = 2
    def setup(self, B):
        a = NS(B=B, kind=B.choice('kind', KINDS), c=B.choice('c', [0, 1]), symbolic=B.symbolic)
        if a.kind in ('local', 'local_batch') and a.c: raise Reject()
        a.n = B.int('n', 1, None if B.symbolic else 9); a.i = B.int('i', 0, None if B.symbolic else 8)
        B.assume(a.i < a.n)
        a.first = 0; a.gridlast = True
        if self.module == EX:
            a.first = B.int('first', 0, None if B.symbolic else 12); a.gridlast = B.choice('gridlast', [True, False]); a.i = a.first + a.i
        if a.kind == 'prior': B.assume(And(Eq(a.i, a.first + a.n - 1), a.gridlast))
        a.land = B.choice('land', [0, 1]); a.glob = B.choice('glob', [1, 0]) if not B.symbolic else 1 - a.land
        a.rnd = None if B.symbolic else random.Random(B.int('seed', 0, 10 ** 9))
        a.plan = Plan(names(a.rnd), a.n, '18500101', '20151231', a.land, a.glob, self.module, a.first, a.gridlast)
        return a
    def run(self, M, a):
        p = a.plan
        with quiet(), Text(a.symbolic):
            f = p.filler(M); f.load_templates()
            a.before = copy.deepcopy((f.operation_dict, f.batch_operation_dict, f.output_gridding_dict))
            cmd = lambda s: (p.names[('c', 'l')[a.c] + s + '_cmd'], p.names[('c', 'l')[a.c] + s + '_name'])
            if a.kind == 'measurement': r = f.fill_single_measurement_operation_space_time(a.i, a.c, *cmd('m'))
            elif a.kind == 'measurement_batch': r = f.fill_batch_measurement_operation_space_time(a.i, a.c, *cmd('m'))
            elif a.kind == 'solution': r = f.fill_single_solution_operation_space_time(a.i, a.c, *(cmd('s') + cmd('m')[1:]))
            elif a.kind == 'posterior': r = f.fill_single_posterior_solution_operation_space_time(a.i, a.c, *(cmd('s') + cmd('m')[1:]))
            elif a.kind == 'prior': r = f.fill_single_prior_solution_operation_space_time(a.i, a.c, *(cmd('s') + cmd('m')[1:]))
            elif a.kind == 'local': r = f.fill_single_operation_space(a.i, 2)
            else: r = f.fill_batch_measurement_operation_space(a.i, 2)
        a.after = (f.operation_dict, f.batch_operation_dict, f.output_gridding_dict)
        a.M = M
        return r
    def post(self, C, a, out):
        r, p = out.value, a.plan
        want = dict(measurement=lambda: p.measurement(a.c, a.i), measurement_batch=lambda: p.measurement_batch(a.c, a.i), solution=lambda: p.solution(a.M, a.c, a.i, True), posterior=lambda: p.solution(a.M, a.c, a.i, False),
                    prior=lambda: p.prior(a.M, a.c, a.i), local=lambda: p.local(a.M, a.i), local_batch=lambda: p.local_batch(a.M, a.i))[a.kind]()
        C.holds('keys', set(r) == set(want))
        for k in ('name', 'step', 'python_class'): C.holds(k, deq(r[k], want[k]))
        have, need = r['runmodule'], want['runmodule']
        C.holds('parameters', set(have) == set(need))
        for s in STORES: C.holds('reads_and_writes.' + s, deq(have[s], need[s]))
        C.holds('settings', deq({k: v for k, v in have.items() if k not in STORES}, {k: v for k, v in need.items() if k not in STORES}))
        C.holds('datasets', deq(r['newdatasets'], want['newdatasets']))
        C.holds('templates_kept', a.after == a.before if not a.symbolic else deq(list(a.after), list(a.before)))

@contract
class OperationRun(Operation):
    """the same for the generator of production plans, which may start from an earlier iteration and may leave the samples out"""
    name = 'plan.operation.restart'; module = EX
    functions = tuple(f.replace(JF, EX) for f in Operation.functions)

@contract
class Gridding(Contract):
    """gridding reads state, samples and prior samples of the last iteration of every component and writes the four published datasets"""
    name = 'plan.gridding'; functions = (JF + ':FullstaceJsonFiller.fill_output_gridding', JF + ':FullstaceJsonFiller.fill_batch_output_gridding', EX + ':FullstaceJsonFiller.fill_batch_output_gridding')
    def setup(self, B):
        a = NS(B=B, kind=B.choice('kind', ['single', 'batch', 'restart']), symbolic=B.symbolic)
        a.n = B.int('n', 1, None if B.symbolic else 30); a.first = 0
        if a.kind == 'restart': a.first = B.int('first', 0, None if B.symbolic else 30)
        a.rnd = None if B.symbolic else random.Random(B.int('seed', 0, 10 ** 9))
        a.plan = Plan(names(a.rnd), a.n, '19000101', '19001231', 1, 0, EX if a.kind == 'restart' else JF, a.first)
        return a
    def run(self, M, a):
        with quiet(), Text(a.symbolic):
            f = a.plan.filler(M); f.load_templates()
            if a.kind == 'single': f.fill_output_gridding(); return f.output_gridding_dict
            return f.fill_batch_output_gridding() if a.kind == 'batch' else f.fill_batch_output_gridding(a.plan.last)
    def post(self, C, a, out):
        r = out.value; want = a.plan.gridding() if a.kind == 'single' else a.plan.gridding_batch()
        for k in ('name', 'step', 'python_class', 'newdatasets'): C.holds(k, deq(r[k], want[k]))
        C.holds('parameters', set(r['runmodule']) == set(want['runmodule']))
        for k in sorted(want['runmodule']): C.holds('runmodule.' + k, deq(r['runmodule'][k], want['runmodule'][k]))

@contract
class Sequence(Contract):
    """any number of iterations: each is measurement and solution of the climatology, then of the large scale, then the local component; prior samples follow the last solutions in batch plans, and gridding comes once, at the end; no iterations is refused"""
    name = 'plan.sequence'; functions = (JF + ':FullstaceJsonFiller.fill_descriptor', JF + ':FullstaceJsonFiller.fill_batch_descriptor', EX + ':FullstaceJsonFiller.fill_batch_descriptor'); abstract = True
    GRID = -1
    def setup(self, B):
        a = NS(B=B, kind=B.choice('kind', ['single', 'batch', 'restart']), symbolic=B.symbolic)
        a.n = B.int('n', 0, None if B.symbolic else 9); a.first = B.int('first', 0, None if B.symbolic else 9) if a.kind == 'restart' else 0
        a.plan = Plan(USUAL, a.n, '19000101', '19001231', 1, 0, EX if a.kind == 'restart' else JF, a.first, B.choice('gridlast', [True, False]) if a.kind == 'restart' else True)
        return a
    def code(self, a, j):
        """operation j: 10 * iteration + 0..6 = measurement, solution, (prior), measurement, solution, (prior), local"""
        f = a.first; base = [0, 1, 3, 4, 6]
        q, m = j // 5, j % 5
        v = 10 * (f + q) + If(Eq(m, 0), 0, If(Eq(m, 1), 1, If(Eq(m, 2), 3, If(Eq(m, 3), 4, 6))))
        if a.kind == 'single': return v
        t = j - 5 * (a.n - 1)                       # position in the last iteration
        late = 10 * (f + a.n - 1) + t if a.plan.gridlast else v
        return If(And(a.plan.gridlast, t >= 0), late, v) if a.plan.gridlast else v
    def count(self, a, k):
        if a.kind == 'single' or not a.plan.gridlast: return 5 * k
        return 5 * k + If(And(Eq(k, a.n), k > 0), 2, 0)
    def get_invariants(self, B, a):
        def inv(view):
            nm = next((n for n, v in view.entry.items() if isinstance(v, (list, SymList)) and n not in ('final_dictionary',)), None)
            n = self.count(a, view.k)
            extra = 1 if a.kind == 'restart' and a.plan.gridlast else 0
            if extra:
                n = n + If(And(Eq(view.k, a.n), view.k > 0), 1, 0)
                return Inv(locals={nm: SymList(n, lambda j: If(Eq(j, 5 * a.n + 2), self.GRID, self.code(a, j)))})
            return Inv(locals={nm: SymList(n, lambda j: self.code(a, j))})
        return {'fill_descriptor': inv, 'fill_batch_descriptor': inv, 'FullstaceJsonFiller.fill_descriptor': inv, 'FullstaceJsonFiller.fill_batch_descriptor': inv}
    def run(self, M, a):
        p = a.plan
        with quiet():
            f = p.filler(M)
            of = lambda k: (lambda i, c, *rest: 10 * i + 3 * c + k)
            f.load_templates = lambda: None
            f.fill_single_measurement_operation_space_time = f.fill_batch_measurement_operation_space_time = of(0)
            f.fill_single_solution_operation_space_time = f.fill_single_posterior_solution_operation_space_time = of(1)
            f.fill_single_prior_solution_operation_space_time = of(2)
            f.fill_single_operation_space = f.fill_batch_measurement_operation_space = lambda i, c: 10 * i + 3 * c
            if a.kind == 'single':
                f.output_gridding_dict = 0
                def fill(): f.output_gridding_dict = self.GRID
                f.fill_output_gridding = fill
                return f.fill_descriptor()
            f.fill_batch_output_gridding = lambda *i: self.GRID
            return f.fill_batch_descriptor()
    def post(self, C, a, out):
        if Or(Eq(a.n, 0)):
            C.holds('refused', out.raises(ValueError)); return
        d = out.value; ops = d['operations']
        C.holds('catalogue', d.get('python_class') == 'eumopps.catalogue.catalogue.Catalogue' and set(d) == {'python_class', 'operations'})
        N = self.count(a, a.n)
        C.holds('count', Eq(size(ops), N + (1 if a.plan.gridlast else 0)))
        C.forall('order', (N,), lambda j: Eq(at(ops, j), self.code(a, j)))
        if a.plan.gridlast: C.holds('gridding', Eq(at(ops, N), self.GRID))

def datasets(op, *kinds):
    """names of the datasets that placeholders of the given classes refer to"""
    found = []
    def walk(x):
        if isinstance(x, dict):
            if 'datasetname' in x and any(x['python_class'].endswith('.' + k) for k in kinds): found.append(x['datasetname'])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(op['runmodule']); return found
IN = ('InputFile', 'InputFileList', 'AnnualBatchDays'); OUT = ('OutputFile', 'AnnualBatchDaysOutput')

@contract
class Whole(Contract):
    """the written plan: what an operation reads has been written before, every dataset is created and written by one operation, no two share files, every parameter its function needs is there and no other"""
    name = 'plan.whole'; functions = tuple(m + ':FullstaceJsonFiller.' + f for m in (JF, EX) for f in ('create_descriptor', 'create_batch_descriptor', 'fill_descriptor', 'fill_batch_descriptor', 'check_none', 'load_templates', 'restrict_inputs') if m == JF or f not in ('create_descriptor', 'fill_descriptor'))
    prove = False
    def setup(self, B):
        a = NS(kind=B.choice('kind', ['single', 'batch', 'restart']), n=B.int('n', 0, 7), first=B.int('first', 0, 5), gridlast=B.choice('gridlast', [True, False]), foreign=B.int('foreign', 0, 2), seed=B.int('seed', 0, 10 ** 9), land=B.choice('land', [0, 1]), glob=B.choice('glob', [0, 1]))
        a.rnd = random.Random(a.seed)
        if a.kind != 'restart': a.first, a.gridlast = 0, True
        return a
    def run(self, M, a):
        a.dir = tempfile.mkdtemp(prefix='vf_p23_'); a.M = M
        try:
            for w, f in FILES.items():
                t = json.load(open(os.path.join(TEMPLATES, f)))
                if 'inputsources' in t['runmodule']:
                    for k in range(a.foreign): t['runmodule']['inputsources'].insert(a.rnd.randint(0, len(t['runmodule']['inputsources'])), dict(name='other_%d' % k, observable_filenames={'Tmin': dict(python_class=PH + 'InputFile', datasetname='other')}))
                json.dump(t, open(os.path.join(a.dir, f), 'w'))
            a.plan = Plan(names(a.rnd), a.n, '1%d0101' % a.rnd.randint(850, 999), '2%03d1231' % a.rnd.randint(0, 20), a.land, a.glob, EX if a.kind == 'restart' else JF, a.first, a.gridlast)
            with quiet():
                f = a.plan.filler(M, inpath=a.dir, outpath=a.dir)
                (f.create_descriptor if a.kind == 'single' else f.create_batch_descriptor)('plan.json')
                return json.load(open(os.path.join(a.dir, 'plan.json')))
        finally: shutil.rmtree(a.dir, ignore_errors=True)
    def post(self, C, a, out):
        if a.n == 0:
            C.holds('refused', out.raises(ValueError)); return
        d = out.value; ops = d['operations']; p = a.plan
        want = p.whole(a.M, a.kind != 'single')
        C.holds('catalogue', d.get('python_class') == 'eumopps.catalogue.catalogue.Catalogue')
        C.holds('operations', [o['name'] for o in ops] == [o['name'] for o in want])
        C.holds('distinct', len(set(o['name'] for o in ops)) == len(ops))
        created, written = {}, {}
        mine = set(x for o in want for x in [s['name'] for s in o['newdatasets']])
        earlier = set(s + '_%d' % (a.first - 1) for s in p.sol)
        for k, o in enumerate(ops):
            reads, writes = datasets(o, *IN), datasets(o, *OUT)
            C.holds('written_before', all(r in written or (a.first and r in earlier) or r.startswith(('rawbinary_', 'locationlookup_')) for r in reads))
            C.holds('written_once', len(set(writes)) == len(writes) and not any(w in written for w in writes))
            for w in writes: written[w] = k
            new = [s['name'] for s in o['newdatasets']]
            C.holds('created_by_writer', sorted(new) == sorted(writes))
            C.holds('sources', 'inputsources' not in o['runmodule'] or [s['name'] for s in o['runmodule']['inputsources']] == list(KNOWN))
        paths = [tuple(q['layout']['patterns']) for o in ops for s in o['newdatasets'] for q in s['subsets']]
        C.holds('own_files', len(set(paths)) == len(paths))
        for k, (o, w) in enumerate(zip(ops, want)): C.holds('operation', where(o, w) is None)
        C.holds('all', len(ops) == len(want))
        # parameters against the functions and classes they are for
        for o in ops:
            fn = o['runmodule']['python_function'].rsplit('.', 1)
            sig = inspect.signature(getattr(a.M(fn[0]), fn[1])).parameters
            C.holds('callable', set(k for k, v in o['runmodule'].items() if v is not None and k != 'python_function') == set(sig))
            for s in STORES:
                st = o['runmodule'][s]; cl = st['python_class'].rsplit('.', 1)
                try: inspect.signature(getattr(a.M(cl[0]), cl[1])).bind(**{k: v for k, v in st.items() if k != 'python_class'}); ok = True
                except TypeError: ok = False
                C.holds('storage', ok)

@contract
class Checked(Contract):
    """asked to check, writing a plan raises exactly when something in it is empty; not asked, it never does"""
    name = 'plan.checked'; functions = tuple(m + ':FullstaceJsonFiller.' + f for m, f in ((JF, 'create_descriptor'), (JF, 'create_batch_descriptor'), (EX, 'create_batch_descriptor'))); prove = False; weight = .3
    def setup(self, B): return NS(kind=B.choice('kind', ['single', 'batch', 'restart']), n=B.int('n', 1, 3), empty=B.choice('empty', [False, True]), check=B.choice('check', [False, True]), depth=B.int('depth', 0, 2))
    def run(self, M, a):
        d = tempfile.mkdtemp(prefix='vf_p23_')
        try:
            for w, f in FILES.items():
                t = json.load(open(os.path.join(TEMPLATES, f)))
                if a.empty: t['runmodule']['covariates_descriptor'] = [None, [1, None], {'x': [{'y': None}]}][a.depth]
                json.dump(t, open(os.path.join(d, f), 'w'))
            p = Plan(USUAL, a.n, '19000101', '19001231', 1, 1, EX if a.kind == 'restart' else JF, 0, a.kind != 'restart')
            with quiet():
                f = p.filler(M, inpath=d, outpath=d)
                a.exists = False
                try: (f.create_descriptor if a.kind == 'single' else f.create_batch_descriptor)('plan.json', check_none=a.check)
                finally:
                    if os.path.exists(os.path.join(d, 'plan.json')): a.plan = json.load(open(os.path.join(d, 'plan.json')))
        finally: shutil.rmtree(d, ignore_errors=True)
    def post(self, C, a, out):
        if not a.check: C.holds('written', not out.raised and 'operations' in a.plan); return
        def empty(x): return x is None or any(map(empty, x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()))
        if hasattr(a, 'plan'): C.holds('checked', out.raises(ValueError) == empty(a.plan))
        if a.empty: C.holds('refused', out.raises(ValueError))
        else: C.holds('complete', out.raises(ValueError) or not out.raised)
        if a.kind != 'batch' and not a.empty: C.holds('accepted', not out.raised)

@contract
class CheckNone(Contract):
    """a descriptor is complete exactly when nothing in it, at any depth, is empty"""
    name = 'plan.check_none'; functions = tuple(m + ':FullstaceJsonFiller.check_none' for m in (JF, EX)); prove = False
    def setup(self, B):
        a = NS(seed=B.int('seed', 0, 10 ** 9), module=B.choice('module', [JF, EX])); rnd = random.Random(a.seed)
        a.none = 0
        def tree(d):
            r = rnd.random()
            if d == 0 or r < .3:
                v = rnd.choice([0, 1, '', 'x', False, 0.0, None]) if rnd.random() < .5 else 'v'
                a.none += v is None
                return v
            if r < .65: return {('k%d' % k): tree(d - 1) for k in range(rnd.randint(0, 3))}
            return [tree(d - 1) for k in range(rnd.randint(0, 3))]
        a.d = tree(rnd.randint(0, 4))
        return a
    def run(self, M, a):
        with quiet(): return M(a.module).FullstaceJsonFiller.check_none(a.d)
    def post(self, C, a, out):
        if a.none: C.holds('refused', out.raises(ValueError))
        else: C.holds('accepted', not out.raised)
