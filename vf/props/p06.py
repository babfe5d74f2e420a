"""P06 - catalogue contents survive being saved and loaded"""
import datetime, io, json, os, random, shutil, tempfile
import numpy as np
from .. import sdt, sym, snp, load
from ..contract import Contract, NS, Reject
from ..load import Inv
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, Only
from .p04 import size, at
from .p05 import quiet

CONTRACTS, contract = contract_list()
CAT = 'eumopps.catalogue.'
REF, PAR, FMT, FMJ, NCO, JSO = CAT + 'datareference', CAT + 'operationparameters', CAT + 'fileio.formatnetcdf', CAT + 'fileio.formatjson', 'eumopps.netcdfobjects.netcdfobjects', 'eumopps.jsonobjects.jsonobjects'
PRELOAD = (CAT + 'step', CAT + 'dataset', CAT + 'catalogue', CAT + 'storage', CAT + 'placeholder', CAT + 'operation', PAR, FMT, FMJ, NCO, JSO)
DT, TD = datetime.datetime, datetime.timedelta
BUDGET = dict(quick=dict(search=50), thorough=dict(search=300))
ASSUMPTIONS = ('text is ASCII without NUL; times are whole seconds (what file names can hold); absent values, empty lists and empty text are not distinguished in catalogue files',
               'netCDF4 and the json module store and return arrays, attributes and text as written (replayed with the installed libraries)')

class Refs:
    """extend of a list of trios"""
    def __init__(self, a): self.a = a
    def __call__(self, view):
        a = self.a
        return Inv(locals=dict(result=load.SymList(view.k * 3, lambda j: trio(a, j))))
def trio(a, j):
    q, m = wrapz(lift(j) / 3), wrapz(lift(j) % 3)
    return If(Eq(m, 0), a.d(q), If(Eq(m, 1), a.s(q), a.e(q)))

@contract
class Integers(Contract):
    """references become their three numbers, in order, one after another"""
    name = 'datareference.reference_list_to_integers'; functions = (REF + ':reference_list_to_integers', REF + ':DataReference.aslist', REF + ':DataReference.__init__')
    def setup(self, B):
        g = lambda r, *k: r.choice([-1, 0, 1, 5, 2 ** 31])
        a = NS(n=B.size('n', 0, 9), d=B.func('d', 1, 'i', gen=g), s=B.func('s', 1, 'i', gen=g), e=B.func('e', 1, 'i', gen=g)); a.symbolic = B.symbolic
        return a
    def get_invariants(self, B, a): return {'reference_list_to_integers': Refs(a)}
    def run(self, M, a):
        m = M(REF)
        mk = lambda k: m.DataReference(a.d(k), a.s(k), a.e(k))
        return m.reference_list_to_integers(load.SymSeq(a.n, mk) if a.symbolic else [mk(k) for k in range(a.n)])
    def post(self, C, a, out):
        l = out.value
        C.holds('three_each', Eq(size(l), 3 * a.n))
        C.forall('dataset', (a.n,), lambda k: Eq(at(l, 3 * k), a.d(k)))
        C.forall('subset', (a.n,), lambda k: Eq(at(l, 3 * k + 1), a.s(k)))
        C.forall('entry', (a.n,), lambda k: Eq(at(l, 3 * k + 2), a.e(k)))

@contract
class FromIntegers(Contract):
    """the numbers of n references are read back as those n references"""
    name = 'datareference.reference_integers_to_list'; functions = (REF + ':reference_integers_to_list', REF + ':DataReference.__init__')
    def setup(self, B):
        a = NS(n=B.size('n', 0, 9), v=B.func('v', 1, 'i', gen=lambda r, *k: r.choice([-1, 0, 1, 5, 2 ** 31]))); a.symbolic = B.symbolic
        return a
    def run(self, M, a): return M(REF).reference_integers_to_list(load.SymList(3 * a.n, a.v) if a.symbolic else [a.v(k) for k in range(3 * a.n)])
    def post(self, C, a, out):
        l = out.value
        C.holds('one_per_trio', Eq(size(l), a.n))
        C.forall('dataset', (a.n,), lambda k: Eq(at(l, k).dataset, a.v(3 * k)))
        C.forall('subset', (a.n,), lambda k: Eq(at(l, k).subset, a.v(3 * k + 1)))
        C.forall('entry', (a.n,), lambda k: Eq(at(l, k).entry, a.v(3 * k + 2)))

# ------------------------------------------------------------------ whole catalogues

WORDS = ['a', 'station 7', 'f_20010101.nc', 'dir/sub/file.bin', 'x' * 70, '0', 'None', '%Y%m%d', 'trailing_', 'a.b.c', '', 'two\nlines', '"quoted"', "it's", 'back\\slash', '[1,2]']
def word(r, empty=True):
    w = r.choice(WORDS)
    return w if w or empty else 'w'
def when(r): return DT(r.choice([1850, 1849, 1700, 1900, 2000, 2015]), r.randrange(1, 13), r.randrange(1, 29), r.choice([0, 0, 12, 23]), r.choice([0, 59]), r.choice([0, 59]))
def maybe(r, v, p=.25): return None if r.random() < p else v

def entries(M, r, json_):
    d = M(CAT + 'dataset')
    nt = r.choice([0, 0, 1, 2, 3])
    gaps = r.choice([0, .3, .8])
    return [d.CatalogueFileEntry(word(r, False) + str(k), maybe(r, when(r), gaps), [word(r, False) for _ in range(nt)] if nt else r.choice([None, []]), maybe(r, '%032x' % r.getrandbits(120), gaps), maybe(r, r.choice([0, 1, 12345, 2 ** 40]), gaps)) for k in range(r.choice([0, 1, 2, 3, 7]))]

def catalogue(M, r, json_):
    d, st = M(CAT + 'dataset'), M(CAT + 'storage')
    sets = []
    for k in range(r.randrange(0, 4)):
        subs = []
        for _ in range(r.randrange(1, 4)):
            lay = st.DataStorageFiles([word(r, False) for _ in range(r.choice([1, 2]))]) if r.random() < .7 else r.choice([st.DataStorageTarGZip, st.DataStorageTar])(word(r, False), word(r, False))
            subs.append(d.CatalogueDataSubset(lay, entries(M, r, json_), [word(r, False) for _ in range(r.choice([0, 0, 2]))], [word(r, False) for _ in range(r.choice([0, 0, 3]))]))
        sets.append(d.CatalogueDataSet('set%d' % k, word(r, False), [word(r, False) for _ in range(r.choice([0, 1, 2]))] or None, subs, [word(r, False) for _ in range(r.choice([0, 0, 2]))]))
    return M(CAT + 'catalogue').Catalogue(sets, identifier='id-%d' % r.randrange(99), operations=[operation(M, r, k, json_) for k in range(r.randrange(0, 3))])

def refrow(r, n): return [x for _ in range(n) for x in (r.randrange(3), r.randrange(2), r.choice([-1, 0, 5, 1000]))]
def operation(M, r, k, json_):
    p, st = M(PAR), M(CAT + 'step')
    n = r.choice([0, 1, 2, 3, 6])
    ragged = r.random() < .5
    run = {'python_function': 'mod.fn%d' % k, 'refs': p.OperationFileReference([refrow(r, 1) for _ in range(n)]),
           'lists': p.OperationFileListReference([refrow(r, r.choice([1, 2, 4]) if ragged else 2) for _ in range(n)]), 'numbers': p.OperationParameterList([r.randrange(-5, 9999) for _ in range(n)]),
           'times': p.OperationParameterList([when(r) for _ in range(n)]), 'text': p.OperationParameterList([word(r, False) for _ in range(n)]), 'reals': p.OperationParameterList([r.choice([0.0, -1.5, 1e300, 273.15]) for _ in range(n)]),
           'stamp': p.OperationTimeStamp(), 'ident': p.OperationCatalogueID(), 'zero': 0, 'number': 17, 'real': -82.444, 'name': word(r, False), 'words': [word(r, False) for _ in range(3)], 'ints': [r.choice([0, 1, -7]) for _ in range(3)], 'floats': [0.5, 0.0, -1e-9],
           'mixed': r.choice([None, [p.OperationTimeStamp(), p.OperationCatalogueID()], [p.OperationCatalogueID(), p.OperationTimeStamp(), p.OperationTimeStamp()]]),
           'holes': r.choice([[1, None, 3], [None, 2, 0], [4, 5, None]]), 'settings': {'inner': 5, 'word': 'w', 'deep': {'x': 1, 'l': ['p', 'q']}}}
    start = when(r)
    step = r.choice([lambda: st.StepOnce(), lambda: st.StepDaily(start, start + TD(max(n - 1, 0)))])()
    return M(CAT + 'operation').Operation(run, step, name=r.choice([None, 'op%d' % k]), toolchain=[word(r, False), 'v'], count=n)

def norm(x):
    """what is compared: classes and members; absent values, empty lists and empty text count as absent"""
    if isinstance(x, (np.generic,)): x = x.item()
    if isinstance(x, np.ndarray): x = x.tolist()
    if isinstance(x, dict): return {str(k): norm(v) for k, v in x.items() if not blank(norm(v))}
    if isinstance(x, (list, tuple)):
        l = [norm(v) for v in x]
        return l
    if isinstance(x, (str, int, float, DT)) or x is None: return None if x == '' else x
    return {'class': type(x).__module__ + '.' + type(x).__name__, **norm(x.__dict__)}
def blank(v): return v is None or (isinstance(v, list) and not v)
def differ(x, y, path=''):
    if type(x) is not type(y) and not (isinstance(x, (int, float)) and isinstance(y, (int, float))): return '%s: %r became %r' % (path, x, y)
    if isinstance(x, dict):
        for k in sorted(set(x) | set(y)):
            d = differ(x.get(k), y.get(k), path + '.' + k)
            if d: return d
    elif isinstance(x, list):
        if len(x) != len(y): return '%s: %d elements became %d' % (path, len(x), len(y))
        for k, (u, v) in enumerate(zip(x, y)):
            d = differ(u, v, path + '[%d]' % k)
            if d: return d
    elif x != y: return '%s: %r became %r' % (path, x, y)

class Box:
    def __enter__(self): self.d = tempfile.mkdtemp(prefix='vf_p06_'); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d)

@contract
class NetCDF(Contract):
    """a catalogue written to NetCDF and read back has the same data sets, file entries (time, size, checksum and tags with the right file), operations and identifier"""
    name = 'formatnetcdf.roundtrip'
    functions = tuple(NCO + ':' + f for f in ('load_object', 'load_object_list', 'read_variable', 'makeobject', 'save_object', 'save_complex_python_object', 'save_simple_python_object', 'save_list_of_simple_python_objects', 'save_list_of_complex_python_objects', 'save_list_of_simple_values', 'save_numeric_list', 'save_datetime_list', 'save_string_list', 'save_string_list2d', 'save_numeric_list2d')) + (FMT + ':CatalogueReaderNetCDF.load', FMT + ':CatalogueWriterNetCDF.save', FMT + ':CatalogueReaderNetCDF.load_identifier', FMT + ':CatalogueReaderNetCDF.load_operation')
    prove = False; weight = 4
    assumptions = ('catalogue files are checked by bounded concrete runs: up to 3 data sets of 3 subsets with 7 files, 2 operations of 6 steps',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9))
    def run(self, M, a):
        r = random.Random(a.seed)
        c = catalogue(M, r, False)
        a.before = norm(c)
        w, rd = M(FMT).CatalogueWriterNetCDF(), M(FMT).CatalogueReaderNetCDF()
        with Box() as box:
            p = os.path.join(box, 'c.nc')
            quiet(lambda: w.save(p, c))
            a.kept = norm(c)
            back = quiet(lambda: rd.load(p))
            ident = rd.load_identifier(p)
            ops = [(o.name, norm(rd.load_operation(p, o.name))) for o in c.operations if o.name]
            counts = [(o.count, rd.operationcount(p, o.name)) for o in c.operations if o.name]
            p2 = os.path.join(box, 'd.nc')
            quiet(lambda: w.save(p2, back))
            again = quiet(lambda: rd.load(p2))
        a.c = c
        return norm(back), ident, ops, norm(again), counts
    def post(self, C, a, out):
        back, ident, ops, again, counts = out.value
        d = differ(a.before, back)
        if d: print(d)
        C.holds('same_catalogue', d is None)
        C.holds('not_changed_by_saving', a.before == a.kept)
        C.holds('identifier', ident == a.c.identifier)
        for name, o in ops: C.holds('operation', differ(norm([x for x in a.c.operations if x.name == name][0]), o) is None)
        C.holds('count', all(x == y for x, y in counts))
        C.holds('saved_again', differ(a.before, again) is None)

@contract
class JSON(Contract):
    """a catalogue written to JSON and read back has the same data sets, file entries, operations and identifier"""
    name = 'formatjson.roundtrip'; functions = tuple(JSO + ':' + f for f in ('save', 'load', 'save_object', 'load_object', 'get_class_id')) + (FMJ + ':CatalogueReaderJSON.load', FMJ + ':CatalogueReaderJSON.loadstream', FMJ + ':CatalogueWriterJSON.save')
    prove = False; weight = 4
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9))
    def run(self, M, a):
        r = random.Random(a.seed)
        c = catalogue(M, r, True)
        a.before = norm(c)
        with Box() as box:
            p = os.path.join(box, 'c.json')
            M(FMJ).CatalogueWriterJSON().save(p, c)
            a.kept = norm(c)
            return norm(M(FMJ).CatalogueReaderJSON().load(p))
    def post(self, C, a, out):
        d = differ(a.before, out.value)
        if d: print(d)
        C.holds('same_catalogue', d is None)
        C.holds('not_changed_by_saving', a.before == a.kept)

@contract
class Paths(Contract):
    """references read from a catalogue file give the path of the file entry they were made for; missing references give none, in place"""
    name = 'formatnetcdf.load_data_pathnames'; functions = (FMT + ':CatalogueReaderNetCDF.load_data_pathnames', PAR + ':OperationFileReference.resolve_single_operation', PAR + ':OperationFileListReference.resolve_single_operation', PAR + ':OperationCatalogueID.resolve_single_operation')
    prove = False; weight = 2
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9))
    def run(self, M, a):
        r = random.Random(a.seed)
        for _ in range(50):
            c = catalogue(M, r, False)
            a.all = [(i, j, k, os.path.join(s.path, m.name)) for i, s in enumerate(c.datasets) for j, u in enumerate(s.subsets) for k, m in enumerate(u.matches)]
            if a.all: break
        else: raise Reject()
        a.rows = []
        for _ in range(r.randrange(1, 6)):
            row = []
            for _ in range(r.choice([1, 1, 2, 5])):
                i, j, k, p = r.choice(a.all)
                row.append((i, j, -1, None) if r.random() < .2 else (i, j, k, p))
            a.rows.append(row)
        par, m = M(PAR), M(REF)
        with Box() as box:
            p = os.path.join(box, 'c.nc')
            quiet(lambda: M(FMT).CatalogueWriterNetCDF().save(p, c))
            ints = [m.reference_list_to_integers([m.DataReference(i, j, k) for i, j, k, _ in row]) for row in a.rows]
            lists = [par.OperationFileListReference(ints).resolve_single_operation(p, q) for q in range(len(ints))]
            single = [par.OperationFileReference([x[:3] for x in ints]).resolve_single_operation(p, q) for q in range(len(ints))]
            a.ident = (c.identifier, par.OperationCatalogueID().resolve_single_operation(p, 0))
        return lists, single
    def post(self, C, a, out):
        lists, single = out.value
        C.holds('own_paths', [list(x) for x in lists] == [[p for _, _, _, p in row] for row in a.rows])
        C.holds('single', single == [row[0][3] for row in a.rows])
        C.holds('identifier', a.ident[0] == a.ident[1])
