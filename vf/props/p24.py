"""P24 - provenance: results come from the recorded, clean code, and the catalogue describes the bytes of its files"""
import contextlib, datetime, io, json, os, random, shutil, stat, sys, tempfile, types
from .. import sdt, sym
from ..contract import Contract, NS, Reject
from ..sym import And, Or, Not, Implies, Eq, Sym, OutOfSubset
from .common import contract_list, Only
from . import p04

CONTRACTS, contract = contract_list()
CAT = 'eumopps.catalogue.'
SVN = 'eumopps.version.svn'
PRELOAD = (SVN, CAT + 'operation', CAT + 'commandrun', CAT + 'build')
ASSUMPTIONS = ['the revision of a directory is what the program svnversion prints there (bounded runs put a stand-in first on PATH)', 'the proofs take the text printed by svnversion as given by a contract: a whole number, or refused']
DT = datetime.datetime
def quiet():
    s = contextlib.ExitStack(); s.enter_context(contextlib.redirect_stdout(io.StringIO())); s.enter_context(contextlib.redirect_stderr(io.StringIO())); return s

def crc(data):
    """the checksum POSIX prescribes for cksum"""
    c = 0
    def add(c, b):
        c ^= b << 24
        for _ in range(8): c = ((c << 1) ^ 0x04C11DB7) & 0xFFFFFFFF if c & 0x80000000 else (c << 1) & 0xFFFFFFFF
        return c
    for b in data: c = add(c, b)
    n = len(data)
    while n: c = add(c, n & 255); n >>= 8
    return c ^ 0xFFFFFFFF
def text(x): return x.decode() if isinstance(x, bytes) else str(x)

class Versions(object):
    """a scratch directory first on PATH with a stand-in for svnversion that prints the file .revision of its working directory, or $VF_REVISION"""
    def __enter__(self):
        self.box = tempfile.mkdtemp(prefix='vf_p24_')
        p = os.path.join(self.box, 'svnversion')
        with open(p, 'w') as f: f.write('#!/bin/sh\nif [ -f .revision ]; then cat .revision; else printf "%s" "$VF_REVISION"; fi\n')
        os.chmod(p, 0o755)
        p = os.path.join(self.box, 'rpm')
        with open(p, 'w') as f: f.write('#!/bin/sh\necho some-package-1\n')
        os.chmod(p, 0o755)
        self.path, self.rev = os.environ.get('PATH', ''), os.environ.get('VF_REVISION')
        os.environ['PATH'] = self.box + os.pathsep + self.path
        return self
    def __exit__(self, *a):
        os.environ['PATH'] = self.path
        os.environ.pop('VF_REVISION', None)
        if self.rev is not None: os.environ['VF_REVISION'] = self.rev
        shutil.rmtree(self.box, ignore_errors=True)

DIRTY = ['%dM', '%d:%d', '%dS', '%dMS', '%dP', '%d:%dM', 'exported', 'Unversioned directory', '', '%d %d', 'R%d', '%d.5', 'None']

# ------------------------------------------------------------------ revision of the code

@contract
class Revision(Contract):
    """a clean working copy is named by its revision number; any other state is refused, or named UNVERSIONED when that was asked for - never named as a revision"""
    name = 'version.get_revision_id'; functions = (SVN + ':get_revision_id', SVN + ':get_revision_id_for_number', SVN + ':set_allow_unversioned_code')
    def setup(self, B): return NS(n=B.int('n', 0, None if B.symbolic else 2 * 10 ** 6), clean=B.choice('clean', [True, False]), allow=B.choice('allow', [False, True]), before=B.choice('before', [False, True]), log=[])
    def stubs(self, B, a):
        if not B.symbolic: return {}
        def parse(x):
            a.log.append(x)
            if not a.clean: raise a.exc()
            return a.n
        return {SVN + ':get_revision_string': lambda p: a.log.append(p) or 'TEXT', SVN + ':parse_revision_string': parse}
    def run(self, M, a):
        m = M(SVN); a.exc = m.RepositoryStateException
        with Versions() as V:
            os.makedirs(os.path.join(V.box, 'copy'))
            if not isinstance(a.n, Sym):
                with open(os.path.join(V.box, 'copy', '.revision'), 'w') as f: f.write('%d%s\n' % (a.n, '' if a.clean else 'M'))
            try:
                m.set_allow_unversioned_code(a.before); m.set_allow_unversioned_code(a.allow)
                a.path = os.path.join(V.box, 'copy')
                return m.get_revision_id(a.path)
            finally: m.set_allow_unversioned_code(False)
    def post(self, C, a, out):
        if C.symbolic:
            if len(a.log) != 2: raise OutOfSubset('revision found another way')
            C.holds('of_the_path', a.log == [a.path, 'TEXT'])
        if a.clean:
            r = out.value
            if C.symbolic:
                if not isinstance(r, str) or not r.startswith('R'): raise OutOfSubset('text of a number')
                C.holds('revision', sdt.same_text(r, 'R' + format(a.n, '06d')) if isinstance(a.n, Sym) else r == 'R%06d' % a.n)
            else: C.holds('revision', r == 'R%06d' % a.n)
        elif a.allow: C.holds('unversioned', out.value == 'UNVERSIONED')
        else: C.holds('refused', out.raised and type(out.exc).__name__ == 'RepositoryStateException')

@contract
class WorkingCopy(Contract):
    """the version of a module is that of the directory it was loaded from, as svnversion prints it there"""
    name = 'version.of_module'
    functions = (SVN + ':get_revision_id_for_module', SVN + ':get_revision_string', SVN + ':parse_revision_string', SVN + ':get_revision_id', 'eumopps.version.codepath:get_module_path', 'eumopps.toolchain:versionlist', 'eustace.toolchain:versionlist')
    prove = False; weight = 0.4
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), clean=B.bool('clean'), allow=B.bool('allow'), which=B.choice('which', ['module', 'eumopps', 'eustace']))
    def run(self, M, a):
        r = random.Random(a.seed); m = M(SVN)
        a.n = r.choice([0, 1, 9, 99999, 123456, 1234567, r.randrange(10 ** 6)])
        d = r.choice(DIRTY)
        a.text = '%d' % a.n if a.clean else d % tuple([a.n, a.n + 3][:d.count('%d')])
        with Versions() as V:
            m.set_allow_unversioned_code(a.allow)
            try:
                os.environ['VF_REVISION'] = a.text + r.choice(['', '\n'])
                if a.which == 'eumopps': return M('eumopps.toolchain').versionlist()[-1]
                if a.which == 'eustace': a.all = [text(x) for x in M('eustace.toolchain').versionlist()]; return a.all[-1]
                at = os.path.join(V.box, 'one', 'deep'); os.makedirs(at)
                for p, t in ((at, a.text), (os.path.dirname(at), '7777'), (V.box, '8888')):
                    with open(os.path.join(p, '.revision'), 'w') as f: f.write(t + '\n')
                return 'module-' + m.get_revision_id_for_module(NS(__file__=os.path.join(at, r.choice(['__init__.py', 'x.pyc']))))
            finally: m.set_allow_unversioned_code(False)
    def post(self, C, a, out):
        if a.which == 'eustace' and not out.raised: C.holds('platform_too', a.all[:-1] == ['some-package-1'])
        if a.clean: C.holds('revision', out.value == '%s-R%06d' % (a.which, a.n))
        elif a.allow: C.holds('unversioned', out.value == a.which + '-UNVERSIONED')
        else: C.holds('refused', out.raised and type(out.exc).__name__ == 'RepositoryStateException')

@contract
class Toolchain(Contract):
    """the code of an operation is the system's and that of the package its function (or module class) belongs to, as they are now"""
    name = 'operation.current_runtime_toolchain'; functions = (CAT + 'operation:Operation.current_runtime_toolchain',)
    def setup(self, B): return NS(kind=B.choice('kind', ['function', 'module']), place=B.choice('place', ['vfprov24', 'vfprov24.deep.down', 'vfother24.vfprov24']), s=[B.int('s%d' % k, 0, 9) for k in range(2)], v=[B.int('v%d' % k, 0, 9) for k in range(3)], now=B.choice('now', [1, 2, 3]))
    def run(self, M, a):
        O, T = M(CAT + 'operation'), M('eumopps.toolchain')
        names = ('vfprov24', 'vfprov24.toolchain', 'vfother24', 'vfother24.toolchain')
        was = T.versionlist
        stack = contextlib.ExitStack(); stack.enter_context(Versions())
        try:
            for n in names: sys.modules[n] = types.ModuleType(n)
            a.state = dict(s=['old'], v=['old']); a.asked = 0; a.free = any(isinstance(x, Sym) for x in a.s)
            def system(): a.asked += 1; return list(a.state['s'])
            if a.free: T.versionlist = system
            else: os.environ['VF_REVISION'] = '1'
            sys.modules['vfprov24'].toolchain = sys.modules['vfprov24.toolchain']; sys.modules['vfother24'].toolchain = sys.modules['vfother24.toolchain']
            sys.modules['vfprov24.toolchain'].versionlist = lambda: ['prov'] + list(a.state['v'])
            sys.modules['vfother24.toolchain'].versionlist = lambda: ['other'] + list(a.state['v'])
            if a.kind == 'function': run = {'python_function': a.place + '.f', 'x': 1}
            else:
                class Module(object):
                    __module__ = a.place
                    def run(s): pass
                run = Module()
            op = O.Operation(run, None, toolchain=['recorded before'])
            op.current_runtime_toolchain()
            a.state = dict(s=a.s, v=a.v[:a.now])
            if not a.free: os.environ['VF_REVISION'] = '%d' % a.s[0]
            return op.current_runtime_toolchain(), op.toolchain
        finally:
            stack.close(); T.versionlist = was
            for n in names: sys.modules.pop(n, None)
    def post(self, C, a, out):
        r, kept = out.value
        if a.free and a.asked != 2: raise OutOfSubset('system versions found another way')
        want = (a.s if a.free else ['eumopps-R%06d' % a.s[0]]) + [a.place.split('.')[0][2:7]] + a.v[:a.now]
        C.holds('length', len(r) == len(want))
        C.holds('system_then_package', And(True, *[(x == y if isinstance(x, str) or isinstance(y, str) else Eq(x, y)) for x, y in zip(r, [{'provi': 'prov', 'prov2': 'prov', 'other': 'other'}.get(x, x) if isinstance(x, str) else x for x in want])]))
        C.holds('record_untouched', kept == ['recorded before'])

contract(p04.RunOne)

# ------------------------------------------------------------------ checksums of files

def contents(r):
    n = r.choice([0, 1, 2, 3, 255, 256, 257, 1000, r.randrange(3000)])
    return bytes(r.choice([0, 10, 255, r.randrange(256)]) for _ in range(n))
@contract
class FileChecksum(Contract):
    """checksum and size recorded for a file are those of its bytes, for any name; a file that is not there has neither"""
    name = 'dataset.file_checksum'; functions = (CAT + 'checksum:Checksum.__init__', CAT + 'dataset:CatalogueFileEntry.compute_checksum', CAT + 'dataset:CatalogueFileEntry.__init__')
    prove = False; weight = 0.6
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9))
    def run(self, M, a):
        r = random.Random(a.seed); D = M(CAT + 'dataset')
        box = tempfile.mkdtemp(prefix='vf_p24_')
        try:
            path = os.path.join(box, r.choice(['data', 'with space', 'd.1'])); os.makedirs(os.path.join(path, 'sub'))
            a.want, es = [], []
            for k in range(r.randint(1, 4)):
                n = r.choice(['', 'sub/']) + r.choice(['f%d.nc', 'name with spaces %d', '-f%d', "it's%d", 'f%d;x', '*%d', '%d 17 x']) % k
                b = contents(r); gone = r.random() < .25
                if not gone:
                    with open(os.path.join(path, n), 'wb') as f: f.write(b)
                a.want.append((n, None if gone else (str(crc(b)), len(b)))); es.append(D.CatalogueFileEntry(n, DT(2000, 1, 1 + k)))
            if r.random() < .5:
                # files change after they were looked at once: the record is that of the bytes there now
                for e in es: (e if r.random() < .5 else D.CatalogueFileEntry(e.name)).compute_checksum(path)
                for k, (n, w) in enumerate(a.want):
                    if w is not None and r.random() < .6:
                        b = bytes(255 - x for x in open(os.path.join(path, n), 'rb').read()) if r.random() < .5 else contents(r)
                        with open(os.path.join(path, n), 'wb') as f: f.write(b)
                        a.want[k] = (n, (str(crc(b)), len(b)))
            for e in es: e.compute_checksum(path)
            return [(e.name, e.checksum, e.size) for e in es]
        finally: shutil.rmtree(box)
    def post(self, C, a, out):
        got = out.value
        C.holds('each', len(got) == len(a.want))
        for (n, w), (m, c, s) in zip(a.want, got):
            C.holds('name', n == m)
            if w is None: C.holds('none_for_a_missing_file', c is None and s is None)
            else: C.holds('checksum', c is not None and text(c) == w[0]); C.holds('size', s is not None and int(s) == w[1])

def command(main, argv):
    try: return main(argv)
    except SystemExit as e: raise RuntimeError('arguments refused: %s' % e)
def describe(box, data, ops, sets=('in',)):
    """a description file of datasets of daily files, and operations over the first"""
    k = 'python_class'
    t = {k: CAT + 'catalogue.Catalogue', 'datasets': [{k: CAT + 'dataset.CatalogueDataSet', 'name': n, 'path': data, 'subsets': [{k: CAT + 'dataset.CatalogueDataSubset', 'layout': {k: CAT + 'storage.DataStorageFiles', 'patterns': ['f_%Y%m%d.nc']}}]} for n in sets],
         'operations': [{k: CAT + 'operation.Operation', 'name': n, 'step': {k: CAT + 'step.StepDaily', 'start': '20000101000000', 'end': '20000103000000'}, 'runmodule': {'python_function': f, 'name': {k: CAT + 'placeholder.InputFile', 'datasetname': sets[0]}}} for n, f in ops]}
    p = tempfile.mktemp(suffix='.json', dir=box)
    with open(p, 'w') as f: json.dump(t, f)
    return p

@contract
class Protected(Contract):
    """building from a description: an existing catalogue is kept as it is unless update or overwrite was asked for; update keeps what it holds and adds, overwrite replaces; checksums are there unless declined; a filter keeps the one dataset named; a missing description changes nothing"""
    name = 'build.command'; functions = (CAT + 'build:build_from_json_file', CAT + 'build:main', CAT + 'build:build', CAT + 'fileio.formatjson:CatalogueReaderJSON.load')
    prove = False; weight = 0.6
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), there=B.bool('there'), mode=B.choice('mode', [None, 'update', 'overwrite']), nosum=B.bool('nosum'), missing=B.choice('missing', [False, False, False, True]), filt=B.choice('filt', [None, None, 'b', 'nowhere']), entry=B.choice('entry', ['call', 'main']))
    def run(self, M, a):
        r = random.Random(a.seed); b = M(CAT + 'build')
        if a.mode == 'update' and not a.there: a.mode = None
        with Versions() as V, quiet():
            os.environ['VF_REVISION'] = '5\n'
            path = os.path.join(V.box, 'cat.nc'); data = os.path.join(V.box, 'data'); os.makedirs(data); a.files = {}
            for k in range(3):
                n = 'f_2000010%d.nc' % (k + 1); a.files[n] = contents(r)
                with open(os.path.join(data, n), 'wb') as f: f.write(a.files[n])
            if a.there: b.build_from_json_file(describe(V.box, data, [], ('old',)), path)
            a.before = open(path, 'rb').read() if a.there else None
            try:
                t = describe(V.box, data, [], ('a', 'b', 'c')); 
                if a.missing: t += 'x'
                if a.entry == 'call': b.build_from_json_file(t, path, dataset_filter=a.filt, update=a.mode == 'update', overwrite=a.mode == 'overwrite', nochecksum=a.nosum)
                else: command(b.main, (['--' + a.mode] if a.mode else []) + (['--nochecksum'] if a.nosum else []) + (['--dataset_filter', a.filt] if a.filt else []) + [t, path])
                M(SVN).set_allow_unversioned_code(False)
                return [(text(x.name), {text(e.name): (None if e.checksum in (None, '') else text(e.checksum)) for s in x.subsets for e in s.matches}) for x in M(CAT + 'fileio.formatnetcdf').CatalogueReaderNetCDF().load(path).datasets]
            finally: a.after = open(path, 'rb').read() if os.path.exists(path) else None
    def post(self, C, a, out):
        bad = a.missing or (a.there and a.mode is None) or a.filt == 'nowhere'
        if bad:
            C.holds('refused', out.raises(ValueError)); C.holds('kept_as_it_was', a.after == a.before); return
        names = (['old'] if a.mode == 'update' else []) + (['b'] if a.filt else ['a', 'b', 'c'])
        got = out.value
        C.holds('datasets', [n for n, _ in got] == names)
        for n, f in got:
            C.holds('files', sorted(f) == sorted(a.files))
            C.holds('checksums', all((c is None) if a.nosum and n != 'old' else c == str(crc(a.files[k])) for k, c in f.items()))

# ------------------------------------------------------------------ from the build of the catalogue to the run

@contract
class BuildAndRun(Contract):
    """a catalogue records the code it was built with; an operation runs with that same code only, or when a mismatch was explicitly allowed; a catalogue is not built with modified code unless that was allowed"""
    name = 'provenance.build_and_run'
    functions = (CAT + 'build:build', CAT + 'build:build_from_json_file', CAT + 'commandrun:commandrun', CAT + 'commandrun:main', CAT + 'operation:Operation.resolve_operation_references', CAT + 'operation:Operation.current_runtime_toolchain', CAT + 'operation:Operation.run', 'eumopps.toolchain:versionlist', SVN + ':set_allow_unversioned_code')
    prove = False; weight = 0.6
    def setup(self, B): return NS(seed=B.int('seed', 0, 10 ** 9), built=B.choice('built', ['clean', 'clean', 'clean', 'dirty']), change=B.choice('change', [None, None, 'system', 'package', 'dirty', 'order', 'fewer', 'more']), allow=B.choice('allow', [False, False, True]), entry=B.choice('entry', ['call', 'main']), buildallow=B.bool('buildallow'), how=B.choice('how', ['object', 'file', 'command']))
    def run(self, M, a):
        r = random.Random(a.seed); m = M(SVN)
        b, cr, d, st, ph, C, op = (M(CAT + x) for x in ('build', 'commandrun', 'dataset', 'storage', 'placeholder', 'catalogue', 'operation'))
        a.calls = []; a.wrote = None; a.problem = None; a.refused = False; a.recorded = None
        names = ('vfprov24', 'vfprov24.toolchain', 'vfprov24.work')
        with Versions() as V, quiet():
            try:
                for n in names: sys.modules[n] = types.ModuleType(n)
                sys.modules['vfprov24'].toolchain, sys.modules['vfprov24'].work = sys.modules['vfprov24.toolchain'], sys.modules['vfprov24.work']
                pkg = ['tool-%d' % r.randrange(5), 'pack-%d' % r.randrange(5)]
                sys.modules['vfprov24.toolchain'].versionlist = lambda: list(pkg)
                sys.modules['vfprov24.work'].f = lambda **k: a.calls.append(k) or 'RESULT'
                n0 = r.randrange(1, 10 ** 6)
                os.environ['VF_REVISION'] = '%d' % n0 + ('M' if a.built == 'dirty' else '') + '\n'
                path = os.path.join(V.box, 'cat.nc'); data = os.path.join(V.box, 'data'); os.makedirs(data)
                a.files = {}
                for k in range(3):
                    a.files['f_2000010%d.nc' % (k + 1)] = x = contents(r)
                    with open(os.path.join(data, 'f_2000010%d.nc' % (k + 1)), 'wb') as f: f.write(x)
                o = op.Operation({'python_function': 'vfprov24.work.f', 'name': ph.InputFile('in')}, M(CAT + 'step').StepDaily(DT(2000, 1, 1), DT(2000, 1, 3)), name='theop')
                m.set_allow_unversioned_code(a.buildallow)
                try:
                    if a.how != 'object':
                        m.set_allow_unversioned_code(False)
                        t = describe(V.box, data, [('theop', 'vfprov24.work.f')])
                        if a.how == 'file': b.build_from_json_file(t, path, allow_unversioned_code=a.buildallow)
                        else: command(b.main, ([] if not a.buildallow else ['--allow_unversioned_code']) + [t, path])
                    else: b.build(C.Catalogue([d.CatalogueDataSet('in', data, None, [d.CatalogueDataSubset(st.DataStorageFiles(['f_%Y%m%d.nc']))])], operations=[o]), path)
                except m.RepositoryStateException: a.refused = True
                finally: m.set_allow_unversioned_code(False)
                a.wrote = os.path.exists(path)
                if a.refused or not a.wrote: return None
                rd = M(CAT + 'fileio.formatnetcdf').CatalogueReaderNetCDF()
                cat = rd.load(path)
                a.recorded = ([text(x) for x in cat.operations[0].toolchain], [text(x) for x in cat.datasets[0].toolchain], {e.name: (text(e.checksum), None if e.size is None else int(e.size)) for s in cat.datasets[0].subsets for e in s.matches})
                sys_ = 'eumopps-' + ('UNVERSIONED' if a.built == 'dirty' else 'R%06d' % n0)
                a.want = ([sys_] + pkg, [sys_])
                rev = '%d' % n0
                if a.change == 'system': rev = '%d' % (n0 + r.choice([-1, 1, 10]))
                if a.change == 'dirty': rev = r.choice(DIRTY); rev = rev % tuple([n0, n0 + 1][:rev.count('%d')])
                if a.change == 'package': pkg[r.randrange(2)] += 'x'
                if a.change == 'order': pkg.reverse()
                if a.change == 'fewer': pkg.pop(r.randrange(2))
                if a.change == 'more': pkg.insert(r.randrange(3), 'new')
                os.environ['VF_REVISION'] = rev + '\n'
                a.clean = a.change != 'dirty'
                now = ['eumopps-R%06d' % int(rev)] + pkg if a.clean else ['eumopps-UNVERSIONED'] + pkg
                a.same = now == a.want[0]
                a.i = r.randrange(3)
                if a.entry == 'main': command(cr.main, [path, 'theop', str(a.i)] + (['--allow_unversioned_code'] if a.allow else []))
                else:
                    m.set_allow_unversioned_code(a.allow)
                    cr.commandrun('STAMP', path, 'theop', a.i, allow_toolchain_mismatch=a.allow)
                return 'ran'
            finally:
                m.set_allow_unversioned_code(False)
                for n in names: sys.modules.pop(n, None)
                a.data = data if 'data' in locals() else None
    def post(self, C, a, out):
        if a.built == 'dirty' and not a.buildallow:
            C.holds('not_built_with_modified_code', a.refused and not a.wrote and not a.calls); return
        C.holds('built', not a.refused and bool(a.wrote))
        C.holds('code_recorded', a.recorded[0] == a.want[0] and a.recorded[1] == a.want[1])
        C.holds('files_recorded', a.recorded[2] == {n: (str(crc(b)), len(b)) for n, b in a.files.items()})
        if out.raised:
            C.holds('refused_for_cause', not a.allow and (not a.same or not a.clean))
            C.holds('refused_runs_nothing', not a.calls)
            return
        C.holds('same_code_or_allowed', a.allow or (a.same and a.clean))
        C.holds('ran_once', len(a.calls) == 1 and a.calls[0] == dict(name=os.path.join(a.data, 'f_2000010%d.nc' % (a.i + 1))))
