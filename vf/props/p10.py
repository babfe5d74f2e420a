"""P10 - the raw binary observation store"""
import datetime, io, os, shutil, struct, tempfile, types, uuid
import numpy as np
from .. import sdt, sym, snp
from ..contract import Contract, NS, Reject
from ..load import Inv, SymList
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift, OutOfSubset
from .common import contract_list, Only, Shadow, elem
from .p04 import size, at

RAW = 'eustace.analysis.fileio.observationsource_rawbinary'
PTR = 'eustace.analysis.fileio.locationpointers'
OBS = 'eustace.analysis.observationsource'
CNT = 'eustace.analysis.obscount'
PREP = 'eustace.analysis.preparelocationpointers'
PLOC = 'eustace.analysis.preparelocationlookup'
PCOR = 'eustace.analysis.preparecorrelationranges'
PMOB = 'eustace.analysis.preparedailymobile'
CONTRACTS, contract = contract_list()
ASSUMPTIONS = ('binary files behave as under Python 2 (the language of the repository): reading gives text that compares equal to the text written',)
F8 = 'f8'
EPOCH = datetime.datetime(1850, 1, 1)
U = [uuid.UUID(int=0x1234567890abcdef1234567890abcdef), uuid.UUID(int=0xfedcba0987654321fedcba0987654321)]

# ---- files: Python 2's over real files (concrete), sequences of the items written (symbolic)
class Text(bytes):
    """what Python 2's read() gives: equal to text of the same characters"""
    def __eq__(self, o): return bytes.__eq__(self, o.encode('latin-1') if isinstance(o, str) else o)
    def __ne__(self, o): return not self == o
    __hash__ = bytes.__hash__
class File2(io.FileIO):
    def __init__(self, name, mode='r'): io.FileIO.__init__(self, name, mode.replace('b', ''))
    def read(self, n=-1): return Text(io.FileIO.read(self, n))
    def write(self, x): return io.FileIO.write(self, x.encode('latin-1') if isinstance(x, str) else x)
    def seek(self, o, w=0): return io.FileIO.seek(self, int(o), w)
class Ghost:
    """a file as the sequence of items written: header text of known length and structured arrays"""
    store = None
    def __init__(self, name, mode='r'):
        self.chunks = []
        if 'w' in mode: Ghost.store[name] = self.chunks
        elif name not in Ghost.store: raise IOError(name)
        else: self.chunks = Ghost.store[name]
        self.pos = 0
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def write(self, x): self.chunks.append(x)
    def vf_records(self, r): self.chunks.append(r)
    def read(self, n):
        c = self.chunks[self.pos]
        if isinstance(c, snp.SRec) or len(c) != n: raise OutOfSubset('read across items')
        self.pos += 1
        return c
    def vf_numpy(self, name, f, *a, **k):
        if name != 'fromfile' or len(a) > 2: raise OutOfSubset(name)
        dt = k.get('dtype', a[1] if len(a) > 1 else None)
        dt = np.dtype([(str(x[0]),) + tuple(getattr(t, '_vf_type', t) for t in x[1:]) for x in dt])
        c = self.chunks[self.pos]
        if not isinstance(c, snp.SRec) or c.dtype != dt or 'count' in k: raise OutOfSubset('records of another type')
        self.pos += 1
        return c.copy()
    def length(self, c): return c.nbytes if isinstance(c, snp.SRec) else len(c)
    def tell(self):
        t = 0
        for c in self.chunks[:self.pos]: t = t + self.length(c)
        return t
    def seek(self, o, w=0):
        if w == 2 and isinstance(o, int) and o == 0: self.pos = len(self.chunks)
        else: raise OutOfSubset('seek')
    def close(self): pass
def files(B, a, *mods):
    """stubs: file access of the modules"""
    if B.symbolic: Ghost.store = {}
    op = Ghost if B.symbolic else File2
    st = {}
    for m in mods: st.update({m + ':_py2_open': Shadow(op), m + ':open': Shadow(op)})
    if B.symbolic: st[RAW + ':ensuredirectory'] = Only(lambda p: None)
    return st
class Scratch:
    def __enter__(self): self.d = tempfile.mkdtemp(prefix='vf_p10_'); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d)

SPECIAL = [0.0, -0.0, 1e308, 5e-324, float('inf'), float('-inf'), float('nan'), 273.15]
def bits(x, y): return struct.pack('<d', float(x)) == struct.pack('<d', float(y))
def vals(r): return r.choice(SPECIAL) if r.random() < .2 else r.uniform(-300, 300)
def obsarrays(B, n, nc):
    a = NS(n=n, nc=nc)
    a.mask = B.array('mask', (n,), bool)
    a.loc = B.array('loc', (n,), np.uint64, 0) if B.symbolic else B.array('loc', (n,), np.uint64, gen=lambda r: r.choice([0, 1, 2, 2 ** 40, 2 ** 63 + 5, 7]))
    a.time = B.array('time', (n,), F8, 0, 40000) if B.symbolic else B.array('time', (n,), F8, gen=lambda r: r.choice([100., 100., 100.5, 100.99, 99., 101., 99.99]))
    a.value = B.array('value', (n,), F8, gen=vals); a.unc = B.array('unc', (n,), F8, gen=vals); a.corr = [B.array('corr%d' % k, (n,), F8, gen=vals) for k in range(nc)]
    return a
def keepmask(a): return snp.logical_and(a.mask == False, a.time.astype(np.int32) == a.day)

@contract
class ObsRoundTrip(Contract):
    """a day written and read back: exactly the valid observations of that day, bit for bit and in order; another location table's file is refused"""
    name = 'observations.roundtrip'
    functions = tuple(RAW + ':' + f for f in ('ObservationRawBinaryWriter.write_day', 'ObservationRawBinaryWriter.populate_output_structure', 'ObservationRawBinaryWriter.build_dtype', 'ObservationRawBinaryReader.read_day', 'ObservationRawBinaryReader.read_contents',
        'ObservationRawBinaryReader.read_location_ids', 'ObservationRawBinaryReader.read_observation_count', 'ObservationRawBinaryReader.build_observations_instance', 'RawBinaryReader.read_header_from_stream', 'RawBinaryLocationCategoryReader.read_header_from_stream', 'RawBinaryReader.count_remaining'))
    weight = 2
    def setup(self, B):
        nc = B.choice('nc', [0, 1, 2])
        a = obsarrays(B, B.size('n', 0, 8), nc)
        a.day = B.int('day', 0) if B.symbolic else B.choice('day', [100, 100, 99, 3])
        a.scalar = False if B.symbolic else B.choice('scalar', [False, False, True])
        a.u, a.v = B.choice('u', U), B.choice('v', U)
        return a
    def stubs(self, B, a):
        a.symbolic = B.symbolic
        return files(B, a, RAW)
    def run(self, M, a):
        R = M(RAW)
        def go(path):
            c = lambda x: x.copy()
            o = M(OBS).Observations(c(a.mask), np.float64(a.day + .25) if a.scalar else c(a.time), c(a.loc), c(a.value), c(a.unc), [c(x) for x in a.corr])
            R.ObservationRawBinaryWriter().write_day(path, a.u, o, a.day)
            rd = R.ObservationRawBinaryReader(a.nc)
            raw = None
            if path != 'F':
                with open(path, 'rb') as f: raw = f.read()
            count = rd.read_observation_count(path)
            o = rd.read_day(path, a.v, a.day)
            return o, rd.read_location_ids(path, a.v), count, raw
        if a.symbolic: return go('F')
        with Scratch() as d: return go(d + '/sub/day.bin')
    def post(self, C, a, out):
        if a.u != a.v: C.holds('other_table_refused', out.raised); return
        o, ids, count, raw = out.value
        if C.symbolic:
            p = snp.compress_of(keepmask(a)); n = p.count
            src = lambda x, k: wrapz(x.at((p.sel(lift(k))[0],)))
            eq = Eq
        else:
            I = [i for i in range(a.n) if not a.mask[i] and (a.scalar or int(a.time[i]) == a.day)]; n = len(I)
            src = lambda x, k: x[I[k]]
            eq = bits
        C.holds('count', Eq(count, n)); C.holds('time', Eq(o.time, a.day))
        fs = [('location', o.location, a.loc), ('ids', ids, a.loc), ('value', o.measurement, a.value), ('uncertainty', o.uncorrelatederror, a.unc)] + [('correlated%d' % k, f, g) for k, (f, g) in enumerate(zip(o.locallycorrelatederror, a.corr))]
        C.holds('components', len(o.locallycorrelatederror) == a.nc)
        C.holds('mask_size', Eq(size(o.mask), n))
        for nm, got, want in fs:
            C.holds(nm + '_size', Eq(size(got), n))
            if not C.symbolic and size(got) != n: continue
            C.forall(nm, (n,), lambda k, got=got, want=want, nm=nm: (Eq(at(got, k), src(want, k)) if C.symbolic else (int(got[k]) == int(src(want, k)) if nm in ('location', 'ids') else eq(at(got, k), src(want, k)))))
        C.forall('all_valid', (n,), lambda k: Not(at(o.mask, k)) if C.symbolic else not bool(o.mask[k]))
        if not C.symbolic:
            b = b'EUSTACEOBSN00001' + b'NOCODEVERSION   ' + a.u.bytes + b''.join(struct.pack('<Q', int(a.loc[i])) + b''.join(struct.pack('<d', float(x[i])) for x in [a.value, a.unc] + a.corr) for i in I)
            C.holds('bytes', raw == b)

@contract
class LocRoundTrip(Contract):
    name = 'locations.roundtrip'; functions = tuple(RAW + ':' + f for f in ('LocationLookupRawBinaryWriter.write', 'LocationLookupRawBinaryReader.read', 'RawBinaryLocationCategoryReader.read_uuid_and_count', 'RawBinaryLocationCategoryReader.count_remaining', 'LocationLookupWithID.__init__'))
    def setup(self, B):
        n = B.size('n', 0, 8)
        return NS(n=n, table=B.array('table', (2, n), F8, gen=vals), u=B.choice('u', U))
    def stubs(self, B, a):
        a.symbolic = B.symbolic
        return files(B, a, RAW)
    def run(self, M, a):
        R = M(RAW)
        def go(path):
            R.LocationLookupRawBinaryWriter().write(path, R.LocationLookupWithID(a.u, a.table.copy()))
            rd = R.LocationLookupRawBinaryReader()
            raw = None
            if path != 'F':
                with open(path, 'rb') as f: raw = f.read()
            return rd.read(path), rd.read_uuid_and_count(path), raw
        if a.symbolic: return go('F')
        with Scratch() as d: return go(d + '/sub/loc.bin')
    def post(self, C, a, out):
        r, (u, count), raw = out.value
        C.holds('identity', r.uuid == a.u and u == a.u); C.holds('count', Eq(count, a.n))
        C.holds('shape', And(Eq(r.lookuptable.shape[0], 2), Eq(r.lookuptable.shape[1], a.n)))
        if not C.symbolic and tuple(r.lookuptable.shape) != (2, a.n): return
        for k in range(2): C.forall('coordinate%d' % k, (a.n,), lambda j, k=k: Eq(elem(r.lookuptable, k, j), elem(a.table, k, j)) if C.symbolic else bits(r.lookuptable[k, j], a.table[k, j]))
        if not C.symbolic: C.holds('bytes', raw == b'EUSTACELOCN00001' + b'NOCODEVERSION   ' + a.u.bytes + b''.join(struct.pack('<dd', a.table[0, j], a.table[1, j]) for j in range(a.n)))

@contract
class RangeRoundTrip(Contract):
    name = 'ranges.roundtrip'; functions = (RAW + ':LocalCorrelationRangeRawBinaryWriter.write', RAW + ':LocalCorrelationRangeRawBinaryReader.read', RAW + ':RawBinaryReader.read_header_from_stream')
    def setup(self, B):
        n = B.size('n', 0, 5)
        return NS(n=n, r=B.array('r', (n,), F8, gen=vals))
    def stubs(self, B, a):
        a.symbolic = B.symbolic
        return files(B, a, RAW)
    def run(self, M, a):
        R = M(RAW)
        def go(path):
            R.LocalCorrelationRangeRawBinaryWriter().write(path, a.r.copy())
            return R.LocalCorrelationRangeRawBinaryReader().read(path)
        if a.symbolic: return go('F')
        with Scratch() as d: return go(d + '/sub/cor.bin')
    def post(self, C, a, out):
        r = out.value
        C.holds('count', Eq(size(r), a.n))
        if not C.symbolic and size(r) != a.n: return
        C.forall('range', (a.n,), lambda k: Eq(at(r, k), at(a.r, k)) if C.symbolic else bits(r[k], a.r[k]))

def rawfile(path, fmt, body, u=None):
    with open(path, 'wb') as f: f.write(fmt + b'NOCODEVERSION   ' + (u.bytes if u else b'') + body)

@contract
class Refused(Contract):
    """a file with another format identifier is refused by every reader"""
    name = 'format.refused'; functions = tuple(RAW + ':' + f for f in ('RawBinaryReader.read_header_from_stream', 'ObservationRawBinaryReader.read_day', 'LocationLookupRawBinaryReader.read', 'LocalCorrelationRangeRawBinaryReader.read')) + (PTR + ':LocationPointersRawBinaryReader.read_pointer_records',)
    prove = False; weight = .5
    FM = [b'EUSTACEOBSN00001', b'EUSTACELOCN00001', b'EUSTACECORN00001', b'EUSTACELOCP00001', b'EUSTACEOBSN00002', b'EUSTACEOBSN0000', b'eustaceobsn00001', b'']
    def setup(self, B): return NS(kind=B.choice('kind', ['obs', 'ids', 'count', 'loc', 'loccount', 'cor', 'ptr']), fmt=B.choice('fmt', self.FM), n=B.int('n', 0, 3))
    def stubs(self, B, a):
        a.symbolic = B.symbolic
        return files(B, a, RAW, PTR)
    def run(self, M, a):
        R, P = M(RAW), M(PTR)
        with Scratch() as d:
            p = d + '/f'
            rawfile(p, a.fmt, struct.pack('<QQQ', 1, 72, 1) + struct.pack('<QQ', 5, 56) * max(1, a.n) if a.kind == 'ptr' else bytes(24 * a.n), None if a.kind == 'cor' else U[0])
            rd = R.ObservationRawBinaryReader(0)
            return {'obs': lambda: rd.read_day(p, U[0], 5), 'ids': lambda: rd.read_location_ids(p, U[0]), 'count': lambda: rd.read_observation_count(p), 'loc': lambda: R.LocationLookupRawBinaryReader().read(p), 'loccount': lambda: R.LocationLookupRawBinaryReader().read_uuid_and_count(p),
                    'cor': lambda: R.LocalCorrelationRangeRawBinaryReader().read(p), 'ptr': lambda: P.LocationPointersRawBinaryReader().read_pointer_records(p, U[0], 0)}[a.kind]()
    def post(self, C, a, out):
        own = {'obs': 0, 'ids': 0, 'count': 0, 'loc': 1, 'loccount': 1, 'cor': 2, 'ptr': 3}[a.kind]
        if a.fmt == self.FM[own]: out.value; C.holds('accepted', True)
        else: C.holds('refused', out.raised)

@contract
class Pointers(Contract):
    """the pointer table: for each location the days and file offsets of its observations, in the order of the days given; each offset leads to that observation's value"""
    name = 'pointers.roundtrip'; functions = (PTR + ':LocationPointersRawBinaryWriter.__init__', PTR + ':LocationPointersRawBinaryWriter.append_day', PTR + ':LocationPointersRawBinaryWriter.write', PTR + ':LocationPointersRawBinaryReader.read_pointer_records', PREP + ':run', PREP + ':extractdaynumber')
    prove = False; weight = 1.5
    def setup(self, B):
        a = NS(nl=B.int('nl', 1, 5), nd=B.int('nd', 0, 3), nc=B.choice('nc', [0, 1, 2]), wrong=B.choice('wrong', [None, None, None, 'day', 'uuid', 'high', 'negative']))
        a.d0 = B.int('d0', 0, 60000)
        a.rows = [[(B.int('l%d_%d' % (d, k), 0, a.nl - 1), B.real('v%d_%d' % (d, k), -50, 50)) for k in range(B.int('n%d' % d, 0, 5))] for d in range(a.nd)]
        a.ask = B.int('ask', 0, a.nl - 1)
        return a
    def stubs(self, B, a):
        a.symbolic = B.symbolic
        return files(B, a, RAW, PTR)
    def run(self, M, a):
        R, P = M(RAW), M(PTR)
        with Scratch() as d:
            rawfile(d + '/loc', b'EUSTACELOCN00001', bytes(16 * a.nl), U[0]); rawfile(d + '/cor', b'EUSTACECORN00001', struct.pack('<%dd' % a.nc, *([9.] * a.nc)))
            names = []
            for k, rows in enumerate(a.rows):
                nm = d + '/x_%s.bin' % (EPOCH + datetime.timedelta(days=a.d0 + 3 * k)).strftime('%Y%m%d'); names.append(nm)
                rawfile(nm, b'EUSTACEOBSN00001', b''.join(struct.pack('<Q', l) + struct.pack('<d', v) + struct.pack('<%dd' % (1 + a.nc), *([77.] * (1 + a.nc))) for l, v in rows), U[1] if a.wrong == 'day' and k == a.nd - 1 else U[0])
            import contextlib
            with contextlib.redirect_stdout(io.StringIO()): M(PREP).run(d + '/ptr', d + '/loc', d + '/cor', names)
            r = P.LocationPointersRawBinaryReader().read_pointer_records(d + '/ptr', U[1] if a.wrong == 'uuid' else U[0], {'high': a.nl, 'negative': -1}.get(a.wrong, a.ask))
            got = []
            for rec in r:
                k = [i for i in range(a.nd) if a.d0 + 3 * i == int(rec['daynumber'])]
                v = None
                if k:
                    with open(names[k[0]], 'rb') as f: f.seek(int(rec['fileoffset'])); v = struct.unpack('<d', f.read(8))[0]
                got.append((int(rec['daynumber']), v))
            with open(d + '/ptr', 'rb') as f: raw = f.read()
            return got, raw
    def post(self, C, a, out):
        if a.wrong in ('uuid', 'high', 'negative') or (a.wrong == 'day' and a.nd): C.holds('refused', out.raised); return
        got, raw = out.value
        C.holds('records', got == [(a.d0 + 3 * k, v) for k, rows in enumerate(a.rows) for l, v in rows if l == a.ask])
        C.holds('header', raw[:16] == b'EUSTACELOCP00001' and raw[32:48] == U[0].bytes and struct.unpack('<Q', raw[48:56])[0] == a.nl)

@contract
class DayFromName(Contract):
    name = 'pointers.daynumber'; functions = (PREP + ':extractdaynumber',)
    prove = False; weight = .5
    def setup(self, B): return NS(d=B.int('d', 0, 90000), tail=B.choice('tail', ['.bin', '.bin', '.txt', 'bin']), dirn=B.choice('dir', ['', '/a/b_19000101.bin/']))
    def run(self, M, a): return M(PREP).extractdaynumber(a.dirn + 'src_Tmean_' + (EPOCH + datetime.timedelta(days=a.d)).strftime('%Y%m%d') + a.tail)
    def post(self, C, a, out):
        if a.tail != '.bin': C.holds('refused', out.raises(ValueError)); return
        C.holds('day', int(out.value) == a.d)

@contract
class Names(Contract):
    """file names: one per source, observable and day, and the pattern of a day gives that day's name"""
    name = 'filenames'; functions = tuple(RAW + ':ObservationSourceBinaryFilenameGenerator.' + f for f in ('filename_observations', 'filename_mobile_locations', 'filename_local_correlation_ranges', 'filename_patterns_observations', 'filename_patterns_mobile_locations'))
    prove = False; weight = .5
    def setup(self, B): return NS(s=B.choice('s', ['insitu_land', 'surfaceairmodel_ice']), o=B.choice('o', ['Tmean', 'Tmin']), d=B.int('d', 0, 70000))
    def run(self, M, a):
        g = M(RAW).ObservationSourceBinaryFilenameGenerator(a.s, '/base/x')
        return g.filename_observations(a.o, a.d), g.filename_mobile_locations(a.o, a.d), g.filename_local_correlation_ranges(a.o), g.filename_patterns_observations(a.o), g.filename_patterns_mobile_locations(a.o)
    def post(self, C, a, out):
        t = EPOCH + datetime.timedelta(days=a.d)
        ob, mob, cor, po, pm = out.value
        C.holds('observations', ob == t.strftime('/base/x/%s/%%Y/%s_%s_%%Y%%m%%d.bin' % (a.s, a.s, a.o))); C.holds('locations', mob == t.strftime('/base/x/%s/%%Y/%s_%s_mobilelocations_%%Y%%m%%d.bin' % (a.s, a.s, a.o)))
        C.holds('ranges', cor == '/base/x/%s_%s_localcorrelationranges.bin' % (a.s, a.o)); C.holds('patterns', t.strftime(os.path.join(*po)) == ob and t.strftime(os.path.join(*pm)) == mob)

@contract
class Counts(Contract):
    """counting: for every day of the range, inclusive, the number of observations of its file or none; totals and means over the days present"""
    name = 'counts'; functions = (CNT + ':ObsCounter.__init__', CNT + ':ObsCounter.todatetime', CNT + ':ObsCounter.count_all_days', CNT + ':ObsCounter.count_single_day', CNT + ':ObsCounter.read_num_local_correlation_ranges', CNT + ':ObsCounter.summary_statistics', CNT + ':ObsSummaryStatistics.__init__', RAW + ':ObservationRawBinaryReader.read_observation_count')
    prove = False; weight = .7
    def setup(self, B):
        a = NS(d0=B.int('d0', 0, 60000), nd=B.int('nd', 0, 5), nc=B.choice('nc', [0, 1, 3]), text=B.choice('text', [False, True]))
        a.c = [B.choice('c%d' % k, [None, 0, 1, 4]) for k in range(7)]
        return a
    def stubs(self, B, a):
        a.symbolic = B.symbolic
        return files(B, a, RAW)
    def run(self, M, a):
        with Scratch() as d:
            g = lambda k: EPOCH + datetime.timedelta(days=a.d0 + k)
            rawfile(d + '/src_Tmean_localcorrelationranges.bin', b'EUSTACECORN00001', bytes(8 * a.nc))
            for k in range(-1, 6):
                if a.c[k + 1] is None or a.d0 + k < 0: continue
                p = d + g(k).strftime('/src/%Y'); os.makedirs(p, exist_ok=True)
                rawfile(p + g(k).strftime('/src_Tmean_%Y%m%d.bin'), b'EUSTACEOBSN00001', bytes((24 + 8 * a.nc) * a.c[k + 1]), U[0])
            t = (lambda x: x.strftime('%Y%m%d')) if a.text else (lambda x: x)
            c = M(CNT).ObsCounter(d, 'src', 'Tmean', t(g(0)), t(g(a.nd - 1)) if a.nd else t(g(0)))
            return c.count_all_days(), c.summary_statistics()
    def post(self, C, a, out):
        counts, s = out.value
        w = a.c[1:1 + max(1, a.nd)]; p = [x for x in w if x is not None]
        C.holds('counts', [None if x is None else int(x) for x in counts] == w)
        C.holds('summary', s.number_of_days == len(w) and int(s.total_observations) == sum(p) and s.missing_days == len(w) - len(p) and (s.mean_observations_per_day is None if not p else abs(s.mean_observations_per_day - sum(p) / len(p)) < 1e-12))

@contract
class Single(Contract):
    """the single-day source: each observable from its own file with its own ranges, an absent file or table gives no observations"""
    name = 'single_day'; functions = tuple(RAW + ':ObservationSourceSingleDayRawBinary.' + f for f in ('observations', 'observables', 'observation_location_lookup', 'local_correlation_length_scale'))
    prove = False; weight = .7
    def setup(self, B):
        return NS(n=[B.int('n%d' % k, 0, 3) for k in range(2)], nc=[B.choice('nc%d' % k, [0, 1, 2]) for k in range(2)], absent=B.choice('absent', [None, None, 'file', 'table']), ask=B.int('ask', 0, 1), v=B.real('v', -9, 9), wrong=B.choice('wrong', [False, False, False, True]))
    def stubs(self, B, a):
        a.symbolic = B.symbolic
        return files(B, a, RAW)
    def run(self, M, a):
        R = M(RAW)
        with Scratch() as d:
            for k in range(2): rawfile(d + '/f%d' % k, b'EUSTACEOBSN00001', b''.join(struct.pack('<Q', i + 10 * k) + struct.pack('<%dd' % (2 + a.nc[k]), *[a.v + i + 100 * k + 10 * q for q in range(2 + a.nc[k])]) for i in range(a.n[k])), U[1] if a.wrong else U[0])
            spec = {'T%d' % k: R.ObservableFileSpec(None if a.absent == 'file' and k == a.ask else d + '/f%d' % k, [500. * (q + 1) for q in range(a.nc[k])]) for k in range(2)}
            table = np.array([[1., 2.], [3., 4.]])
            s = R.ObservationSourceSingleDayRawBinary(None if a.absent == 'table' else R.LocationLookupWithID(U[0], table), spec, 777)
            return s.observations('T%d' % a.ask), sorted(s.observables()), s.observation_location_lookup(), s.local_correlation_length_scale('T%d' % a.ask)
    def post(self, C, a, out):
        if a.wrong and not a.absent: C.holds('other_table_refused', out.raised); return
        o, names, loc, scale = out.value
        k = a.ask
        C.holds('observables', names == ['T0', 'T1']); C.holds('ranges', list(scale) == [500. * (q + 1) for q in range(a.nc[k])])
        C.holds('table', loc is None if a.absent == 'table' else np.array_equal(loc, [[1., 2.], [3., 4.]]))
        if a.absent: C.holds('nothing', o.number_of_observations() == 0); return
        C.holds('day', int(o.time) == 777 and o.number_of_observations() == a.n[k] and len(o.locallycorrelatederror) == a.nc[k])
        f = lambda x, q: all(abs(float(x[i]) - (a.v + i + 100 * k + 10 * q)) < 1e-9 for i in range(a.n[k]))
        C.holds('values', [int(l) for l in o.location] == [i + 10 * k for i in range(a.n[k])] and f(o.measurement, 0) and f(o.uncorrelatederror, 1) and all(f(c, 2 + q) for q, c in enumerate(o.locallycorrelatederror)))

@contract
class Prepare(Contract):
    """preparation steps: what is written is what the source gives, observations and their location table under one identity"""
    name = 'prepare.steps'; functions = (PLOC + ':run', PCOR + ':run', PMOB + ':run_day')
    prove = False; weight = .5
    def setup(self, B): return NS(step=B.choice('step', ['loc', 'cor', 'mob']), src=B.choice('src', ['insitu_land', 'surfaceairmodel_ice', 'insitu_ocean']), d=B.int('d', 0, 60000), ob=B.choice('ob', ['Tmin', 'Tmax', 'Tmean']))
    def stubs(self, B, a):
        a.log = []; a.out = []
        class Src:
            def __init__(s, *args): a.log.append(args)
            def observations(s, o): a.log.append(('obs', o)); return 'DATA'
            def observation_location_lookup(s): return 'TABLE'
            def local_correlation_length_scale(s, o): a.log.append(('scale', o)); return [1., 2.]
        class W:
            def write_day(s, *args): a.out.append(('day',) + args)
            def write(s, *args): a.out.append(('write',) + args)
        st = {PMOB + ':SOURCECLASS': {'insitu_ocean': Src}, 'eustace.analysis.preparedailyfixed:SOURCECLASS': {'insitu_land': Src, 'surfaceairmodel_ice': Src}}
        st.update({PMOB + ':ObservationRawBinaryWriter': Only(W), PMOB + ':LocationLookupRawBinaryWriter': Only(W), PLOC + ':LocationLookupRawBinaryWriter': Only(W), PCOR + ':LocalCorrelationRangeRawBinaryWriter': Only(W)})
        return st
    def run(self, M, a):
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            if a.step == 'loc':
                if a.src == 'insitu_ocean': a.src = 'insitu_land'
                M(PLOC).run('OUT', 'IN', a.src)
            elif a.step == 'cor': M(PCOR).run('OUT', 'IN', a.src, a.ob)
            else: M(PMOB).run_day('OUT', 'LOC', 'IN', EPOCH + datetime.timedelta(days=a.d), 'insitu_ocean', a.ob)
    def post(self, C, a, out):
        out.value
        if a.step == 'loc': C.holds('locations', len(a.out) == 1 and a.out[0][:2] == ('write', 'OUT') and a.out[0][2].lookuptable == 'TABLE' and isinstance(a.out[0][2].uuid, uuid.UUID) and a.log[0] == (('IN',) if a.src == 'insitu_land' else (['Tmin'], 'IN')))
        elif a.step == 'cor': C.holds('ranges', a.out == [('write', 'OUT', [1., 2.])] and a.log[0] == (('IN',) if a.src != 'surfaceairmodel_ice' else ([a.ob], 'IN')) and ('scale', a.ob) in a.log)
        else:
            day = [x for x in a.out if x[0] == 'day']; loc = [x for x in a.out if x[0] == 'write']
            C.holds('mobile', len(day) == len(loc) == 1 and day[0][1] == 'OUT' and day[0][3] == 'DATA' and int(day[0][4]) == a.d and loc[0][1] == 'LOC' and loc[0][2].lookuptable == 'TABLE' and loc[0][2].uuid == day[0][2] and ('obs', a.ob) in a.log)

class PointerLog:
    """stands for the list of lists: remembers which list each record was appended to"""
    def __init__(self): self.log = SymList(0, lambda k: (0, (0, 0)))
    def __getitem__(self, l):
        me = self
        class One:
            def append(self, x):
                n, e = me.log.n, me.log.elem
                me.log = SymList(n + 1, lambda k: sym.ite(lift(k) == lift(n), (l, tuple(x)), e(k)))
        return One()

@contract
class AppendDay(Contract):
    """for any number of observations: the k-th observation of the day is recorded under its own location with the byte position of its value"""
    name = 'pointers.append_day'; functions = (PTR + ':LocationPointersRawBinaryWriter.append_day',)
    search = False
    assumptions = ('read_location_ids is a callee (observations.roundtrip)',)
    def setup(self, B):
        n = B.size('n', 0)
        return NS(n=n, nc=B.choice('nc', [0, 1, 2, 3]), ids=B.array('ids', (n,), np.int64, 0), day=B.int('day', 0))
    def stubs(self, B, a):
        return {RAW + ':ObservationRawBinaryReader.read_location_ids': lambda self, p, u: a.ids.copy()}
    def want(self, a, k): return (wrapz(a.ids.at((lift(k),))), (a.day, 56 + k * (24 + 8 * a.nc)))
    def get_invariants(self, B, a):
        def inv(view):
            log = SymList(view.k, lambda k: self.want(a, k))
            return Inv(attrs=[(a.log, 'log', log)])
        return {'*': inv}
    def run(self, M, a):
        P = M(PTR)
        w = object.__new__(P.LocationPointersRawBinaryWriter)
        a.log = PointerLog()
        w.pointers = a.log; w.numcorrelationranges = a.nc; w.location_uuid = U[0]
        w.append_day('F', a.day)
        return a.log.log
    def post(self, C, a, out):
        log = out.value
        C.holds('count', Eq(log.n, a.n))
        C.forall('record', (a.n,), lambda k: And(Eq(log.elem(k)[0], self.want(a, k)[0]), Eq(log.elem(k)[1][0], a.day), Eq(log.elem(k)[1][1], self.want(a, k)[1][1])))
