"""P03 - file names encode times faithfully"""
import datetime, io, os, random, re, shutil, tarfile, tempfile
from .. import sdt, sym
from ..contract import Contract, NS, Reject
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift, OutOfSubset
from .common import contract_list
from .p05 import quiet

CONTRACTS, contract = contract_list()
NUM, DIC, NAM = 'eumopps.timeutils.datetime_numeric', 'eumopps.timeutils.datetime_dictionary', 'eumopps.catalogue.namepatterns'
DS, ST, STEP = 'eumopps.catalogue.dataset', 'eumopps.catalogue.storage', 'eumopps.catalogue.step'
FB, SF = 'eustace.outputformats.globalfield_filebuilder', 'eustace.analysis.advanced_standard.components.storage_files'
CON = 'eustace.analysis.advanced_standard.fileio.observation_structure_source_connector'
DEFS = 'eustace.outputformats.definitions'
PRELOAD = (NUM, DIC, NAM, DS, ST, STEP)
BUDGET = dict(quick=dict(search=60), thorough=dict(search=400))
ASSUMPTIONS = ('patterns name the time fields from the year down without gaps (%Y, then %m, %d, %H, %M, %S as far as wanted, in any order of appearance) and each field once per pattern; literal text holds letters, digits and ._-/ only, names hold no % or newline',
               'the trailing part of a name behind the pattern is free: the search matches the beginning of a name (as the existing tests require for parent patterns)',
               'a digit of a symbolic field is one opaque character; regular expressions over such text are decided only when the outcome does not depend on the digit values')
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')
LETTER = dict(zip('YmdHMS', FIELDS))
WIDTH = dict(zip('YmdHMS', (4, 2, 2, 2, 2, 2)))
DT = datetime.datetime

def canon(s):
    """symbolic numbers written with a zero padded format become digits"""
    if '\x01' not in s: return s
    def rep(m):
        z, spec = sdt.FMT[int(m.group(1))]
        w = re.match(r'^\.?0?([24])d$|^0([24])$', spec)
        if not w: raise OutOfSubset('formatted number ' + spec)
        w = int(w.group(1) or w.group(2))
        if sym.ctx().feasible(sym.zbool(Not(z3and(z, w)))): raise OutOfSubset('width of a formatted number')
        return sdt.digits(wrapz(z), w)
    return sdt.TOKEN.sub(rep, s)
def z3and(z, w): return And(wrapz(z) >= 0, wrapz(z) < 10 ** w)
def num(s): return sdt.symint(s) if sdt.has_digits(s) else int(s)
def same_text(a, b):
    """equality of two texts of the same length holding digits"""
    a, b = canon(a), canon(b)
    if len(a) != len(b): return False
    out = []
    for x, y in zip(a, b):
        if x == y: continue
        d = '0123456789'
        if not all(c in d or c in sdt.DIGITS for c in (x, y)): return False
        out.append(Eq(num(x), num(y)))
    return And(*out) if out else True
def truncated(t, k):
    """(year, month, day, hour, minute, second) with everything from field k on at its minimum"""
    v = [t.year, t.month, t.day, t.hour, t.minute, t.second]
    return [v[j] if j < k else (1 if j < 3 else 0) for j in range(6)]
def is_time(x, v): return And(Eq(x.year, v[0]), Eq(x.month, v[1]), Eq(x.day, v[2]), Eq(x.hour, v[3]), Eq(x.minute, v[4]), Eq(x.second, v[5]), Eq(x.microsecond, 0))
def fill(pattern, t):
    """pattern with the fields of t (left to right, one pass)"""
    v = dict(zip('YmdHMS', truncated(t, 6)))
    return re.sub('%([YmdHMS])', lambda m: sdt.digits(v[m.group(1)], WIDTH[m.group(1)]), pattern)
def depth(*patterns): return max([0] + ['YmdHMS'.index(c) + 1 for p in patterns for c in re.findall('%([YmdHMS])', p)])

@contract
class Numeric(Contract):
    """fourteen digits YYYYmmddHHMMSS, read back as the same time to the second; the order of texts is the order of times"""
    name = 'datetime_numeric.roundtrip'; functions = (NUM + ':build', NUM + ':parse')
    weight = 3
    def setup(self, B): return NS(t=B.datetime('t'))
    def run(self, M, a):
        m = M(NUM)
        s = m.build(a.t)
        return s, m.parse(canon(s)), m.build(m.parse(canon(s)))
    def post(self, C, a, out):
        s, t, again = out.value
        C.holds('digits', same_text(s, fill('%Y%m%d%H%M%S', a.t)))
        C.holds('same_time', is_time(t, truncated(a.t, 6)))
        if not C.symbolic: C.holds('same_text', again == s)

@contract
class NumericText(Contract):
    """every text of fourteen digits is a time written back as that text, or refused"""
    name = 'datetime_numeric.parse'; functions = (NUM + ':parse', NUM + ':build')
    prove = False; weight = 4
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed); m = M(NUM)
        a.text = near_date(r, '%04d%02d%02d%02d%02d%02d')
        try: return m.build(m.parse(a.text))
        except ValueError: return None
    def post(self, C, a, out):
        v = [int(a.text[:4])] + [int(a.text[k:k + 2]) for k in range(4, 14, 2)]
        try: DT(*v); ok = True
        except ValueError: ok = False
        C.holds('valid_or_refused', out.value == (a.text if ok else None))

def near_date(r, fmt):
    y = r.choice([1, 999, 1850, 1900, 1901, 1999, 2000, 2004, 2015, 9999, r.randrange(0, 10000), r.randrange(1850, 2030)])
    return fmt % (y, r.choice([0, 1, 2, 2, 2, 6, 12, 13, r.randrange(100)]), r.choice([0, 1, 28, 29, 30, 31, 32, r.randrange(100)]), r.choice([0, 23, 24, r.randrange(100)]), r.choice([0, 59, 60, r.randrange(100)]), r.choice([0, 59, 60, 61, r.randrange(100)]))

PATTERNS = ('%Y%m%d', '%Y', 'eustace_%Y%m%d%H%M%S.nc', 'a/%Y/%m/b_%Y-%m-%d.nc', 'x%d%m%Y', 'tas_global_0_%Y%m%d.nc', '%H%M%S_%d.%m.%Y', '%Y%m', 'm%m.%Y1', '2012/%Y%m%d%H%M', '%Y%m%d%H', 'none.nc')
@contract
class Build(Contract):
    """every field of the pattern is replaced by that field of the time, the rest is copied"""
    name = 'datetime_numeric.build_from_pattern'; functions = (NUM + ':build_from_pattern',)
    weight = 3
    def setup(self, B): return NS(p=B.choice('p', list(PATTERNS)), t=B.datetime('t'))
    def run(self, M, a):
        return M(NUM).build_from_pattern(a.p, a.t)
    def post(self, C, a, out):
        s = canon(out.value)
        C.holds('text', same_text(s, fill(a.p, a.t)))
        pos, back = 0, []
        for m in re.finditer('%[YmdHMS]|.', a.p):      # the fields can be read off the name, so different times give different names
            w = WIDTH[m.group()[1]] if len(m.group()) > 1 else 1
            if len(m.group()) > 1: back.append(len(s) >= pos + w and Eq(num(s[pos:pos + w]), truncated(a.t, 6)['YmdHMS'.index(m.group()[1])]))
            pos += w
        C.holds('fields_readable', And(*back) if back else True)

@contract
class DictionaryParse(Contract):
    """the fields given, the first of the month or year for those missing, nothing for no fields; an invalid time is refused"""
    name = 'datetime_dictionary.parse'; functions = (DIC + ':parse',)
    weight = 3; dates_in_range = False
    def setup(self, B):
        a = NS(k=B.choice('k', [0, 1, 2, 3, 4, 5, 6]), tag=B.choice('tag', [False, True]))
        a.v = [B.int(f, 0, h) for f, h in zip(FIELDS, (9999, 99, 99, 99, 99, 99))]
        if not B.symbolic:
            r = random.Random(str(a.v))
            if r.random() < .7: a.v = [int(x) for x in near_date(r, '%d %d %d %d %d %d').split()]
        return a
    def run(self, M, a):
        d = {f: sdt.digits(v, w) for f, v, w in list(zip(FIELDS, a.v, (4, 2, 2, 2, 2, 2)))[:a.k]}
        if a.tag: d['A'] = 'second'
        a.d = dict(d)
        return M(DIC).parse(d), d
    def post(self, C, a, out):
        y, m, d, H, Mi, S = [a.v[j] if j < a.k else (1 if j < 3 else 0) for j in range(6)]
        leap = And(Eq(y % 4, 0), Or(Not(Eq(y % 100, 0)), Eq(y % 400, 0)))
        last = If(Or(Eq(m, 4), Eq(m, 6), Eq(m, 9), Eq(m, 11)), 30, If(Eq(m, 2), If(leap, 29, 28), 31))
        valid = Or(a.k == 0, And(y >= 1, m >= 1, m <= 12, d >= 1, d <= last, H <= 23, Mi <= 59, S <= 59))
        if out.raises(ValueError): C.holds('refused_only_if_invalid', Not(valid)); return
        t, d2 = out.value
        C.holds('accepted_only_if_valid', valid)
        C.holds('input_kept', d2 == a.d)
        if a.k == 0: C.holds('no_time', t is None)
        else: C.holds('time', is_time(t, [y, m, d, H, Mi, S]))

ROUNDS = ((['%Y%m%d.nc'], {}, ''), (['a/b_%Y%m%d%H%M%S.nc'], {}, ''), (['%Y/%m/', 'x.%Y-%m-%d.nc'], {}, ''), (['x_%A_%Y%m.nc'], {'A': 'tas'}, ''), (['%A/%B_%d%m%Y.bin'], {'A': 'Land', 'B': 'min'}, ''),
          (['%Y/', 'eustace_%m%d.nc'], {}, ''), (['%Y/%m/', 'x_%Y%m%d%H.nc'], {}, ''), (['%A/%Y/', '%a_%B_%Y%m%d.nc'], {'A': 'GlobTemp', 'B': 'day'}, ''), (['%Y_?_%m.txt'], {}, ''), (['%Y%m%d'], {}, '_v1.nc'), (['%A_%B/%C/', '%a%b%c_%Y%m%d.nc'], {'A': 'Xx', 'B': 'Yy', 'C': 'Z'}, ''), (['%d.%m.%Y_%H%M'], {}, '.nc'))
@contract
class Roundtrip(Contract):
    """a name built from a pattern and a time is found by the search with that pattern and given that time to the fields of the pattern, with its tags"""
    name = 'namepatterns.roundtrip'; functions = (NAM + ':nested_search_patterns', NAM + ':make_search_expression', NAM + ':hash_string_dictionary', NUM + ':build_from_pattern', DIC + ':parse', DS + ':CatalogueFileEntry.from_extracted_text_fields', DS + ':CatalogueDataSubset.append_results', ST + ':DataStorageFiles.match_files')
    weight = 3; max_paths = 400
    def setup(self, B): return NS(which=B.choice('which', list(range(len(ROUNDS)))), t=B.datetime('t'), subset=B.choice('subset', [False, True]))
    def run(self, M, a):
        a.patterns, a.tags, tail = ROUNDS[a.which]
        p = ''.join(a.patterns)
        for k, v in a.tags.items(): p = p.replace('%' + k, v).replace('%' + k.lower(), v.lower())
        a.name = canon(M(NUM).build_from_pattern(p.replace('?', 'q'), a.t)) + tail
        other = M(NAM).NameCandidate('!!')
        c = M(NAM).NameCandidate(a.name)
        if a.subset:
            s = M(DS).CatalogueDataSubset(layout=M(ST).DataStorageFiles(a.patterns))
            s.search('/nowhere', [other, c])
            a.one = len(s.matches) == 1 and not s.value_errors
            e = s.matches[0]
        else:
            r = M(NAM).nested_search_patterns(a.patterns, [other, c])
            a.one = len(r) == 1
            e = M(DS).CatalogueFileEntry().from_extracted_text_fields('', r[0])
        return e, c.is_matched(), other.is_matched()
    def post(self, C, a, out):
        e, m, o = out.value
        C.holds('found_once', bool(a.one and m) and not o)
        C.holds('name', same_text(e.name, a.name))
        C.holds('time', is_time(e.time, truncated(a.t, depth(*a.patterns))))
        C.holds('tags', list(e.tags) == [a.tags[k] for k in 'ABC' if k in a.tags])

@contract
class AnyDigits(Contract):
    """a name with any digits in the places of the fields is an entry of that time, or a value error if they are no time; either way it counts as matched; one with a letter or too few digits there is not"""
    name = 'dataset.append_results'; functions = (DS + ':CatalogueDataSubset.append_results', DS + ':CatalogueDataSubset.append_file_results', DS + ':CatalogueDataSubset.search', DS + ':CatalogueFileEntry.from_extracted_text_fields', ST + ':DataStorageFiles.match_files', NAM + ':nested_search_patterns', NAM + ':make_search_expression', DIC + ':parse')
    weight = 3; max_paths = 600; dates_in_range = False
    SHAPES = (['%Y%m%d.nc'], ['x_%d-%m-%Y'], ['%Y%m%d%H%M%S'], ['%Y/', '%m.%d_%H%M.nc'], ['%Y'], ['%A_%Y%m.nc'], ['%A/', '%a_%Y%m%d%H'])
    def setup(self, B):
        a = NS(which=B.choice('which', list(range(len(self.SHAPES)))), kind=B.choice('kind', ['digits', 'letter', 'short']), at=B.choice('at', [0, 1, 2]))
        a.v = [B.int(f, 0, h) for f, h in zip(FIELDS, (9999, 99, 99, 99, 99, 99))]
        if not B.symbolic:
            r = random.Random(str(a.v))
            if r.random() < .7: a.v = [int(x) for x in near_date(r, '%d %d %d %d %d %d').split()]
        return a
    def run(self, M, a):
        a.p = self.SHAPES[a.which]
        text = ''.join(a.p).replace('%A', 'Tas').replace('%a', 'tas')
        n = len(re.findall('%[YmdHMS]', text)); a.bad = None; k = [0]
        def rep(m):
            c = m.group(1)
            d = sdt.digits(a.v['YmdHMS'.index(c)], WIDTH[c])
            if a.kind != 'digits' and k[0] == a.at % n: d = d[:-1] + ('o' if a.kind == 'letter' else '')
            k[0] += 1
            return d
        a.name = re.sub('%([YmdHMS])', rep, text)
        if a.kind == 'short': a.name = a.name + ('.' if text[-1] in 'YmdHMS' else '')
        if a.kind == 'short' and a.which == 2 and a.at % n != n - 1: a.name = a.name[:-1]
        s = M(DS).CatalogueDataSubset(layout=M(ST).DataStorageFiles(list(a.p)))
        c = M(NAM).NameCandidate(a.name)
        s.search('/nowhere', [c])
        return s, c.is_matched()
    def post(self, C, a, out):
        s, flag = out.value
        if a.kind != 'digits':
            C.holds('not_matching', not s.matches and not s.value_errors and not flag)
            return
        C.holds('matched', bool(flag) and len(s.matches) + len(s.value_errors) == 1)
        k = depth(*a.p)
        y, m, d, H, Mi, S = [a.v[j] if j < k else (1 if j < 3 else 0) for j in range(6)]
        leap = And(Eq(y % 4, 0), Or(Not(Eq(y % 100, 0)), Eq(y % 400, 0)))
        last = If(Or(Eq(m, 4), Eq(m, 6), Eq(m, 9), Eq(m, 11)), 30, If(Eq(m, 2), If(leap, 29, 28), 31))
        valid = And(y >= 1, m >= 1, m <= 12, d >= 1, d <= last, H <= 23, Mi <= 59, S <= 59)
        if s.matches:
            C.holds('entry_only_if_valid', valid)
            C.holds('entry', And(same_text(s.matches[0].name, a.name), is_time(s.matches[0].time, [y, m, d, H, Mi, S])))
        else:
            C.holds('value_error_only_if_invalid', Not(valid))
            C.holds('value_error', same_text(s.value_errors[0], a.name))

# ------------------------------------------------------------------ a separate reading of the pattern language
def tokens(pattern, known):
    out, k = [], 0
    while k < len(pattern):
        c = pattern[k]
        if c == '%' and k + 1 < len(pattern):
            f = pattern[k + 1]; k += 2
            field = LETTER.get(f, f)
            if f in WIDTH or f in 'ABC':
                if field in known: out += [('lit', x) for x in known[field]]
                else: out.append(('num', field, WIDTH[f]) if f in WIDTH else ('any', field))
            elif f in 'abc' and f.upper() in known: out += [('lit', x) for x in known[f.upper()].lower()]
            else: out += [('lit', '%'), ('lit', f)]
        else:
            out.append(('one',) if c == '?' else ('lit', c)); k += 1
    return out
def matcher(toks, s, i=0, j=0):
    """(end, fields) of the first match at the beginning of s, longest tags first; None"""
    if i == len(toks): return j, {}
    t = toks[i]
    if t[0] in ('lit', 'one'):
        return matcher(toks, s, i + 1, j + 1) if j < len(s) and (t[0] == 'one' or s[j] == t[1]) else None
    if t[0] == 'num':
        d = s[j:j + t[2]]
        if len(d) < t[2] or any(c not in '0123456789' for c in d): return None
        r = matcher(toks, s, i + 1, j + t[2])
        return r and (r[0], dict(r[1], **{t[1]: d}))
    for e in range(len(s), j - 1, -1):
        r = matcher(toks, s, i + 1, e)
        if r: return r[0], dict(r[1], **{t[1]: s[j:e]})
    return None
def expected(patterns, name):
    """fields of the name or None"""
    known, rest = {}, name
    if len(patterns) > 1:
        r = matcher(tokens(patterns[0], {}), name)
        if not r: return None
        known, rest = r[1], name[r[0]:]
    r = matcher(tokens(patterns[-1], known), rest)
    return r and dict(known, **r[1])
def entry_of(name, fields):
    """(name, time, tags), or None if the fields are no valid time"""
    k = 0
    while k < 6 and FIELDS[k] in fields: k += 1
    v = [int(fields[f]) for f in FIELDS[:k]]
    try: t = DT(*(v + [1] * (3 - len(v)))) if k else None
    except ValueError: return None
    tags = []
    for c in 'ABC':
        if c not in fields: break
        tags.append(fields[c])
    return name, t, tags

TAGTEXT = ['tas', 'Land', 'a', 'ab', 'b', 'c', 'bc', 'A1', '2012', 'x.y', 'p+q', '(1)', 'm-n', '', 'L_1', '1', '12']
LITS = ['_', '.', '-', '/', 'x', 'tas', '_v1.', '.nc', '0', '12']
def structure(r, single=False):
    """patterns and a maker of names with that form"""
    k = r.randrange(0, 7)
    fields = ['%' + c for c in 'YmdHMS'[:k]]
    tags = ['%A', '%B', '%C'][:r.choice([0, 0, 1, 2, 3])]
    if r.random() < .5: r.shuffle(fields)
    parts = fields + tags
    if r.random() < .5: r.shuffle(parts)
    nested = not single and r.random() < .5
    cut = r.randrange(len(parts) + 1) if nested else 0
    def glue(ps):
        s = ''
        for p in ps: s += (r.choice(LITS) if r.random() < .6 else '') + p
        return s + (r.choice(LITS + ['?', '?.nc']) if r.random() < .7 else '')
    if nested:
        first = glue(parts[:cut])
        child = list(parts[cut:])
        for p in parts[:cut]:
            if r.random() < .5: child.insert(r.randrange(len(child) + 1), p)
            if p[1] in 'ABC' and r.random() < .4: child.insert(r.randrange(len(child) + 1), p.lower())
        return [first + '/', glue(child)]
    return [glue(parts) or 'x']
def related(r, sub):
    """fields that differ in one respect which is easily lost"""
    sub = dict(sub); c = r.choice('ABC'); o = r.choice('ABC'); m = r.randrange(8)
    if m == 0: sub[c] = sub[c].swapcase()
    elif m == 1: sub[c] = sub[c].lower()
    elif m == 2: sub[c], sub[o] = sub[o], sub[c]
    elif m == 3 and sub[c]: sub[o], sub[c] = sub[o] + sub[c][:1] if o != c else sub[o], sub[c][1:] if o != c else sub[c]
    elif m == 4: sub[c] = ''.join(x for x in sub[c] if x.isalnum())
    elif m == 5: sub[c] += r.choice([' ', '_', '0', 'x'])
    elif m == 6: f = r.choice('mdHM'); sub[f] = '%02d' % r.choice([1, 2, 10, 11, 12, 20])
    else: sub['Y'] = r.choice(['1999', '2000', '2012', '0012'])
    return sub
def instance(r, patterns, kept=None):
    """a name of the form of the patterns (the time perhaps invalid)"""
    d = near_date(r, '%04d %02d %02d %02d %02d %02d').split()
    if r.random() < .6: d = [r.choice(['1999', '2012', '2013']), r.choice(['01', '02', '12']), r.choice(['01', '09', '28']), '%02d' % r.randrange(24), '%02d' % r.randrange(60), '59']
    sub = dict(zip('YmdHMS', d)); sub.update({c: r.choice(TAGTEXT) for c in 'ABC'})
    if kept is not None:
        if kept and r.random() < .5: sub = related(r, kept[-1])
        kept.append({k: v for k, v in sub.items() if k not in 'abc'})
    sub.update({c.lower(): sub[c].lower() for c in 'ABC'})
    s = re.sub('%(.)', lambda m: sub[m.group(1)], ''.join(patterns)).replace('?', r.choice(['q', '7', '.']))
    if r.random() < .2: s += r.choice(['.gz', '1', '_b', '/x'])
    return s
def spoil(r, s):
    k = r.randrange(len(s) + 1)
    m = r.random()
    if m < .3 and s: return s[:k] + s[k + 1:]
    if m < .6: return s[:k] + r.choice('0129aXx_./-') + s[k:]
    if m < .8 and k < len(s): return s[:k] + r.choice('0129aXx_./-') + s[k + 1:]
    return r.choice(['x', '1', './']) + s
def names(r, patterns, n):
    l, kept = [], []
    while len(l) < n:
        s = instance(r, patterns, kept)
        while r.random() < .35: s = spoil(r, s)
        if s and s not in l: l.append(s)
        elif r.random() < .2: break
    return l

@contract
class Search(Contract):
    """exactly the names that begin with the form of the patterns are found, each once with its own fields and tags, and flagged as matched; the others are left alone"""
    name = 'namepatterns.nested_search_patterns'; functions = (NAM + ':nested_search_patterns', NAM + ':make_search_expression', NAM + ':hash_string_list', NAM + ':hash_string_dictionary')
    prove = False; weight = 6
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed)
        a.patterns = structure(r); a.names = names(r, a.patterns, r.choice([1, 3, 8]))
        c = [M(NAM).NameCandidate(n) for n in a.names]
        x = M(NAM).nested_search_patterns(list(a.patterns), c)
        return sorted((e.name, sorted(e.fields.items())) for e in x), [k.is_matched() for k in c]
    def post(self, C, a, out):
        got, flags = out.value
        e = [(n, expected(a.patterns, n)) for n in a.names]
        C.holds('found', got == sorted((n, sorted(f.items())) for n, f in e if f is not None))
        C.holds('flags', [bool(f) for f in flags] == [f is not None for n, f in e])

@contract
class Refuse(Contract):
    """no pattern or more than two are refused"""
    name = 'namepatterns.unsupported'; functions = (NAM + ':nested_search_patterns',)
    def setup(self, B): return NS(n=B.choice('n', [0, 3, 4]))
    def run(self, M, a): return M(NAM).nested_search_patterns(['%Y', '%m', '%d', 'x'][:a.n], [M(NAM).NameCandidate('20120203x')])
    def post(self, C, a, out): C.holds('refused', out.raises(ValueError))

@contract
class Directory(Contract):
    """searching a directory: every file is an entry with its time of each subset whose patterns it has, a value error there if its fields are no time, or listed as not matching; archives give the same for their contents"""
    name = 'dataset.search'; functions = (DS + ':CatalogueDataSet.search', DS + ':CatalogueDataSubset.search', DS + ':CatalogueDataSubset.append_results', DS + ':CatalogueDataSubset.append_file_results', DS + ':CatalogueDataSubset.append_archive_contents', DS + ':CatalogueDataSubset.append_archive_unused', DS + ':CatalogueFileEntry.from_extracted_text_fields',
                                                ST + ':DataStorageFiles.match_files', ST + ':DataStorageArchive.match_files', ST + ':DataStorageTar.get_archive_internals', 'eumopps.catalogue.search:find_all_files')
    prove = False; weight = 2
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed); m = M(DS); s = M(ST)
        base = tempfile.mkdtemp(prefix='vf03')
        try:
            a.subsets, a.files = [], []
            kinds = [r.choice(['files', 'files', 'files', 'tar', 'tar-gzip']) for _ in range(r.choice([1, 1, 2, 3]))]
            a.archives = {}
            def put(n, content=b''):
                n = os.path.normpath(n)
                if n.startswith(('/', '..')) or n == '.' or len(n) > 120: return
                full = os.path.join(base, n)
                try:
                    if os.path.exists(full): return
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    with open(full, 'wb') as f: f.write(content)
                except OSError: return
                a.files.append(n); return n
            for k in kinds:
                p = structure(r)
                if k == 'files':
                    a.subsets.append((k, p))
                    for n in names(r, p, r.choice([1, 4])): put(n)
                else:
                    ap, ip = 'arch%d_%%Y.tar' % len(a.subsets), structure(r, True)
                    ip = [re.sub('%[abc]', 'x', ip[0])]
                    inner = [q for q in map(os.path.normpath, names(r, ip, 4)) if not q.startswith(('/', '..')) and q != '.']
                    b = io.BytesIO()
                    with tarfile.open(fileobj=b, mode='w:gz' if k == 'tar-gzip' else 'w') as t:
                        for q in inner: t.addfile(tarfile.TarInfo(q), io.BytesIO())
                    n = put('arch%d_%04d.tar' % (len(a.subsets), r.choice([2012, 1999])), b.getvalue())
                    put('arch_%04d.tar' % 2012)
                    if n: a.archives[n] = inner
                    a.subsets.append((k, [ap] + ip))
            d = m.CatalogueDataSet('d', base, None, [m.CatalogueDataSubset(layout=s.layout_builder(k, dict(patterns=p) if k == 'files' else dict(archivepathname=p[0], internalpathname=p[1]))) for k, p in a.subsets])
            if r.random() < .3: quiet(d.search)
            quiet(d.search)
            return d
        except (OSError, tarfile.TarError): raise Reject()
        finally: shutil.rmtree(base)
    def post(self, C, a, out):
        d = out.value
        a.files = sorted(set(a.files))
        left = set(a.files)
        key = lambda e: (e[0], str(e[1]), e[2])
        for i, ((k, p), s) in enumerate(zip(a.subsets, d.subsets)):
            ok, bad, unused = [], [], []
            for n in a.files:
                if k == 'files': inner, patterns, prefix = [n], p, ''
                else:
                    if n not in a.archives or not matcher(tokens(p[0], {}), n): continue
                    left.discard(n); inner, patterns, prefix = a.archives[n], p[1:], n + ':'
                for q in inner:
                    f = expected(patterns, q)
                    if f is None:
                        if prefix: unused.append(prefix + q)
                        continue
                    left.discard(n)
                    e = entry_of(prefix + q, f)
                    if e: ok.append(e)
                    else: bad.append(q)
            C.holds('matches', sorted(((e.name, e.time, list(e.tags)) for e in s.matches), key=key) == sorted(ok, key=key))
            C.holds('value_errors', sorted(s.value_errors) == sorted(bad))
            C.holds('archive_unused', sorted(x for l in s.archive_unused for x in l) == sorted(unused))
        C.holds('non_matching', sorted(d.non_matching) == sorted(left))

@contract
class Users(Contract):
    """the names given to daily steps, stored states and output fields are those of their patterns and day"""
    name = 'names_of_days'; functions = (STEP + ':StepDaily.filename_from_patterns', FB + ':DatasetAttributesGlobalField.build_pathname', FB + ':DatasetAttributesGlobalField.build_pathname_patterns', SF + ':DelayedSpatialComponentSolutionStorageFlexible_Files.filename_from_patterns')
    PAIRS = (['%Y', 'x_%Y%m%d.nc'], ['%Y/%m', 'tas_%d.%m.%Y.nc'], ['x', '%H%M%S_%Y%m%d'], ['%Y%m%d'])
    def setup(self, B): return NS(day=B.int('day', 0, 90000), which=B.choice('which', [0, 1, 2, 3]), user=B.choice('user', ['step', 'storage', 'field']))
    def run(self, M, a):
        a.p = self.PAIRS[a.which]
        a.t = M('eustace.timeutils.epoch').epoch_plus_days(a.day)
        if a.user == 'step': return M(STEP).StepDaily(datetime.datetime(1850, 1, 1), datetime.datetime(2100, 1, 1)).filename_from_patterns(a.p, a.t)
        if a.user == 'storage':
            c = M(SF).DelayedSpatialComponentSolutionStorageFlexible_Files
            o = c.__new__(c)
            return o.filename_from_patterns(a.p, a.day)
        c = M(FB).DatasetAttributesGlobalField
        o = c('Col', '1', 'tas', '', '', '', '')
        D = M(DEFS)
        a.p = ['/base', D.GLOBAL_FIELD_SUBDIRECTORY_PATTERN.format(YYYY='%Y'), D.GLOBAL_FIELD_FILENAME_PATTERN.format(variable='tas', collection='col', framework=D.FRAMEWORK_NAME, realisation='0', YYYY='%Y', mm='%m', dd='%d')]
        return o.build_pathname('/base', a.day)
    def post(self, C, a, out): C.holds(a.user, same_text(out.value, fill(os.path.join(*a.p), a.t)))

@contract
class Recognised(Contract):
    """a source is recognised only if all its file names have the form of its pattern"""
    name = 'check_all_candidates'; functions = (CON + ':ObservationStructureSourceConnector.check_all_candidates',)
    prove = False
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = random.Random(a.seed); c = M(CON)
        a.p = r.choice([v for v in c.BIAS_SOURCES_PATTERN_DICTIONARY.values() if isinstance(v, str)] + structure(r, True))
        a.p = re.sub('%[abc]', 'x', a.p)
        a.names = names(r, [a.p], r.choice([0, 1, 2, 4]))
        o = c.ObservationStructureSourceConnector.__new__(c.ObservationStructureSourceConnector)
        o.observable_filenames = list(a.names)
        return o.check_all_candidates(a.p)
    def post(self, C, a, out): C.holds('all_names', bool(out.value) == all(expected([a.p], n) is not None for n in a.names))
