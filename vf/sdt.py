"""Symbolic datetime / timedelta / relativedelta.  A datetime is (ordinal day, microsecond of day), both integers;
year/month/day are functions of the ordinal constrained by the Gregorian calendar."""
import calendar, datetime as _dt, re, time as _time
import numpy as np
import z3
from dateutil import relativedelta as _rd
from . import sym, snp
from .sym import Sym, OutOfSubset, ctx, lift, wrapz, kind

D = 86400 * 10**6
IS = z3.IntSort()

def zfd(a, b): return sym.zfloordiv(lift(a), lift(b))

def z_leap(y): return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
def z_before_year(y):
    p = y - 1
    return p * 365 + p / 4 - p / 100 + p / 400
_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def pick(m, table):
    m = z3.simplify(m)
    if z3.is_int_value(m):
        return z3.IntVal(table[max(0, min(11, m.as_long() - 1))])
    out = z3.IntVal(table[11])
    for i in range(10, -1, -1): out = z3.If(m == i + 1, z3.IntVal(table[i]), out)
    return out
def z_before_month(y, m):
    return pick(m, _CUM) + z3.If(z3.And(m > 2, z_leap(y)), z3.IntVal(1), z3.IntVal(0))
def z_dim(y, m):
    return pick(m, _LEN) + z3.If(z3.And(m == 2, z_leap(y)), z3.IntVal(1), z3.IntVal(0))
def z_ordinal(y, m, d):
    y, m, d = lift(y), lift(m), lift(d)
    if all(z3.is_int_value(z3.simplify(v)) for v in (y, m, d)):
        yy, mm, dd = [z3.simplify(v).as_long() for v in (y, m, d)]
        try: return z3.IntVal(_dt.date(yy, mm, 1).toordinal() + dd - 1)
        except ValueError: pass
    return z_before_year(y) + z_before_month(y, m) + d

YEAR, MONTH, DAY = (z3.Function(n, IS, IS) for n in ('cal_year', 'cal_month', 'cal_day'))
def civil(o):
    """ordinal term -> (year, month, day) z3 terms with their defining axiom"""
    o = z3.simplify(o)
    if z3.is_int_value(o):
        d = _dt.date.fromordinal(o.as_long())
        return z3.IntVal(d.year), z3.IntVal(d.month), z3.IntVal(d.day)
    y, m, d = YEAR(o), MONTH(o), DAY(o)
    c = ctx()
    c.define(('civil', o.get_id()), lambda: z3.And(m >= 1, m <= 12, d >= 1, d <= z_dim(y, m), z_ordinal(y, m, d) == o,
             o >= z_before_year(y) + 1, o <= z_before_year(y + 1)))
    c.keep = getattr(c, 'keep', []); c.keep.append(o)
    return y, m, d

def know_civil(o, y, m, d):
    """o was built from a valid (y,m,d): the calendar functions of o are those (uniqueness of the civil date)"""
    o = z3.simplify(o)
    if z3.is_int_value(o): return
    ctx().define(('civil1', o.get_id(), lift(y).get_id(), lift(m).get_id(), lift(d).get_id()),
                 lambda: z3.And(YEAR(o) == lift(y), MONTH(o) == lift(m), DAY(o) == lift(d), lift(m) >= 1, lift(m) <= 12, lift(d) >= 1, lift(d) <= z_dim(lift(y), lift(m)),
                                o >= z_before_year(lift(y)) + 1, o <= z_before_year(lift(y) + 1)))
    ctx().keep = getattr(ctx(), 'keep', []); ctx().keep += [o, lift(y), lift(m), lift(d)]

def all_concrete(*xs): return not snp.has_sym(*xs) and not any(isinstance(x, (STimedelta, SDateTime, SRelDelta)) for x in xs)

def round_half_even(z):
    if kind(z) == 'i': return z
    f = z3.ToInt(z); d = z - z3.ToReal(f)
    return z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))

class STimedelta:
    _vf_sym = True
    def __init__(self, d, us): self.d, self.us = lift(d), lift(us)      # 0 <= us < D
    @property
    def days(self): return wrapz(z3.simplify(self.d))
    @property
    def seconds(self): return wrapz(z3.simplify(self.us / 1000000))
    @property
    def microseconds(self): return wrapz(z3.simplify(self.us % 1000000))
    def total_us(self): return self.d * D + self.us
    def total_seconds(self): return wrapz(z3.ToReal(self.d) * 86400 + z3.ToReal(self.us) / 1000000)
    @staticmethod
    def norm(d, us):
        """us anywhere in (-D, 2D)"""
        us = z3.simplify(us); d = z3.simplify(d)
        lo, hi = us < 0, us >= D
        return STimedelta(z3.simplify(z3.If(lo, d - 1, z3.If(hi, d + 1, d))), z3.simplify(z3.If(lo, us + D, z3.If(hi, us - D, us))))
    def __neg__(s): return STimedelta.norm(-s.d, -s.us)
    def __add__(s, o):
        if isinstance(o, _dt.datetime): return as_sdt(o) + s
        o = td(o)
        if o is None: return NotImplemented
        return STimedelta.norm(s.d + o.d, s.us + o.us)
    __radd__ = __add__
    def __sub__(s, o):
        o = td(o); return NotImplemented if o is None else STimedelta.norm(s.d - o.d, s.us - o.us)
    def __rsub__(s, o):
        if isinstance(o, _dt.datetime): return as_sdt(o) - s
        o = td(o); return NotImplemented if o is None else STimedelta.norm(o.d - s.d, o.us - s.us)
    def __mul__(s, k):
        z = lift(k)
        tot = round_half_even(z3.ToReal(s.total_us()) * z) if kind(z) == 'r' else s.total_us() * z
        tot = z3.simplify(tot)
        return STimedelta(z3.simplify(tot / D), z3.simplify(tot % D))
    __rmul__ = __mul__
    def cmp(s, o, strict, less):
        a, b = (s, o) if less else (o, s)
        return wrapz(z3.Or(a.d < b.d, z3.And(a.d == b.d, a.us < b.us if strict else a.us <= b.us)))
    def __lt__(s, o): return s.cmp(td(o), True, True)
    def __le__(s, o): return s.cmp(td(o), False, True)
    def __gt__(s, o): return s.cmp(td(o), True, False)
    def __ge__(s, o): return s.cmp(td(o), False, False)
    def __eq__(s, o):
        o = td(o); return False if o is None else wrapz(z3.And(s.d == o.d, s.us == o.us))
    def __ne__(s, o): return sym.Not(s == o)
    def __truediv__(s, o):
        o2 = td(o)
        if o2 is not None: return wrapz(z3.ToReal(s.total_us()) / z3.ToReal(o2.total_us()))
        z = lift(o)
        if kind(z) not in 'ir': raise TypeError('timedelta / that')
        tot = z3.simplify(round_half_even(z3.ToReal(s.total_us()) / (z if kind(z) == 'r' else z3.ToReal(z))))
        return STimedelta(z3.simplify(tot / D), z3.simplify(tot % D))
    def __floordiv__(s, o):
        o2 = td(o)
        if o2 is not None: return wrapz(zfd(s.total_us(), o2.total_us()))
        tot = z3.simplify(zfd(s.total_us(), lift(o)))
        return STimedelta(z3.simplify(tot / D), z3.simplify(tot % D))
    __hash__ = None
    def vf_isinstance(self, t): return t is _dt.timedelta
    def __bool__(self): return ctx().branch(z3.Or(self.d != 0, self.us != 0))

def td(x):
    if isinstance(x, STimedelta): return x
    if isinstance(x, _dt.timedelta): return STimedelta(x.days, x.seconds * 10**6 + x.microseconds)
    return None

def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    if not snp.has_sym(*args):
        plain = lambda v: int(v) if isinstance(v, np.integer) else v
        return _dt.timedelta(*map(plain, args))
    from .snp import SArr
    args = [a.item() if isinstance(a, SArr) else a for a in args]
    zs = [lift(a) for a in args]
    units = [D, 10**6, 1, 1000, 60 * 10**6, 3600 * 10**6, 7 * D]
    # fast case: integer days only
    if kind(zs[0]) == 'i' and all(z3.is_int_value(z3.simplify(z)) and z3.simplify(z).as_long() == 0 for z in zs[1:]):
        return STimedelta(z3.simplify(zs[0]), 0)
    for z in zs:
        if kind(z) not in 'ir': raise TypeError('unsupported type for timedelta')
    tot = None
    for z, u in zip(zs, units):
        t = z * u
        tot = t if tot is None else sym.num2(tot, t)[0] + sym.num2(tot, t)[1]
    tot = z3.simplify(round_half_even(tot))
    return STimedelta(z3.simplify(tot / D), z3.simplify(tot % D))

class SDateTime:
    _vf_sym = True
    isdate = False
    _ymd = None
    def __init__(self, o, us=0, ymd=None):
        self.o, self.us = z3.simplify(lift(o)), z3.simplify(lift(us))
        if ymd is not None: self._ymd = tuple(z3.simplify(lift(v)) for v in ymd)
    def civil(self): return self._ymd or civil(self.o)
    @property
    def year(self): return wrapz(self.civil()[0])
    @property
    def month(self): return wrapz(self.civil()[1])
    @property
    def day(self): return wrapz(self.civil()[2])
    @property
    def hour(self): return wrapz(z3.simplify(self.us / (3600 * 10**6)))
    @property
    def minute(self): return wrapz(z3.simplify((self.us / (60 * 10**6)) % 60))
    @property
    def second(self): return wrapz(z3.simplify((self.us / 10**6) % 60))
    @property
    def microsecond(self): return wrapz(z3.simplify(self.us % 10**6))
    tzinfo = None
    def toordinal(self): return wrapz(self.o)
    def date(self): return SDate(self.o)
    def time(self): raise OutOfSubset('datetime.time()')
    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=None):
        keepdate = year is None and month is None and day is None
        h = self.hour if hour is None else hour; mi = self.minute if minute is None else minute
        s = self.second if second is None else second; u = self.microsecond if microsecond is None else microsecond
        if keepdate:
            r = FakeDateTime(2000, 1, 1, h, mi, s, u)
            r = as_sdt(r)
            return SDateTime(self.o, r.us, self._ymd)
        return FakeDateTime(self.year if year is None else year, self.month if month is None else month, self.day if day is None else day, h, mi, s, u)
    def timetuple(self): raise OutOfSubset('timetuple')
    def weekday(self): return wrapz((self.o + 6) % 7)
    def strftime(self, fmt):
        return symfmt_date(fmt, self)
    def isoformat(self, sep='T'):
        t = digits(self.year, 4) + '-' + digits(self.month, 2) + '-' + digits(self.day, 2) + sep + digits(self.hour, 2) + ':' + digits(self.minute, 2) + ':' + digits(self.second, 2)
        if ctx().branch(self.us % 10**6 != 0): t += '.' + digits(self.microsecond, 6)
        return t
    def __add__(s, o):
        if isinstance(o, (SRelDelta, _rd.relativedelta)): return add_rel(s, o, 1)
        t = td(o)
        if t is None: return NotImplemented
        n = STimedelta.norm(s.o + t.d, s.us + t.us)
        return in_range(type(s)(n.d, n.us))
    __radd__ = __add__
    def __sub__(s, o):
        if isinstance(o, (SRelDelta, _rd.relativedelta)): return add_rel(s, o, -1)
        t = td(o)
        if t is not None:
            n = STimedelta.norm(s.o - t.d, s.us - t.us)
            return in_range(type(s)(n.d, n.us))
        o = as_sdt(o)
        if o is None: return NotImplemented
        return STimedelta.norm(s.o - o.o, s.us - o.us)
    def __rsub__(s, o):
        o = as_sdt(o)
        if o is None: return NotImplemented
        return STimedelta.norm(o.o - s.o, o.us - s.us)
    def cmp(s, o, strict, less):
        o = as_sdt(o)
        if o is None: raise TypeError("can't compare")
        a, b = (s, o) if less else (o, s)
        return wrapz(z3.simplify(z3.Or(a.o < b.o, z3.And(a.o == b.o, a.us < b.us if strict else a.us <= b.us))))
    def __lt__(s, o): return s.cmp(o, True, True)
    def __le__(s, o): return s.cmp(o, False, True)
    def __gt__(s, o): return s.cmp(o, True, False)
    def __ge__(s, o): return s.cmp(o, False, False)
    def __eq__(s, o):
        o = as_sdt(o)
        if o is None: return False
        return wrapz(z3.simplify(z3.And(s.o == o.o, s.us == o.us)))
    def __ne__(s, o): return sym.Not(s == o)
    __hash__ = None
    def _vf_eq(self, o): return self == o
    def _vf_ite(self, c, o):
        o = as_sdt(o)
        return type(self)(z3.If(c, self.o, o.o), z3.If(c, self.us, o.us))
    def vf_isinstance(self, t): return t in (_dt.datetime, _dt.date, FakeDateTime)
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    def __bool__(self): return True
class SDate(SDateTime):
    isdate = True

def in_range(d):
    """datetime arithmetic leaving years 1..9999 raises OverflowError"""
    ok = z3.And(d.o >= 1, d.o <= 3652059)
    if getattr(ctx(), 'dates_in_range', False): ctx().assume(ok); return d
    if not ctx().branch(ok): raise OverflowError('date value out of range')
    return d

def as_sdt(x):
    if isinstance(x, SDateTime): return x
    if isinstance(x, _dt.datetime):
        return SDateTime(x.toordinal(), ((x.hour * 60 + x.minute) * 60 + x.second) * 10**6 + x.microsecond)
    if isinstance(x, _dt.date): return SDate(x.toordinal(), 0)
    return None

class _FDT(type):
    def __instancecheck__(cls, x): return isinstance(x, (_dt.datetime,)) or (isinstance(x, SDateTime) and not x.isdate)
    def __call__(cls, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        args = (year, month, day, hour, minute, second, microsecond)
        if not snp.has_sym(*args):
            return _dt.datetime(*[int(a) if isinstance(a, np.integer) else a for a in args])
        zs = [lift(a) for a in args]
        for z in zs:
            if kind(z) == 'r': raise TypeError('integer argument expected, got float')
        y, m, d, h, mi, s, us = zs
        c = ctx()
        ok = z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= z_dim(y, m), h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < 10**6)
        if not c.branch(ok): raise ValueError('day is out of range for month')
        # the civil date may already be known under an existing ordinal term
        o = None
        if z3.is_app(y) and y.decl().eq(YEAR) and z3.is_app(m) and m.decl().eq(MONTH) and z3.is_app(d) and d.decl().eq(DAY) and y.arg(0).eq(m.arg(0)) and y.arg(0).eq(d.arg(0)):
            o = y.arg(0)
        if o is None:
            o = z3.simplify(z_ordinal(y, m, d))
            know_civil(o, y, m, d)
        return SDateTime(o, z3.simplify(((h * 60 + mi) * 60 + s) * 10**6 + us), (y, m, d))
class FakeDateTime(metaclass=_FDT):
    @staticmethod
    def strptime(s, fmt):
        if isinstance(s, str) and ('\x01' in s or has_digits(s)): return symstrptime(s, fmt)
        return _dt.datetime.strptime(s, fmt)
    now = _dt.datetime.now; utcnow = _dt.datetime.utcnow
    max = _dt.datetime.max; min = _dt.datetime.min
    fromordinal = staticmethod(lambda o: SDateTime(lift(o), 0) if isinstance(o, Sym) else _dt.datetime.fromordinal(o))
    @staticmethod
    def combine(d, t):
        if isinstance(d, SDateTime): return SDateTime(d.o, ((t.hour * 60 + t.minute) * 60 + t.second) * 10**6 + t.microsecond)
        return _dt.datetime.combine(d, t)

class _FD(type):
    def __instancecheck__(cls, x): return isinstance(x, _dt.date) or isinstance(x, SDateTime)
    def __call__(cls, year, month, day):
        d = FakeDateTime(year, month, day)
        return SDate(d.o, 0, d._ymd) if isinstance(d, SDateTime) else d.date()
class FakeDate(metaclass=_FD):
    today = _dt.date.today; max = _dt.date.max; min = _dt.date.min
    fromordinal = staticmethod(lambda o: SDate(lift(o), 0) if isinstance(o, Sym) else _dt.date.fromordinal(o))

class _FTD(type):
    def __instancecheck__(cls, x): return isinstance(x, (_dt.timedelta, STimedelta))
    def __call__(cls, *a, **k): return timedelta(*a, **k)
class FakeTimedelta(metaclass=_FTD): pass

class FakeDatetimeModule:
    datetime = FakeDateTime
    timedelta = FakeTimedelta
    date = FakeDate
    def __getattr__(self, n): return getattr(_dt, n)

class SRelDelta:
    _vf_sym = True
    def __init__(self, years=0, months=0, days=0): self.years, self.months, self.days = years, months, days
class _FRD(type):
    def __instancecheck__(cls, x): return isinstance(x, (SRelDelta, _rd.relativedelta))
    def __call__(cls, *a, **k):
        if a or not snp.has_sym(*k.values()):
            if len(a) == 2 and not k and any(isinstance(x, SDateTime) for x in a): return rel_difference(as_sdt(a[0]), as_sdt(a[1]))
            if any(isinstance(x, SDateTime) for x in a): raise OutOfSubset('relativedelta difference')
            return _rd.relativedelta(*a, **k)
        if set(k) - {'years', 'months', 'days'}: raise OutOfSubset('relativedelta ' + ','.join(k))
        return SRelDelta(**k)
class FakeRelDelta(metaclass=_FRD): pass
class FakeRDModule:
    relativedelta = FakeRelDelta
    def __getattr__(self, n): return getattr(_rd, n)

def rel_difference(d1, d2):
    """relativedelta(d1, d2): as in dateutil, whole months towards d1 and then days"""
    total = (d1.year - d2.year) * 12 + (d1.month - d2.month)
    back = bool(d1 < d2)
    for _ in range(3):
        m = add_rel(d2, SRelDelta(months=total), 1)
        if not (d1 > m if back else d1 < m): break
        total = total + (1 if back else -1)
    else: raise OutOfSubset('relativedelta difference')
    rest = d1 - m
    neg = wrapz(lift(total) < 0)
    n = sym.If(neg, -total, total)
    r = SRelDelta(years=sym.If(neg, -(n // 12), n // 12), months=sym.If(neg, -(n % 12), n % 12), days=rest.days)
    if not z3.is_int_value(z3.simplify(rest.us)) or z3.simplify(rest.us).as_long() != 0: r.days = None
    return r

def add_rel(s, r, sign):
    if isinstance(r, _rd.relativedelta):
        for f in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'weekday', 'leapdays'):
            v = getattr(r, f)
            if v is not None and not (f == 'leapdays' and v == 0):
                if f == 'day' and not (r.years or r.months or r.days):
                    raise OutOfSubset('absolute relativedelta')
                raise OutOfSubset('absolute relativedelta')
        extra = td(_dt.timedelta(hours=r.hours, minutes=r.minutes, seconds=r.seconds, microseconds=r.microseconds))
        years, months, days = r.years, r.months, r.days
    else:
        years, months, days, extra = r.years, r.months, r.days, None
    years, months, days = [x if sign > 0 else -x for x in (years, months, days)]
    out = s
    if not (isinstance(years, int) and years == 0 and isinstance(months, int) and months == 0):
        y, m, d = s.civil()
        tm = (y + lift(years)) * 12 + (m - 1) + lift(months)
        y2, m2 = z3.simplify(tm / 12), z3.simplify(tm % 12 + 1)
        if isinstance(months, int) and months == 0: y2, m2 = z3.simplify(y + lift(years)), m
        if not ctx().branch(z3.And(y2 >= 1, y2 <= 9999)): raise ValueError('year out of range')
        dm = z_dim(y2, m2)
        d2 = d if z3.is_int_value(d) and d.as_long() <= 28 else z3.simplify(z3.If(d <= dm, d, dm))
        o2 = z3.simplify(z_ordinal(y2, m2, d2))
        know_civil(o2, y2, m2, d2)
        out = type(s)(o2, s.us, (y2, m2, d2))
    if not (isinstance(days, int) and days == 0):
        out = in_range(type(s)(z3.simplify(out.o + lift(days)), out.us))
    if extra is not None: out = out + extra if sign > 0 else out - extra
    return out

# ------------------------------------------------------------------ formatted numbers inside strings
# '\x01<n>:<spec>\x02' stands for format(value_n, spec)
FMT = {}
def marker(z, spec):
    k = len(FMT)
    FMT[k] = (z, spec)
    return '\x01%d:%s\x02' % (k, spec)
TOKEN = re.compile('\x01(\\d+):([^\x02]*)\x02')
def sym_format(self, spec): return marker(self.z, spec)
Sym.__format__ = sym_format
Sym.__str__ = lambda self: marker(self.z, '')
def symfmt_percent(fmt, args):
    if not isinstance(args, tuple): args = (args,)
    if not snp.has_sym(*args): return fmt % args
    it = iter(args)
    def rep(m):
        if m.group() == '%%': return '%'
        v = next(it)
        conv = m.group()[-1]
        if isinstance(v, Sym):
            spec = m.group()[1:-1]
            return marker(v.z, spec + ('d' if conv in 'di' else conv))
        return m.group() % (v,)
    return re.sub(r'%[-+ #0-9.]*[a-zA-Z]|%%', rep, fmt)
def symfmt_date(fmt, d):
    y, m, dd = d.year, d.month, d.day
    def rep(mm):
        c = mm.group()[1]
        if c == 'Y': return format(y, '04d') if not isinstance(y, int) else '%04d' % y
        if c == 'm': return format(m, '02d')
        if c == 'd': return format(dd, '02d')
        if c == 'H': return format(d.hour, '02d')
        if c == 'M': return format(d.minute, '02d')
        if c == 'S': return format(d.second, '02d')
        if c == '%': return '%'
        raise OutOfSubset('strftime %' + c)
    return re.sub('%.', rep, fmt)
def symstrptime(s, fmt):
    """fields of fixed width, every one valid (then the first alternative of each strptime field is the whole field)"""
    v, k = {}, 0
    for m in re.finditer('%.|.', fmt, re.S):
        c = m.group()
        if len(c) == 1:
            if s[k:k + 1] != c: raise OutOfSubset('strptime of symbolic string')
            k += 1
        else:
            w = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2}.get(c[1])
            if w is None or len(s) < k + w: raise OutOfSubset('strptime of symbolic string')
            v[c[1]] = symint(s[k:k + w]); k += w
    if k != len(s): raise OutOfSubset('strptime of symbolic string')
    try: return FakeDateTime(v.get('Y', 1900), v.get('m', 1), v.get('d', 1), v.get('H', 0), v.get('M', 0), v.get('S', 0))
    except ValueError: raise OutOfSubset('strptime of an invalid time')

# one private-use character per symbolic decimal digit: slicing, joining and replacing such text is ordinary string work
DIGITS, DIGIT_OF = {}, {}
def digits(v, w):
    """the w decimal digits of a value in [0, 10**w) as text"""
    if not isinstance(v, Sym): return '%0*d' % (w, v)
    z = v.z; out = ''
    for k in range(w):
        key = (z.get_id(), k, w)
        if key not in DIGIT_OF:
            if len(DIGITS) > 60000: raise OutOfSubset('too many symbolic digits')
            ch = chr(0xF0000 + len(DIGITS)); DIGITS[ch] = (z, k, w); DIGIT_OF[key] = ch
        out += DIGIT_OF[key]
    return out
def has_digits(s): return any('\U000f0000' <= c <= '\U000ffffd' for c in s)
def symint(s):
    """int(text)"""
    if not s or not all(c in DIGITS or c in '0123456789' for c in s): raise OutOfSubset('int() of symbolic text')
    d = [DIGITS.get(c) for c in s]
    if d[0] is not None and all(x is not None and x[0].eq(d[0][0]) and x[1] == k and x[2] == len(s) for k, x in enumerate(d)): return wrapz(d[0][0])
    t = z3.IntVal(0)
    for c, x in zip(s, d): t = t * 10 + (z3.IntVal(int(c)) if x is None else (x[0] / 10 ** (x[2] - 1 - x[1])) % 10)
    return wrapz(t)

class SMatch:
    def __init__(self, s, spans, names): self.string, self.spans, self.names = s, spans, names
    def _n(self, g): return self.names[g] if isinstance(g, str) else g
    def span(self, g=0): return self.spans.get(self._n(g), (-1, -1))
    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]
    def _g(self, g, d=None):
        a, b = self.span(g); return d if a < 0 else self.string[a:b]
    def group(self, *g):
        if len(g) < 2: return self._g(*(g or (0,)))
        return tuple(self._g(x) for x in g)
    __getitem__ = _g
    def groupdict(self, default=None): return {n: self._g(k, default) for n, k in self.names.items()}
    def groups(self, default=None): return tuple(self._g(k, default) for k in sorted(self.names.values()))
class SRegex:
    """backtracking matcher for literals, classes, groups and greedy repeats; comparisons of symbolic digits branch"""
    def __init__(self, expr):
        self.expr = self.pattern = expr
        self.real = None if has_digits(expr) else re.compile(expr)
    def same(self, lit, c):
        x = chr(lit)
        if x == c: return True
        if not (x in DIGITS or c in DIGITS): return False
        if not all(y in DIGITS or y in '0123456789' for y in (x, c)): return False
        return ctx().branch(lift(symint(x)) == lift(symint(c)))
    def one(self, item, c):
        op, av = str(item[0]), item[1]
        if op == 'LITERAL': return self.same(av, c)
        if op == 'NOT_LITERAL': return not self.same(av, c)
        if op == 'ANY': return c != '\n'
        if op == 'IN':
            neg = av and str(av[0][0]) == 'NEGATE'
            hit = False
            for k in av[1:] if neg else av:
                o = str(k[0])
                if o == 'LITERAL': hit = self.same(k[1], c)
                elif o == 'RANGE':
                    lo, hi = k[1]
                    if c not in DIGITS: hit = lo <= ord(c) <= hi
                    elif lo <= 48 and hi >= 57: hit = True
                    elif hi < 48 or lo > 57: hit = False
                    else: v = lift(symint(c)); hit = ctx().branch(z3.And(v >= max(lo, 48) - 48, v <= min(hi, 57) - 48))
                elif o == 'CATEGORY' and str(k[1]) in ('CATEGORY_DIGIT', 'CATEGORY_WORD'): hit = c in DIGITS or re.match('\\d' if str(k[1]).endswith('DIGIT') else '\\w', c) is not None
                else: raise OutOfSubset('regular expression ' + o)
                if hit: break
            return hit != bool(neg)
        raise OutOfSubset('regular expression ' + op)
    def go(self, items, i, s, j, spans, then):
        if i == len(items): return then(j, spans)
        op, av = str(items[i][0]), items[i][1]
        nxt = lambda jj, sp: self.go(items, i + 1, s, jj, sp, then)
        if op == 'SUBPATTERN':
            g, sub = av[0], list(av[-1])
            return self.go(sub, 0, s, j, spans, lambda jj, sp: nxt(jj, dict(sp, **{}) if g is None else {**sp, g: (j, jj)}))
        if op == 'AT':
            w = str(av)
            ok = j == 0 if 'BEGINNING' in w else j == len(s) if 'END' in w else None
            if ok is None: raise OutOfSubset('regular expression ' + w)
            return nxt(j, spans) if ok else None
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av; sub = list(sub)
            if len(sub) != 1 or str(sub[0][0]) == 'SUBPATTERN': raise OutOfSubset('regular expression repeat')
            n = j
            while n < len(s) and n - j < int(hi):
                if op == 'MIN_REPEAT' and n - j >= int(lo):
                    r = nxt(n, spans)
                    if r: return r
                if not self.one(sub[0], s[n]): break
                n += 1
            if op == 'MIN_REPEAT': return nxt(n, spans) if n - j >= int(lo) else None
            while n - j >= int(lo):
                r = nxt(n, spans)
                if r: return r
                n -= 1
            return None
        if op == 'BRANCH':
            for alt in av[1]:
                r = self.go(list(alt), 0, s, j, spans, nxt)
                if r: return r
            return None
        return nxt(j + 1, spans) if j < len(s) and self.one(items[i], s[j]) else None
    def _match(self, s, end):
        try: from re import _parser
        except ImportError: import sre_parse as _parser
        t = _parser.parse(self.expr)
        names = dict(t.state.groupdict)
        r = self.go(list(t), 0, s, 0, {}, lambda j, sp: {**sp, 0: (0, j)} if not end or j == len(s) else None)
        return r and SMatch(s, r, names)
    def match(self, s, *a):
        if not has_digits(s) and self.real is not None: return self.real.match(s, *a)
        if a or '\x01' in s: raise OutOfSubset('regular expression over symbolic text')
        return self._match(s, False)
    def fullmatch(self, s, *a):
        if not has_digits(s) and self.real is not None: return self.real.fullmatch(s, *a)
        if a or '\x01' in s: raise OutOfSubset('regular expression over symbolic text')
        return self._match(s, True)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if self.real is None: raise OutOfSubset('re.' + n)
        f = getattr(self.real, n)
        if not callable(f): return f
        def g(s, *a, **k):
            if isinstance(s, str) and has_digits(s): raise OutOfSubset('re.' + n)
            return f(s, *a, **k)
        return g
class FakeRe:
    def compile(self, expr, flags=0): return SRegex(expr) if isinstance(expr, str) and not flags else re.compile(expr, flags)
    def match(self, expr, s, flags=0): return SRegex(expr).match(s) if not flags else re.match(expr, s, flags)
    def escape(self, s): return ''.join(c if c in DIGITS else re.escape(c) for c in s)
    def __getattr__(self, n):
        f = getattr(re, n)
        if not callable(f) or isinstance(f, type): return f
        def g(*a, **k):
            if any(isinstance(x, str) and has_digits(x) for x in a): raise OutOfSubset('re.' + n)
            return f(*a, **k)
        return g

def parse_ymd(s):
    """ordinal term of a string holding exactly the markers/digits of YYYYMMDD"""
    toks = TOKEN.findall(s)
    if len(toks) == 3 and TOKEN.sub('', s) == '':
        (a, sa), (b, sb), (c, sc) = toks
        if (sa, sb, sc) == ('04d', '02d', '02d'):
            y, m, d = FMT[int(a)][0], FMT[int(b)][0], FMT[int(c)][0]
            if z3.is_app(y) and y.num_args() == 1 and y.decl().eq(YEAR) and m.eq(MONTH(y.arg(0))) and d.eq(DAY(y.arg(0))): return y.arg(0), (y, m, d)
            return z_ordinal(y, m, d), (y, m, d)
    if re.fullmatch(r'\d{8}', s):
        d = _dt.date(int(s[:4]), int(s[4:6]), int(s[6:]))
        return z3.IntVal(d.toordinal()), (z3.IntVal(d.year), z3.IntVal(d.month), z3.IntVal(d.day))
    raise OutOfSubset('not a YYYYMMDD string')

def same_text(a, b):
    """equality of two strings that may hold formatted symbolic numbers"""
    ta, tb = TOKEN.findall(a), TOKEN.findall(b)
    if not ta and not tb: return a == b
    if TOKEN.sub('\x03', a) != TOKEN.sub('\x03', b): return False
    cs = []
    for (i, sa), (j, sb) in zip(ta, tb):
        if sa != sb: return False
        cs.append(wrapz(sym.binop('eq', FMT[int(i)][0], FMT[int(j)][0])))
    return sym.And(*cs)

# ------------------------------------------------------------------ inputs

def sym_datetime(B, name, lo=None, hi=None, midnight=False, gen=None):
    lo = lo or _dt.datetime(1600, 1, 1); hi = hi or _dt.datetime(2400, 12, 31)
    o = B.int(name + '_ordinal', lo.toordinal(), hi.toordinal())
    us = 0 if midnight else B.int(name + '_us', 0, D - 1)
    return SDateTime(o, us)
def concrete_datetime(B, name, lo=None, hi=None, midnight=False, gen=None):
    lo = lo or _dt.datetime(1600, 1, 1); hi = hi or _dt.datetime(2400, 12, 31)
    if B.mode == 'random':
        r = B.r
        if gen: v = gen(r)
        else:
            m = r.random()
            if m < 0.35:
                y = r.randint(lo.year, hi.year) if r.random() < .5 else r.choice([1850, 1896, 1900, 1904, 1999, 2000, 2004, 2015, 2016])
                y = min(max(y, lo.year), hi.year)
                v = _dt.datetime(y, *r.choice([(1, 1), (12, 31), (2, 28), (3, 1), (6, 30), (1, 31), (2, 1)]))
                if calendar.isleap(y) and r.random() < .2: v = _dt.datetime(y, 2, 29)
            elif m < 0.7: v = _dt.datetime(2000, 1, 1) + _dt.timedelta(days=r.randint(-1500, 1500))
            else: v = _dt.datetime.fromordinal(r.randint(lo.toordinal(), hi.toordinal()))
            v = min(max(v, lo), hi)
            if not midnight:
                mm = r.random()
                if mm < .3: us = r.choice([0, 1, D - 1, D // 2, 10**6, 3600 * 10**6, 499999, 500000])
                elif mm < .6: us = r.randrange(86400) * 10**6
                else: us = r.randrange(D)
                v = v.replace(hour=0, minute=0, second=0, microsecond=0) + _dt.timedelta(microseconds=us)
        B.log[name] = v
        return v
    o = B.int(name + '_ordinal'); us = 0 if midnight else B.int(name + '_us')
    v = _dt.datetime.fromordinal(o) + _dt.timedelta(microseconds=us)
    B.log[name] = v
    return v

# polymorphic accessors for specifications
def ordinal(d): return wrapz(d.o) if isinstance(d, SDateTime) else d.toordinal()
def usod(d):
    if isinstance(d, SDateTime): return wrapz(d.us)
    return ((d.hour * 60 + d.minute) * 60 + d.second) * 10**6 + d.microsecond
def ordinal_ymd(y, m, d):
    if sym._symbolic(y, m, d): return wrapz(z3.simplify(z_ordinal(y, m, d)))
    return _dt.date(int(y), int(m), 1).toordinal() + int(d) - 1
def days_in_month(y, m):
    if sym._symbolic(y, m): return wrapz(z_dim(lift(y), lift(m)))
    return calendar.monthrange(int(y), int(m))[1]
def days_in_year(y):
    if sym._symbolic(y): return wrapz(z3.If(z_leap(lift(y)), z3.IntVal(366), z3.IntVal(365)))
    return 366 if calendar.isleap(int(y)) else 365
