"""P01 - time-base conversions"""
import datetime
import numpy as np
from .. import sdt, sym
from ..contract import Contract, NS, Reject
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift, ToReal, Floor
from .common import contract_list, close, elapsed_us, DAY_US

TB = 'eumopps.timeutils.timebase'
EP = 'eustace.timeutils.epoch'
CONTRACTS, contract = contract_list()
ASSUMPTIONS = ['floating point rounding of the annual and monthly numbers is not modelled in the proofs; the bounded search allows 10 ms for it',
               'calendar range 1600-2400']
F32 = 0.01       # seconds: floating point resolution of the annual and monthly numbers

def days(us): return ToReal(us) / DAY_US
def start_of_year(y): return sdt.ordinal_ymd(y, 1, 1)
def year_fraction(d):
    """microseconds since the start of the year, microseconds in the year"""
    return (sdt.ordinal(d) - start_of_year(d.year)) * DAY_US + sdt.usod(d), sdt.days_in_year(d.year) * DAY_US
def month_fraction(d):
    return (sdt.ordinal(d) - sdt.ordinal_ymd(d.year, d.month, 1)) * DAY_US + sdt.usod(d), sdt.days_in_month(d.year, d.month) * DAY_US

@contract
class DaysToNumber(Contract):
    """TimeBaseDays.datetime_to_number is the exact elapsed time in days, before or after the epoch"""
    name = 'timebase.days.to_number'; functions = (TB + ':TimeBaseDays.datetime_to_number', TB + ':TimeBaseDays.__init__')
    def setup(self, B): return NS(e=B.datetime('epoch'), d=B.datetime('d'))
    def run(self, M, a): return M(TB).TimeBaseDays(a.e).datetime_to_number(a.d)
    def post(self, C, a, out): C.holds('exact_elapsed_days', close(out.value, days(elapsed_us(a.e, a.d)), 1e-10))

@contract
class DaysOrder(Contract):
    """later times have strictly larger day numbers"""
    name = 'timebase.days.order'; functions = (TB + ':TimeBaseDays.datetime_to_number',)
    def setup(self, B):
        a = NS(e=B.datetime('epoch'), d=B.datetime('d'), f=B.datetime('f'))
        if not B.symbolic and a.d > a.f: a.d, a.f = a.f, a.d
        B.assume(elapsed_us(a.d, a.f) > (0 if B.symbolic else 20))
        return a
    def run(self, M, a):
        t = M(TB).TimeBaseDays(a.e); return t.datetime_to_number(a.d), t.datetime_to_number(a.f)
    def post(self, C, a, out): C.holds('increasing', out.value[0] < out.value[1])

@contract
class DaysFromNumber(Contract):
    """TimeBaseDays.number_to_datetime(n) is n days after the epoch to the nearest microsecond"""
    name = 'timebase.days.from_number'; functions = (TB + ':TimeBaseDays.number_to_datetime',)
    def setup(self, B): return NS(e=B.datetime('epoch', lo=datetime.datetime(1750, 1, 1), hi=datetime.datetime(2100, 1, 1)), n=B.real('n', -50000, 80000))
    def run(self, M, a): return M(TB).TimeBaseDays(a.e).number_to_datetime(a.n)
    def post(self, C, a, out): C.holds('elapsed', close(ToReal(elapsed_us(a.e, out.value)), a.n * DAY_US, 0.5 if C.symbolic else 16))

@contract
class DaysRound(Contract):
    """time -> days -> time is the identity (to the microsecond in real arithmetic)"""
    name = 'timebase.days.round_trip'; functions = (TB + ':TimeBaseDays.datetime_to_number', TB + ':TimeBaseDays.number_to_datetime')
    def setup(self, B): return NS(e=B.datetime('epoch'), d=B.datetime('d'))
    def run(self, M, a):
        t = M(TB).TimeBaseDays(a.e); return t.number_to_datetime(t.datetime_to_number(a.d))
    def post(self, C, a, out): C.holds('identity', close(elapsed_us(a.d, out.value), 0, 0 if C.symbolic else 32))

@contract
class SecondsToNumber(Contract):
    """TimeBaseSeconds.datetime_to_number is the whole number of seconds elapsed (rounded down below the second)"""
    name = 'timebase.seconds.to_number'; functions = (TB + ':TimeBaseSeconds.datetime_to_number',)
    def setup(self, B): return NS(e=B.datetime('epoch'), d=B.datetime('d'))
    def run(self, M, a): return M(TB).TimeBaseSeconds(a.e).datetime_to_number(a.d)
    def post(self, C, a, out):
        n, us = out.value, elapsed_us(a.e, a.d)
        if not C.symbolic: C.holds('integer', isinstance(n, (int, np.integer)))
        C.holds('whole_seconds', And(n * 1000000 <= us, us < (n + 1) * 1000000))

@contract
class SecondsFromNumber(Contract):
    """TimeBaseSeconds.number_to_datetime(n) is exactly n seconds after the epoch, and n is recovered"""
    name = 'timebase.seconds.round_trip'; functions = (TB + ':TimeBaseSeconds.number_to_datetime', TB + ':TimeBaseSeconds.datetime_to_number')
    def setup(self, B): return NS(e=B.datetime('epoch', lo=datetime.datetime(1750, 1, 1), hi=datetime.datetime(2100, 1, 1)),
        n=B.int('n', -4000000000, 7000000000, gen=lambda r: r.choice([0, 1, -1, 86399, 86400, -86400, 2**31 - 1, 2**31, 2**32 + 1, -2**31 - 1, r.randint(-4000000000, 7000000000)])))
    def run(self, M, a):
        t = M(TB).TimeBaseSeconds(a.e); d = t.number_to_datetime(a.n)
        return d, t.datetime_to_number(d)
    def post(self, C, a, out):
        d, n = out.value
        C.holds('elapsed', Eq(elapsed_us(a.e, d), a.n * 1000000))
        C.holds('recovered', Eq(n, a.n))

class _Cal(Contract):
    cls = None
    fraction = None
    fname = None
    def whole(self, e, d): raise NotImplementedError
    def epoch(self, B): raise NotImplementedError

class Years:
    cls = 'TimeBaseAnnual'
    def epoch(self, B): return sdt.FakeDateTime(B.int('epoch_year', 1650, 2300), 1, 1) if B.symbolic else datetime.datetime(B.int('epoch_year', 1650, 2300), 1, 1)
    def whole(self, e, d): return d.year - e.year
    def fraction(self, d): return year_fraction(d)
    def period(self, e, w): return sdt.ordinal_ymd(e.year + w, 1, 1), sdt.ordinal_ymd(e.year + w + 1, 1, 1) - sdt.ordinal_ymd(e.year + w, 1, 1)
class Months:
    cls = 'TimeBaseMonthly'
    def epoch(self, B):
        y, m = B.int('epoch_year', 1650, 2300), B.int('epoch_month', 1, 12)
        return sdt.FakeDateTime(y, m, 1) if B.symbolic else datetime.datetime(y, m, 1)
    def whole(self, e, d): return (d.year * 12 + d.month) - (e.year * 12 + e.month)
    def fraction(self, d): return month_fraction(d)
    def period(self, e, w):
        t = e.year * 12 + e.month - 1 + w
        y, m = t // 12, t % 12 + 1
        t2 = y * 12 + (m - 1) + 1
        return sdt.ordinal_ymd(y, m, 1), sdt.ordinal_ymd(t2 // 12, t2 % 12 + 1, 1) - sdt.ordinal_ymd(y, m, 1)

class _ToNumber(Contract):
    def setup(self, B): return NS(e=self.epoch(B), d=B.datetime('d'))
    def run(self, M, a): return getattr(M(TB), self.cls)(a.e).datetime_to_number(a.d)
    def post(self, C, a, out):
        us, tot = self.fraction(a.d)
        w = self.whole(a.e, a.d)
        # n = w + us/tot without division by a variable
        C.holds('whole_plus_fraction', close((out.value - w) * tot, ToReal(us), 0 if C.symbolic else F32 * 1e6))
class _FromNumber(Contract):
    dates_in_range = True
    assumptions = ('datetime arithmetic in the annual/monthly number_to_datetime stays within years 1..9999 (precondition)',)
    def setup(self, B):
        a = NS(e=self.epoch(B), n=B.real('n', -30, 60, gen=lambda r: r.randint(-30, 60) + r.choice([0.0, 0.5, 0.25, 0.998, r.uniform(0, 0.999)])))
        a.w = Floor(a.n)
        a.f = a.n - a.w
        return a
    def run(self, M, a): return getattr(M(TB), self.cls)(a.e).number_to_datetime(a.n)
    def post(self, C, a, out):
        d = out.value
        start, ndays = self.period(a.e, a.w)
        us = (sdt.ordinal(d) - start) * DAY_US + sdt.usod(d)
        C.holds('fraction_of_its_period', close(ToReal(us), a.f * ndays * DAY_US, 0.5 if C.symbolic else 2000))
class _Round(Contract):
    def setup(self, B): return NS(e=self.epoch(B), d=B.datetime('d'))
    def run(self, M, a):
        t = getattr(M(TB), self.cls)(a.e); return t.number_to_datetime(t.datetime_to_number(a.d))
    prove = False
    def post(self, C, a, out):
        C.holds('identity', close(elapsed_us(a.d, out.value), 0, 0 if C.symbolic else F32 * 1e6))
class _Order(Contract):
    def setup(self, B):
        a = NS(e=self.epoch(B), d=B.datetime('d'), f=B.datetime('f'))
        if not B.symbolic and B.r.random() < .5 if B.mode == 'random' else False:
            a.f = a.d + datetime.timedelta(seconds=B.r.choice([1, 60, 3600, 86400, 86400 * 31]))
        if not B.symbolic and a.d > a.f: a.d, a.f = a.f, a.d
        B.assume(elapsed_us(a.d, a.f) > (0 if B.symbolic else 2 * F32 * 1e6))
        return a
    assumptions = ('order of the annual/monthly numbers is a lemma over the to_number contract (proved separately)',)
    def stubs(self, B, a):
        if not B.symbolic: return {}
        def to_number(base, d):
            n = B.real('n%d' % len(a.calls)); a.calls.append(n)
            us, tot = self.fraction(d)
            U, T, W = B.int('us%d' % len(a.calls)), B.int('tot%d' % len(a.calls)), B.int('whole%d' % len(a.calls))
            B.assume(And(Eq(us, U), Eq(tot, T), Eq(W, self.whole(base.epoch, d)), Eq((n - W) * T, ToReal(U))))
            a.calls[-1] = (n, U, T, W)
            return n
        a.calls = []
        return {TB + ':%s.datetime_to_number' % self.cls: to_number}
    def run(self, M, a):
        t = getattr(M(TB), self.cls)(a.e); return t.datetime_to_number(a.d), t.datetime_to_number(a.f)
    def post(self, C, a, out):
        n, m = out.value
        if C.symbolic:
            (n, u1, t1, w), (m, u2, t2, x) = a.calls
            C.follows([Eq((n - w) * t1, ToReal(u1)), u1 >= 0, u1 < t1], And(n >= w, n < w + 1))
            C.follows([Eq((m - x) * t2, ToReal(u2)), u2 >= 0, u2 < t2], And(m >= x, m < x + 1))
            C.follows([n < w + 1, m >= x], Implies(w < x, n < m))
            C.lemma(w <= x)
            C.lemma(Implies(Eq(w, x), And(Eq(t1, t2), u1 < u2)))
            C.follows([Implies(Eq(w, x), And(Eq(t1, t2), u1 < u2)), Eq((n - w) * t1, ToReal(u1)), Eq((m - x) * t2, ToReal(u2)), t1 > 0, t2 > 0, Implies(w < x, n < m), w <= x], n < m)
        C.holds('increasing', n < m)
class _Epoch(Contract):
    def setup(self, B): return NS(d=B.datetime('d'))
    def run(self, M, a): return getattr(M(TB), self.cls)(a.d)
    def post(self, C, a, out):
        us, tot = self.fraction(a.d)
        if out.raises(ValueError): C.holds('refuses_only_mid_period', Not(Eq(us, 0)))
        else:
            if not C.symbolic and us < F32 * 1e6: return
            C.holds('accepts_only_start', Eq(us, 0)); C.holds('epoch_kept', And(Eq(sdt.ordinal(out.value.epoch), sdt.ordinal(a.d)), Eq(sdt.usod(out.value.epoch), sdt.usod(a.d))))

for part, label in ((Years, 'annual'), (Months, 'monthly')):
    fr = ':%s.%s' % (part.cls, 'year_fraction' if part is Years else 'month_fraction')
    for base, what, meths in ((_ToNumber, 'to_number', ('datetime_to_number',)), (_FromNumber, 'from_number', ('number_to_datetime',)),
                              (_Round, 'round_trip', ('datetime_to_number', 'number_to_datetime')), (_Order, 'order', ('datetime_to_number',)), (_Epoch, 'epoch', ('__init__',))):
        cls = type('%s_%s' % (label, what), (part, base), dict(name='timebase.%s.%s' % (label, what), functions=tuple(TB + ':%s.%s' % (part.cls, m) for m in meths) + (TB + fr,),
                   __doc__='%s base, %s: whole periods since the epoch plus the elapsed fraction of the current period' % (label, what)))
        contract(cls)

@contract
class Epoch(Contract):
    """the EUSTACE epoch functions count from 1850-01-01 00:00, exactly, and invert each other"""
    name = 'epoch'; functions = tuple(EP + ':' + n for n in ('days_since_epoch', 'epoch_plus_days', 'seconds_since_epoch', 'epoch_plus_seconds'))
    def setup(self, B): return NS(d=B.datetime('d'), n=B.int('n', -50000, 80000), s=B.int('s', -4000000000, 7000000000))
    def run(self, M, a):
        m = M(EP)
        return m.days_since_epoch(a.d), m.seconds_since_epoch(a.d), m.epoch_plus_days(a.n), m.epoch_plus_seconds(a.s), m.days_since_epoch(m.epoch_plus_days(a.n))
    def post(self, C, a, out):
        nd, ns, pd, ps, back = out.value
        e = datetime.datetime(1850, 1, 1)
        us = elapsed_us(e, a.d)
        C.holds('days', close(nd, days(us), 1e-10))
        C.holds('seconds', And(ns * 1000000 <= us, us < (ns + 1) * 1000000))
        C.holds('plus_days', Eq(elapsed_us(e, pd), a.n * DAY_US))
        C.holds('plus_seconds', Eq(elapsed_us(e, ps), a.s * 1000000))
        C.holds('whole_days_recovered', back == a.n)

@contract
class Consecutive(Contract):
    """consecutive dates differ by exactly one day number"""
    name = 'epoch.consecutive'; functions = (EP + ':days_since_epoch',)
    def setup(self, B): return NS(d=B.datetime('d', hi=datetime.datetime(2400, 12, 30), midnight=True))
    def run(self, M, a):
        m = M(EP); return m.days_since_epoch(a.d), m.days_since_epoch(a.d + datetime.timedelta(days=1))
    def post(self, C, a, out): C.holds('one_day', out.value[1] - out.value[0] == 1)

@contract
class Decimal(Contract):
    """a decimal year is the calendar year plus the elapsed fraction of that year"""
    name = 'decimaltime'; functions = ('eustace.timeutils.decimaltime:datetime_to_decimal_year',)
    def setup(self, B): return NS(d=B.datetime('d'))
    def run(self, M, a): return M('eustace.timeutils.decimaltime').datetime_to_decimal_year(a.d)
    def post(self, C, a, out):
        us, tot = year_fraction(a.d)
        n = out.value
        C.holds('year_plus_fraction', close((n - a.d.year) * tot, ToReal(us), 0 if C.symbolic else 100))
        if C.symbolic: C.lemma(And(us >= 0, us < tot))
        C.holds('whole_year', And(n >= a.d.year, n < a.d.year + 1))

@contract
class Units(Contract):
    """the units text of the day and second bases names the reference time"""
    name = 'timebase.units'; functions = (TB + ':TimeBaseDays.units', TB + ':TimeBaseSeconds.units')
    def setup(self, B): return NS(e=B.datetime('epoch'))
    def run(self, M, a): return M(TB).TimeBaseDays(a.e).units(), M(TB).TimeBaseSeconds(a.e).units()
    def post(self, C, a, out):
        for v, u in zip(out.value, ('days', 'seconds')):
            e = a.e
            want = '%s since {0:02d}-{1:02d}-{2:02d} {3:02d}:{4:02d}:{5:02d} UTC'.replace('%s', u).format(e.year, e.month, e.day, e.hour, e.minute, e.second)
            C.holds('names_epoch_' + u, sdt.same_text(v, want))

@contract
class Dictionary(Contract):
    """a time given as a dictionary of fields is that time; absent month/day mean the start of the period; no field means no time"""
    name = 'datetime_dictionary'; functions = ('eumopps.timeutils.datetime_dictionary:parse',)
    prove = False
    def setup(self, B):
        d = B.datetime('d')
        return NS(d=d, n=B.choice('fields', [0, 1, 2, 3, 4, 5, 6]), text=B.bool('text'), extra=B.bool('extra'))
    def run(self, M, a):
        f = ['year', 'month', 'day', 'hour', 'minute', 'second'][:a.n]
        dd = {k: (str(getattr(a.d, k)) if a.text else getattr(a.d, k)) for k in f}
        if a.extra: dd['other'] = 'x'
        return M('eumopps.timeutils.datetime_dictionary').parse(dd)
    def post(self, C, a, out):
        if a.n == 0: C.holds('none', out.value is None); return
        v = [a.d.year, a.d.month, a.d.day, a.d.hour, a.d.minute, a.d.second][:a.n]
        v += [None, 1, 1, 0, 0, 0][a.n:]
        C.holds('fields', out.value == datetime.datetime(*v))
