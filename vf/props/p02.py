"""P02 - step schedules"""
import datetime
import numpy as np
from .. import sdt, sym
from ..contract import Contract, NS, Reject
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift, ToReal, Floor
from .common import contract_list, close, elapsed_us, DAY_US

CONTRACTS, contract = contract_list()
ASSUMPTIONS = ['datetime arithmetic stays within years 1..9999 (precondition)', 'bounded search at millisecond resolution (below that the floating point day/month/year numbers round)', 'calendar range 1600-2400; schedules of up to 250 years in the bounded search']
DT = datetime.datetime
def dt(B, y, m, d): return sdt.FakeDateTime(y, m, d) if B.symbolic else DT(int(y), int(m), int(d))
LO, HI = DT(1700, 1, 1), DT(2300, 1, 1)

def abs_us(d): return sdt.ordinal(d) * DAY_US + sdt.usod(d)

class Daily:
    mod, cls = 'eumopps.catalogue.step', 'StepDaily'
    label = 'daily'
    def step_us(self, s, i): return abs_us(s) + i * DAY_US
    def first(self, a): return 0
class Epoch:
    mod, cls = 'eustace.analysis.advanced_standard.fileio.step', 'StepDailyEpoch'
    label = 'daily_epoch'
    def step_us(self, s, i): return DT(1850, 1, 1).toordinal() * DAY_US + i * DAY_US
    def first(self, a): return sdt.ordinal(a.start) - DT(1850, 1, 1).toordinal()
class Annual:
    mod, cls = 'eustace.analysis.advanced_standard.examples.step', 'StepAnnual'
    label = 'annual'
    def step_us(self, s, i): return sdt.ordinal_ymd(s.year + i, 1, 1) * DAY_US
    def first(self, a): return 0
class Monthly:
    mod, cls = 'eustace.analysis.advanced_standard.examples.step', 'StepMonthly'
    label = 'monthly'
    def step_us(self, s, i):
        t = s.year * 12 + s.month - 1 + i
        return sdt.ordinal_ymd(t // 12, t % 12 + 1, 1) * DAY_US
    def first(self, a): return 0
KINDS = (Daily, Epoch, Annual, Monthly)

class _Base(Contract):
    dates_in_range = True
    def schedule(self, B, midnight=False):
        a = NS(start=B.datetime('start', lo=LO, hi=HI, midnight=midnight), end=B.datetime('end', lo=LO, hi=HI, midnight=midnight))
        if B.mode == 'random':
            if B.r.random() < .6:
                a.end = a.start + datetime.timedelta(days=B.r.choice([0, 0, 1, 30, 31, 364, 365, 366, B.r.randint(0, 4000)]), seconds=0 if midnight else B.r.choice([0, 1, 86399, 43200]))
            if a.end < a.start: a.start, a.end = a.end, a.start
            a.start, a.end = [v.replace(microsecond=v.microsecond // 1000 * 1000) for v in (a.start, a.end)]
            B.log['start'], B.log['end'] = a.start, a.end
        B.assume(abs_us(a.start) <= abs_us(a.end))
        return a
    def stubs(self, B, a):
        """callee contracts of the annual/monthly time bases (P01): whole periods plus a fraction in [0,1), and back"""
        if not B.symbolic or self.label not in ('annual', 'monthly'): return {}
        count = [0]
        months = self.label == 'monthly'
        def whole(e, d): return (d.year * 12 + d.month) - (e.year * 12 + e.month) if months else d.year - e.year
        def to_number(base, d):
            count[0] += 1
            n, w = B.real('n%d' % count[0]), whole(base.epoch, d)
            B.assume(And(n >= w, n < w + 1)); return n
        def from_number(base, n):
            if lift(n).sort().name() != 'Int': raise sym.OutOfSubset('fractional period')
            if not months: return dt(B, base.epoch.year + n, 1, 1)
            t = base.epoch.year * 12 + base.epoch.month - 1 + n
            return dt(B, t // 12, t % 12 + 1, 1)
        c = 'eumopps.timeutils.timebase:TimeBaseMonthly.' if months else 'eumopps.timeutils.timebase:TimeBaseAnnual.'
        return {c + 'datetime_to_number': to_number, c + 'number_to_datetime': from_number}
    def make(self, M, a): return getattr(M(self.mod), self.cls)(a.start, a.end)

def month_contains(C, t):
    """calendar lemma: the month of t begins at or before t and the next month after it"""
    C.holds('month_begins_before', sdt.ordinal_ymd(t.year, t.month, 1) * DAY_US <= abs_us(t))
    C.holds('next_month_begins_after', sdt.ordinal_ymd(t.year + If(Eq(t.month, 12), 1, 0), If(Eq(t.month, 12), 1, t.month + 1), 1) * DAY_US > abs_us(t))

class _Time(_Base):
    def setup(self, B):
        a = self.schedule(B, self.cls == 'StepDailyEpoch'); a.i = B.int('i', 0, 2000); return a
    def run(self, M, a):
        s = self.make(M, a); t = s.time_at_index(a.i)
        return t, s.index_at_time(t)
    def post(self, C, a, out):
        t, j = out.value
        C.holds('time_of_step', Eq(abs_us(t), self.step_us(a.start, a.i)))
        C.holds('index_of_time_of_step', Eq(j, a.i))

class _Index(_Base):
    def setup(self, B):
        a = self.schedule(B, self.cls == 'StepDailyEpoch'); a.t = B.datetime('t', lo=LO, hi=HI)
        if B.mode == 'random' and B.r.random() < .6:
            a.t = B.r.choice([a.start, a.end, DT(a.start.year, 1, 1), DT(a.end.year + 1, 1, 1), DT(a.start.year, a.start.month, 1)]) + datetime.timedelta(
                microseconds=B.r.choice([0, -1000, 1000, -10**6, DAY_US // 2, -DAY_US // 2, DAY_US - 1000, -DAY_US, DAY_US, 31 * DAY_US]))
        if not B.symbolic:
            a.t = a.t.replace(microsecond=a.t.microsecond // 1000 * 1000); B.log['t'] = a.t
        return a
    def run(self, M, a): return self.make(M, a).index_at_time(a.t)
    def post(self, C, a, out):
        j = out.value
        if not C.symbolic: C.holds('is_int', isinstance(j, (int, np.integer)))
        if C.symbolic and self.label == 'monthly':
            C.holds('step_of_its_month', Eq(a.start.year * 12 + a.start.month + j, a.t.year * 12 + a.t.month)); month_contains(C, a.t); return
        C.holds('step_starts_at_or_before', self.step_us(a.start, j) <= abs_us(a.t))
        C.holds('next_step_starts_after', self.step_us(a.start, j + 1) > abs_us(a.t))

class _Count(_Base):
    def setup(self, B): return self.schedule(B, self.cls == 'StepDailyEpoch')
    def run(self, M, a): return self.make(M, a).count()
    def post(self, C, a, out):
        n, f = out.value, self.first(a)
        C.holds('at_least_one', n >= 1)
        if C.symbolic and self.label == 'monthly':
            C.holds('last_step_is_month_of_end', Eq(a.start.year * 12 + a.start.month + n - 1, a.end.year * 12 + a.end.month)); month_contains(C, a.end); return
        C.holds('last_step_within', self.step_us(a.start, f + n - 1) <= abs_us(a.end))
        C.holds('no_further_step', self.step_us(a.start, f + n) > abs_us(a.end))

class _Order(_Base):
    def setup(self, B):
        a = self.schedule(B, self.cls == 'StepDailyEpoch'); a.i = B.int('i', 0, 2000); a.j = B.int('j', 0, 2000)
        if B.mode == 'random' and B.r.random() < .6: a.j = a.i + B.r.choice([1, 1, 2, 12])
        if B.mode == 'random' and a.j < a.i: a.i, a.j = a.j, a.i
        if B.symbolic and self.label == 'monthly': a.j = a.i + 1      # consecutive steps; transitivity gives the rest
        B.assume(a.i < a.j); return a
    def run(self, M, a):
        s = self.make(M, a); return s.time_at_index(a.i), s.time_at_index(a.j)
    def post(self, C, a, out): C.holds('increasing', abs_us(out.value[0]) < abs_us(out.value[1]))

class _Text(_Base):
    """start and end given as text are the same schedule as given as times; other types are refused"""
    prove = False
    def setup(self, B):
        a = self.schedule(B); a.start = a.start.replace(microsecond=0); a.end = a.end.replace(microsecond=0); a.bad = B.choice('bad', [None, 3, 2.5, ['x']])
        return a
    def run(self, M, a):
        c = getattr(M(self.mod), self.cls)
        f = lambda t: '%04d%02d%02d%02d%02d%02d' % (t.year, t.month, t.day, t.hour, t.minute, t.second)
        s = c(f(a.start), f(a.end))
        try: c(a.bad, a.end); bad = False
        except ValueError: bad = True
        return s.start, s.end, bad
    def post(self, C, a, out):
        C.holds('same_times', out.value[0] == a.start and out.value[1] == a.end)
        C.holds('refuses_other_types', out.value[2])

for k in KINDS:
    for base, what, meths in ((_Time, 'time_at_index', ('time_at_index', 'index_at_time')), (_Index, 'index_at_time', ('index_at_time',)), (_Count, 'count', ('count',)),
                              (_Order, 'order', ('time_at_index',)), (_Text, 'text', ('__init__', 'parsetime'))):
        contract(type('%s_%s' % (k.label, what), (k, base), dict(name='step.%s.%s' % (k.label, what), functions=tuple('%s:%s.%s' % (k.mod, k.cls, m) for m in meths),
                 __doc__=base.__doc__ or '%s schedule: %s agrees with the calendar for every start, end, index and time' % (k.label, what))))

@contract
class Once(Contract):
    """the single-step schedule has one step, index 0, for every time"""
    name = 'step.once'; functions = ('eumopps.catalogue.step:StepOnce.count', 'eumopps.catalogue.step:StepOnce.index_at_time')
    def setup(self, B): return NS(t=B.datetime('t'))
    def run(self, M, a):
        s = M('eumopps.catalogue.step').StepOnce(); return s.count(), s.index_at_time(a.t)
    def post(self, C, a, out): C.holds('one_step', And(Eq(out.value[0], 1), Eq(out.value[1], 0)))

MM = 'eustace.analysis.advanced_standard.examples.stepmidmonth'
@contract
class MidMonth(Contract):
    """step i of the mid-month schedule is the middle of the i-th month from the epoch's month, and an input in that month belongs to step i"""
    name = 'step.midmonth'; months = (1, 1); functions = (MM + ':StepMidMonth.time_at_index', MM + ':StepMidMonth.operation_indices_for_input_entry', MM + ':StepMidMonth.count')
    dates_in_range = True
    assumptions = ('StepMidMonth: the parsed epoch text is taken as given (datetime_numeric.parse is under contract in P03)',)
    def setup(self, B):
        a = NS(y=B.int('year', 1700, 2200), m=B.int('month', *self.months), i=B.int('i', 0, 1200), n=B.int('n', 1, 2000), t=B.datetime('t', lo=LO, hi=HI))
        a.epoch = dt(B, a.y, a.m, 1)
        return a
    def stubs(self, B, a):
        return {'eumopps.timeutils.datetime_numeric:parse': (lambda s: a.epoch)} if B.symbolic else {}
    def run(self, M, a):
        text = 'EPOCH' if not isinstance(a.y, int) else '%04d%02d01000000' % (a.y, a.m)
        s = M(MM).StepMidMonth(text, a.n)
        t = s.time_at_index(a.i)
        return t, s.operation_indices_for_input_entry(NS(time=t)), s.operation_indices_for_input_entry(NS(time=a.t)), s.count()
    def post(self, C, a, out):
        t, own, other, n = out.value
        w = a.y * 12 + a.m - 1 + a.i
        o0, o1 = sdt.ordinal_ymd(w // 12, w % 12 + 1, 1), sdt.ordinal_ymd((w + 1) // 12, (w + 1) % 12 + 1, 1)
        C.holds('count', Eq(n, a.n))
        C.holds('middle_of_month', Eq(2 * abs_us(t), (o0 + o1) * DAY_US))
        C.holds('own_index', And(len(own) == 1, Eq(own[0], a.i)))
        C.holds('months_since_epoch', And(len(other) == 1, Eq(a.y * 12 + a.m - 1 + other[0], a.t.year * 12 + a.t.month - 1)))

@contract
class MidMonthLaterEpoch(MidMonth):
    """as step.midmonth, for an epoch in February to December (known finding: time_at_index counts from January)"""
    name = 'step.midmonth.epoch_after_january'; months = (2, 12)
