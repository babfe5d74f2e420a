"""Contracts: one statement used three ways - as proof obligations, to replay counter-models, and in a bounded
concrete search with CPython."""
import fractions, json, math, random, sys, time, traceback, types
import numpy as np
import z3
from . import sym, snp, load, src
from .sym import Sym, OutOfSubset, PathEnd, Ctx, lift, wrapz, zbool, kind
from .snp import SArr

class Reject(Exception):
    """a random case that does not meet the precondition"""

class NS:
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self): return 'NS(%s)' % ', '.join('%s=%r' % kv for kv in self.__dict__.items())

class Obl:
    __slots__ = ('name', 'status', 'model', 'inputs', 'detail', 'time', 'kind', 'exact', 'abstract')
    def __init__(self, name, status, model=None, inputs=None, detail='', t=0.0, kind_='post'):
        self.name, self.status, self.model, self.inputs, self.detail, self.time, self.kind = name, status, model, inputs, detail, t, kind_
        self.exact = not (sym.CTX is not None and sym.CTX.cut); self.abstract = False

SECOND_SOLVER = {'used': 0}

def decide(pc, goal, timeout):
    """-> ('unsat'|'sat'|'unknown', model)   for pc and not goal"""
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*pc)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat: return 'sat', s.model()
    # second attempt: different tactic
    try:
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'smt').solver()
        t.set('timeout', timeout)
        t.add(*pc); t.add(z3.Not(goal))
        r = t.check()
        SECOND_SOLVER['used'] += 1
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', t.model()
    except z3.Z3Exception:
        pass
    return 'unknown', None

def oblige(name, cond, kind_='post'):
    c = sym.ctx()
    t0 = time.time()
    c.in_time()
    goal = z3.simplify(zbool(cond))
    if z3.is_true(goal):
        c.obls.append(Obl(name, 'discharged', t=0.0, kind_=kind_)); return
    r, m = decide(c.pc, goal, c.timeout)
    dt = time.time() - t0
    if r == 'unsat':
        c.obls.append(Obl(name, 'discharged', t=dt, kind_=kind_))
    elif r == 'sat':
        m = small_model(c, goal, m)
        c.obls.append(Obl(name, 'refuted', m, dict(c.inputs), 'goal: %s' % str(goal)[:600], dt, kind_)); c.obls[-1].abstract = mentions_abstract(goal) or getattr(c, 'counts', False)
    else:
        c.obls.append(Obl(name, 'unknown', detail=str(goal)[:300], t=dt, kind_=kind_))

ABSTRACT = {'sin', 'cos', 'tan', 'exp', 'log', 'pow', 'arcsin', 'arccos', 'arctan', 'cbrt', 'log10', 'gamma'}
def mentions_abstract(goal):
    """the goal speaks of functions of which only congruence is known (or of matrices in the free algebra): a counter-model proves nothing"""
    seen, todo = set(), [goal]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            n = t.decl().name()
            if n in ABSTRACT or n.startswith('phi['): return True
            todo += t.children()
        elif z3.is_quantifier(t): todo.append(t.body())
    return False

def small_model(c, goal, m):
    """prefer counter-models with small array extents / numbers, so that they can be replayed"""
    sizes = [lift(d) for desc in c.inputs.values() if desc[0] == 'array' for d in desc[2] if not isinstance(d, int)]
    ints = [desc[1] for desc in c.inputs.values() if desc[0] == 'int']
    reals = [desc[1] for desc in c.inputs.values() if desc[0] == 'real']
    for bound, vb in ((3, 50), (6, 5000), (12, None)):
        s = z3.Solver(); s.set('timeout', 3000)
        s.add(*c.pc); s.add(z3.Not(goal))
        for z in sizes: s.add(z <= bound)
        if vb is not None:
            for z in ints: s.add(z <= vb, z >= -vb)
            for z in reals: s.add(z <= vb, z >= -vb, z3.IsInt(z * 8))
        if s.check() == z3.sat: return s.model()
    return m

def oblige_forall(name, shape, fn, kind_='post'):
    idx, rng = snp.fresh_index(shape, 'w')
    c = sym.ctx()
    if not c.feasible(rng):
        c.obls.append(Obl(name, 'discharged', kind_=kind_)); return
    with local_assumption(c, rng):
        oblige(name, fn(*[wrapz(i) for i in idx]), kind_)

class local_assumption:
    """scope of an assumption (an index in range, an antecedent); definitional axioms met inside stay"""
    def __init__(self, c, cond): self.c, self.cond = c, cond
    def __enter__(self):
        c = self.c
        self.base, self.ndef, self.seen = len(c.pc), len(c.def_log), set(c.defs_seen)
        c.solver.push()
        c.assume(self.cond)
    def __exit__(self, *exc):
        c = self.c
        c.solver.pop()
        del c.pc[self.base:]
        c.defs_seen = self.seen
        for key, f in c.def_log[self.ndef:]:
            if key not in c.defs_seen:
                c.defs_seen.add(key); c.pc.append(f); c.solver.add(f)
        return False

# ------------------------------------------------------------------ builders

def _gen_real(r, lo, hi):
    m = r.random()
    if m < 0.25: v = r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 0.25, 10.0, -10.0, 90.0, -90.0, 180.0, -180.0])
    elif m < 0.6: v = r.randint(-40, 40) / 4.0
    else: v = r.uniform(-5, 5) if r.random() < 0.5 else r.uniform(-400, 400)
    if lo is not None and v < lo or hi is not None and v > hi:
        l = lo if lo is not None else hi - 100.0
        h = hi if hi is not None else lo + 100.0
        v = r.choice([l, h]) if r.random() < 0.2 and lo is not None and hi is not None else r.uniform(l, h)
        if r.random() < 0.3: v = min(max(float(round(v)), l), h)
    return v

class SymB:
    mode = 'sym'
    symbolic = True
    def __init__(self, c): self.c = c
    def int(self, name, lo=None, hi=None, gen=None):
        z = z3.Int(self.c.name('in_' + name))
        self.c.inputs[name] = ('int', z)
        if lo is not None: self.c.assume(z >= lift(lo))
        if hi is not None: self.c.assume(z <= lift(hi))
        return Sym(z)
    size = int
    def real(self, name, lo=None, hi=None, gen=None):
        z = z3.Real(self.c.name('in_' + name))
        self.c.inputs[name] = ('real', z)
        if lo is not None: self.c.assume(z >= lift(lo))
        if hi is not None: self.c.assume(z <= lift(hi))
        return Sym(z)
    def bool(self, name, gen=None):
        z = z3.Bool(self.c.name('in_' + name))
        self.c.inputs[name] = ('bool', z)
        return Sym(z)
    def flag16(self, name):
        z = z3.BitVec(self.c.name('in_' + name), 16)
        self.c.inputs[name] = ('int', z)
        return Sym(z)
    def choice(self, name, options):
        """fork over concrete alternatives"""
        z = z3.Int(self.c.name('in_' + name))
        self.c.inputs[name] = ('choice', z, options)
        self.c.assume(z3.And(z >= 0, z < len(options)))
        for n in range(len(options) - 1):
            if self.c.branch(z == n): return options[n]
        return options[-1]
    def array(self, name, shape, dtype='f8', lo=None, hi=None, gen=None):
        a = snp.fresh_array('in_' + name, shape, dtype)
        if lo is not None or hi is not None:
            base = a.buf.fn
            def fn(idx):
                v = base(idx)
                def f():
                    cs = []
                    if lo is not None: cs.append(zbool(Sym(v) >= lo))
                    if hi is not None: cs.append(zbool(Sym(v) <= hi))
                    return z3.And(*cs)
                if sym.CTX is not None: sym.CTX.define(('rng', v.get_id()), f)
                return v
            a.buf.fn = fn
        self.c.inputs[name] = ('array', a.buf.fn, tuple(shape), np.dtype(dtype))
        return a
    def marray(self, name, shape, dtype='f8', lo=None, hi=None, gen=None):
        return snp.SMArr(self.array(name, shape, dtype, lo, hi), self.array(name + '_mask', shape, bool))
    def datetime(self, name, **k):
        from . import sdt
        return sdt.sym_datetime(self, name, **k)
    def assume(self, cond): self.c.assume(cond)
    def fold(self, name, init, step, sort='i', nargs=0): return Fold(name, init, step, sort, nargs)
    def func(self, name, sorts, out='i', gen=None):
        """an arbitrary function of integers (e.g. file contents by day); sorts = number of int args"""
        f = sym.uf(self.c.name('in_' + name), *([z3.IntSort()] * sorts + [snp.zsort(out)]))
        self.c.inputs[name] = ('func', f, sorts, out)
        return lambda *a: wrapz(f(*[lift(x) for x in a]))

class _ConcreteB:
    symbolic = False
    def __init__(self): self.log = {}
    def assume(self, cond):
        if not bool(cond): raise Reject()
    def fold(self, name, init, step, sort='i', nargs=0): return CFold(init, step)
    def size(self, name, lo=None, hi=None, gen=None): return self.int(name, lo, hi, gen, size=True)
    def marray(self, name, shape, dtype='f8', lo=None, hi=None, gen=None):
        d = self.array(name, shape, dtype, lo, hi, gen)
        m = self.array(name + '_mask', shape, bool)
        return np.ma.masked_array(d, mask=m)
    def datetime(self, name, **k):
        from . import sdt
        return sdt.concrete_datetime(self, name, **k)

class RandB(_ConcreteB):
    mode = 'random'
    def __init__(self, rng): self.r = rng; self.nr = np.random.RandomState(rng.randrange(2**31)); self.log = {}
    def _rec(self, name, v): self.log[name] = v; return v
    def int(self, name, lo=None, hi=None, gen=None, size=False):
        if gen: return self._rec(name, gen(self.r))
        l = -10 if lo is None else int(lo); h = (l + 8 if size else l + 40) if hi is None else int(hi)
        if size and h > l + 8: h = l + 8
        m = self.r.random()
        if m < 0.15: v = l
        elif m < 0.25: v = h
        else: v = self.r.randint(l, h)
        return self._rec(name, v)
    def real(self, name, lo=None, hi=None, gen=None):
        return self._rec(name, gen(self.r) if gen else _gen_real(self.r, lo, hi))
    def bool(self, name, gen=None): return self._rec(name, self.r.random() < 0.5)
    def flag16(self, name): return self._rec(name, np.uint16(self.r.randrange(65536) if self.r.random() < .5 else 1 << self.r.randrange(16)))
    def choice(self, name, options):
        k = self.r.randrange(len(options)); self.log[name] = k
        return options[k]
    def array(self, name, shape, dtype='f8', lo=None, hi=None, gen=None):
        d = np.dtype(dtype); n = int(np.prod(shape)) if len(shape) else 1
        if gen: vals = [gen(self.r) for _ in range(n)]
        elif d.kind == 'b':
            p = self.r.choice([0.0, 0.1, 0.5, 0.9, 1.0]); vals = [self.r.random() < p for _ in range(n)]
        elif d == np.uint16:
            vals = [self.r.choice([0, 1 << self.r.randrange(16), self.r.randrange(65536), 65535]) for _ in range(n)]
        elif d.kind in 'iu':
            l = -5 if lo is None else int(lo); h = l + 12 if hi is None else int(hi)
            vals = [self.r.randint(l, h) for _ in range(n)]
        else: vals = [_gen_real(self.r, lo, hi) for _ in range(n)]
        return self._rec(name, np.array(vals, dtype=d).reshape([int(s) for s in shape]))
    def func(self, name, sorts, out='i', gen=None):
        memo = {}
        self.log[name] = memo
        def f(*a):
            key = tuple(int(x) for x in a)
            if key not in memo:
                if gen: memo[key] = gen(self.r, *key)
                elif out == 'b': memo[key] = self.r.random() < 0.6
                elif out == 'r': memo[key] = _gen_real(self.r, None, None)
                elif out.startswith('v'): memo[key] = np.uint16(self.r.randrange(65536))
                else: memo[key] = self.r.randint(-5, 12)
            return memo[key]
        return f

class ModelB(_ConcreteB):
    """inputs taken from a counter-model"""
    mode = 'model'
    def __init__(self, model, inputs): self.m, self.inputs, self.log = model, inputs, {}
    def _ev(self, z):
        v = self.m.eval(z, model_completion=True)
        return conc(v)
    def _get(self, name):
        if name not in self.inputs: raise Reject()
        return self.inputs[name]
    def int(self, name, lo=None, hi=None, gen=None, size=False):
        v = self._ev(self._get(name)[1]); self.log[name] = v; return v
    def real(self, name, lo=None, hi=None, gen=None):
        v = float(self._ev(self._get(name)[1])); self.log[name] = v; return v
    def bool(self, name, gen=None):
        v = bool(self._ev(self._get(name)[1])); self.log[name] = v; return v
    def flag16(self, name):
        v = np.uint16(self._ev(self._get(name)[1])); self.log[name] = v; return v
    def choice(self, name, options):
        k = int(self._ev(self._get(name)[1])); self.log[name] = k
        return options[min(max(k, 0), len(options) - 1)]
    def array(self, name, shape, dtype='f8', lo=None, hi=None, gen=None):
        _, fn, _, d = self._get(name)
        shape = tuple(int(s) for s in shape)
        if np.prod(shape) > 200000: raise Reject()
        out = np.zeros(shape, np.dtype(dtype))
        for ix in np.ndindex(*shape):
            out[ix] = conc(self.m.eval(fn(tuple(z3.IntVal(i) for i in ix)), model_completion=True))
        self.log[name] = out
        return out
    def func(self, name, sorts, out='i', gen=None):
        f = self._get(name)[1]
        memo = {}; self.log[name] = memo
        def g(*a):
            v = conc(self.m.eval(f(*[z3.IntVal(int(x)) for x in a]), model_completion=True))
            if out.startswith('v'): v = np.uint16(v)
            memo[tuple(int(x) for x in a)] = v
            return v
        return g

def conc(v):
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_int_value(v): return v.as_long()
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(fractions.Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(12); return float(fractions.Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise Reject()

class Fold:
    """F(0,c)=init(c); F(k+1,c)=step(k,F(k,c),c): symbolic, unfolded one level at every mention"""
    def __init__(self, name, init, step, sort, nargs):
        c = sym.ctx()
        self.f = sym.uf(c.name('fold_' + name), *([z3.IntSort()] * (nargs + 1) + [snp.zsort(sort)]))
        self.init, self.step, self.sort = init, step, sort
        self.known = {}
    def know(self, k, shape, fn): self.known.setdefault(z3.simplify(lift(k)).get_id(), []).append((z3.simplify(lift(k)), shape, fn))
    def use(self, zk, zc):
        for n, (z, shape, fn) in enumerate(self.known.get(zk.get_id(), ())):
            if not z.eq(zk): continue
            key = ('know', zk.get_id(), n) + tuple(x.get_id() for x in zc)
            c = sym.ctx()
            if key in c.defs_seen: continue
            c.defs_seen.add(key)
            rng = z3.And(*[z3.And(i >= 0, i < lift(d)) for i, d in zip(zc, shape)]) if zc else z3.BoolVal(True)
            f = z3.Implies(rng, zbool(fn(*[wrapz(x) for x in zc])))
            c.def_log.append((key, f)); c.pc.append(f); c.solver.add(f); c.keep = getattr(c, 'keep', []); c.keep += [zk] + zc
    def __call__(self, k, *cell):
        c = sym.ctx()
        zk = z3.simplify(lift(k)); zc = [lift(x) for x in cell]
        t = self.f(zk, *zc)
        if not z3.is_int_value(zk): c.counts = True      # unfolded one level only: a counter-model proves nothing
        self.use(zk, zc)
        def ax():
            base = snp.castcode(lift(self.init(*[wrapz(x) for x in zc])), self.sort)
            if z3.is_int_value(zk) and zk.as_long() == 0: return t == base
            km = z3.simplify(zk - 1)
            prev = self.f(km, *zc)
            self.use(km, zc)
            if z3.is_int_value(zk) and zk.as_long() > 0: self(wrapz(km), *cell)
            nxt = snp.castcode(lift(self.step(wrapz(km), wrapz(prev), *[wrapz(x) for x in zc])), self.sort)
            return z3.And(z3.Implies(zk <= 0, t == base), z3.Implies(zk > 0, t == nxt))
        c.define(('fold', t.get_id()), ax)
        c.keep = getattr(c, 'keep', []); c.keep.append(t)
        return wrapz(t)

class CFold:
    def __init__(self, init, step): self.init, self.step = init, step
    def __call__(self, k, *cell):
        v = self.init(*cell)
        for i in range(int(k)): v = self.step(i, v, *cell)
        return v

# ------------------------------------------------------------------ checkers

class SymC:
    symbolic = True
    def holds(self, name, cond): oblige(self.prefix + name, cond)
    def forall(self, name, shape, fn): oblige_forall(self.prefix + name, shape, fn)
    def __init__(self, prefix): self.prefix = prefix + '.'
    def lemma(self, cond):
        """prove, then use"""
        oblige(self.prefix + 'lemma', cond); sym.ctx().assume(cond)

    def induction(self, name, n, H):
        """prove H(0) and H(k) -> H(k + 1) for 0 <= k < n; returns use(k), which makes H(k) available for 0 <= k <= n"""
        oblige(self.prefix + name + '.base', H(0))
        k = sym.Sym(z3.Int(sym.ctx().name('ind')))
        h, h1 = H(k), H(k + 1)
        oblige(self.prefix + name + '.step', sym.Implies(sym.And(k >= 0, k < n, h), h1))
        def use(j): sym.ctx().assume(sym.Implies(sym.And(j >= 0, j <= n), H(j)))
        return use
    def follows(self, facts, goal, name='lemma'):
        """prove each fact in context, then the goal from these facts alone; then use the goal"""
        for f in facts: oblige(self.prefix + name + '.fact', f)
        c = sym.ctx(); t0 = time.time()
        r, m = decide([zbool(f) for f in facts], zbool(goal), c.timeout)
        c.obls.append(Obl(self.prefix + name, 'discharged' if r == 'unsat' else 'unknown', t=time.time() - t0))
        c.assume(goal)

class Failed(Exception):
    pass

class ConC:
    symbolic = False
    def __init__(self, prefix): self.prefix = prefix + '.'; self.n = 0
    def lemma(self, cond): pass
    def follows(self, facts, goal, name='lemma'): pass
    def induction(self, name, n, H): return lambda j: None
    def holds(self, name, cond):
        self.n += 1
        try: ok = bool(cond)
        except ValueError: ok = bool(np.all(cond))
        if not ok: raise Failed(self.prefix + name)
    def forall(self, name, shape, fn):
        for ix in np.ndindex(*[int(s) for s in shape]):
            self.n += 1
            if not bool(fn(*ix)): raise Failed('%s at %r' % (self.prefix + name, ix))

class Outcome:
    def __init__(self, value=None, exc=None): self._v, self.exc = value, exc
    @property
    def raised(self): return self.exc is not None
    def raises(self, *types_): return self.exc is not None and isinstance(self.exc, types_)
    @property
    def value(self):
        if self.exc is not None: raise UnexpectedException(self.exc)
        return self._v

class UnexpectedException(Exception):
    def __init__(self, exc): self.exc = exc; Exception.__init__(self, '%s: %s' % (type(exc).__name__, exc))

class Contract:
    """Subclass per function (or small group) under contract."""
    name = None
    functions = ()          # 'module:qualname' under contract
    invariants = {}
    prove = True            # attempt deductive proof
    search = True           # bounded concrete search
    weight = 1.0
    timeout_ms = 10000
    assumptions = ()
    max_paths = 600
    def setup(self, B): return NS()
    def stubs(self, B, a): return {}
    def run(self, M, a): raise NotImplementedError
    def post(self, C, a, out): raise NotImplementedError
    def get_invariants(self, B, a): return dict(self.invariants)

def getmods(symbolic):
    return load.sload if symbolic else src.cimport

GONE = object()
class Patch:
    """temporarily bind stubs for callees / external functions"""
    def __init__(self, stubs, symbolic): self.stubs, self.symbolic = stubs, symbolic
    def __enter__(self):
        self.undo = []
        get = getmods(self.symbolic)
        for target, fn in self.stubs.items():
            only = hasattr(fn, 'v') and type(fn).__name__ == 'Only'
            if only: fn = fn.v
            mod, qual = target.split(':')
            try: m = get(mod)
            except ImportError: continue
            if type(fn).__name__ == 'Shadow':       # a name of the module that hides a builtin
                self.undo.append((m, qual, vars(m).get(qual, GONE))); setattr(m, qual, fn.v)
                continue
            parts = qual.split('.')
            obj = m
            for p in parts[:-1]: obj = getattr(obj, p, None)
            if obj is None or not hasattr(obj, parts[-1]):
                continue
            raw = obj.__dict__.get(parts[-1], getattr(obj, parts[-1])) if hasattr(obj, '__dict__') else getattr(obj, parts[-1])
            old = getattr(obj, parts[-1])
            self.undo.append((obj, parts[-1], raw)); setattr(obj, parts[-1], staticmethod(fn) if isinstance(raw, staticmethod) else fn)
            if len(parts) == 1 and not only:
                pool = load.SMODS.values() if self.symbolic else [v for k, v in list(sys.modules.items()) if k.split('.')[0] in src.ROOTS and v is not None]
                for mm in list(pool):
                    for k, v in list(vars(mm).items()):
                        if v is old and not (mm is obj and k == parts[-1]):
                            self.undo.append((mm, k, v)); setattr(mm, k, fn)
        return self
    def __exit__(self, *a):
        for obj, k, v in reversed(self.undo):
            if v is GONE: delattr(obj, k)
            else: setattr(obj, k, v)

def prove(ct, deadline=None):
    """explore all paths of one contract; -> dict(result)"""
    res = dict(name=ct.name, obligations=[], paths=0, oos=None, exceptions=[], covered=False, stubs=set(), time=0.0)
    t0 = time.time()
    pending = [[]]
    while pending:
        if res['paths'] >= ct.max_paths: res['oos'] = 'more than %d paths' % ct.max_paths; break
        if deadline and time.time() > deadline: res['oos'] = 'proof time budget used up'; break
        c = Ctx(ct.timeout_ms); c.deadline = deadline
        c.decisions, c.pos, c.pending = pending.pop(), 0, pending
        c.invariants = {}
        c.dates_in_range = getattr(ct, 'dates_in_range', False)
        old = sym.set_ctx(c)
        res['paths'] += 1
        try:
            B = SymB(c)
            a = ct.setup(B)
            if not res['covered']:
                # vacuity guard: the precondition must be satisfiable
                r = c.solver.check()
                if r == z3.unsat: raise PathEnd('infeasible precondition path')
                res['covered'] = True
            c.invariants = ct.get_invariants(B, a)
            st = ct.stubs(B, a)
            res['stubs'] |= set(st)
            with Patch(st, True):
                try:
                    out = Outcome(ct.run(load.sload, a))
                except (PathEnd, OutOfSubset): raise
                except (KeyboardInterrupt, MemoryError): raise
                except Exception as e:
                    out = Outcome(exc=e); e._tb = traceback.format_exc()
                try:
                    ct.post(SymC(ct.name), a, out)
                except UnexpectedException as e:
                    r0 = c.solver.check()
                    if r0 == z3.unsat: raise PathEnd('infeasible')
                    m = c.solver.model() if r0 == z3.sat else None
                    res['obligations'].append(Obl(ct.name + '.no_exception', 'exception', m, dict(c.inputs), getattr(e.exc, '_tb', str(e))[-1500:]))
        except (PathEnd, Reject): pass
        except OutOfSubset as e:
            res['oos'] = str(e) + ' @ ' + where()
        except (KeyboardInterrupt, MemoryError): raise
        except z3.Z3Exception as e:
            res['oos'] = 'z3: %s @ %s' % (str(e)[:200], where())
        except Exception as e:
            res['oos'] = 'engine: %s: %s @ %s' % (type(e).__name__, str(e)[:300], where())
        finally:
            sym.set_ctx(old)
            res['obligations'] += c.obls
        if res['oos']: break
        if sum(o.status == 'refuted' for o in res['obligations']) >= 4: break
    res['time'] = time.time() - t0
    return res

def where():
    tb = sys.exc_info()[2]
    frames = traceback.extract_tb(tb)
    best = ''
    for f in frames:
        if '/repo' in f.filename or src.REPO in f.filename: best = '%s:%d' % (f.filename, f.lineno)
    return best or ('%s:%d' % (frames[-1].filename, frames[-1].lineno) if frames else '?')

def run_concrete(ct, B):
    """-> None if the contract holds, else a description. Raises Reject if the precondition is not met."""
    a = ct.setup(B)
    st = ct.stubs(B, a)
    with Patch(st, False):
        try:
            out = Outcome(ct.run(src.cimport, a))
        except Reject: raise
        except Exception as e:
            out = Outcome(exc=e); e._tb = traceback.format_exc()
        C = ConC(ct.name)
        try:
            ct.post(C, a, out)
        except Failed as e:
            return str(e) + (' [raised %s: %s]' % (type(out.exc).__name__, str(out.exc)[:200]) if out.exc is not None else '')
        except UnexpectedException as e:
            return '%s.no_exception: %s' % (ct.name, e)
    ct._checks = getattr(ct, '_checks', 0) + C.n
    return None
