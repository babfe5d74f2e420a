"""Symbolic values and path exploration (the VC generator's core).

A *path* is one execution of real code by CPython in which data are `Sym` objects holding z3 terms.
Truth tests on `Sym` booleans call `branch`, which forks; all feasible paths are explored by re-execution.
"""
import fractions, math, numbers, time
import numpy as np
import z3

Fr = fractions.Fraction

class OutOfSubset(BaseException):
    """the code used something the engine does not model: undecided, never a violation"""

class PathEnd(BaseException):
    """this path is finished (loop iteration closed by its invariant, or infeasible)"""

class Ctx:
    def __init__(self, timeout_ms=10000):
        self.timeout = timeout_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', min(3000, timeout_ms))
        self.pc = []
        self.decisions = []
        self.pos = 0
        self.pending = None        # list of prefixes to explore (owned by explorer)
        self.counter = {}
        self.obls = []             # obligations met on this path
        self.writes = []           # (buffer) write log, for loop frames
        self.inputs = {}           # name -> builder descriptor, for counterexamples
        self.max_branches = 4000
        self.stubs_used = set()
        self.notes = set()
        self.branches = 0
        self.defs_seen = set()
        self.def_log = []
        self.deadline = None       # end of the time for proofs
        self.cut = False           # a loop was cut at an invariant on this path

    # -- names
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    # -- assumptions
    def assume(self, cond):
        c = zbool(cond)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def define(self, key, formula_fn):
        """add a definitional axiom instance once per path"""
        if key in self.defs_seen:
            return
        self.defs_seen.add(key)
        f = formula_fn()
        self.def_log.append((key, f))
        self.pc.append(f)
        self.solver.add(f)

    def in_time(self):
        if self.deadline and time.time() > self.deadline: raise OutOfSubset('proof time budget used up')

    def feasible(self, cond):
        self.in_time()
        r = self.solver.check(cond)
        return r != z3.unsat

    def branch(self, cond):
        c = z3.simplify(zbool(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            self.branches += 1
            if self.branches > self.max_branches:
                raise OutOfSubset('too many branches on one path')
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if t and f:
                d = True
                self.pending.append(self.decisions[:self.pos] + [False])
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd('infeasible')
            self.decisions = self.decisions[:self.pos] + [d]
        self.pos += 1
        c = c if d else z3.Not(c)
        self.pc.append(c)
        self.solver.add(c)
        return d

CTX = None
def ctx():
    if CTX is None:
        raise OutOfSubset('symbolic value used outside a symbolic path')
    return CTX
def set_ctx(c):
    global CTX
    old, CTX = CTX, c
    return old

def merge(fn):
    """Run fn over all its feasible branches and return the ite-merged value (fn must be pure)."""
    c = ctx()
    saved = (c.decisions, c.pos, c.pending, len(c.pc))
    deflog0 = len(c.def_log)
    pending = [[]]
    results = []
    try:
        while pending:
            c.decisions, c.pos, c.pending = pending.pop(), 0, pending
            base = len(c.pc)
            c.solver.push()
            seen = set(c.defs_seen)
            try:
                n0 = len(c.def_log)
                v = fn()
                defs = set(f.get_id() for _, f in c.def_log[n0:])
                results.append(([p for p in c.pc[base:] if p.get_id() not in defs], v))
            except PathEnd:
                pass
            finally:
                c.solver.pop()
                del c.pc[base:]
                c.defs_seen = seen
            if len(results) > 256:
                raise OutOfSubset('merge explosion')
    finally:
        c.decisions, c.pos, c.pending = saved[0], saved[1], saved[2]
    for key, f in c.def_log[deflog0:]:      # definitional facts hold everywhere
        if key not in c.defs_seen:
            c.defs_seen.add(key); c.pc.append(f); c.solver.add(f)
    if not results:
        raise PathEnd('infeasible merge')
    # definitional axioms inside a branch are conditions like any other: conjunction of the branch's pc
    out = results[-1][1]
    for pcs, v in reversed(results[:-1]):
        out = ite(z3.And(*pcs) if pcs else z3.BoolVal(True), v, out)
    return out

# ---------------------------------------------------------------- scalar terms

def is_concrete_number(x):
    return isinstance(x, (bool, int, float, Fr, np.number, np.bool_))

def zreal(x):
    if isinstance(x, (float, np.floating)):
        single = isinstance(x, np.float32)
        lit = str(x)
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise OutOfSubset('nan/inf constant')
        f = Fr(lit if single else repr(x))          # a literal denotes its decimal value
        return z3.RealVal(f)
    if isinstance(x, Fr):
        return z3.RealVal(x)
    return z3.RealVal(int(x))

def lift(x):
    if isinstance(x, Sym):
        return x.z
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating, Fr)):
        return zreal(x)
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x[()])
    raise OutOfSubset('cannot lift %r' % type(x))

def kind(z):
    s = z.sort().kind()
    return {z3.Z3_BOOL_SORT: 'b', z3.Z3_INT_SORT: 'i', z3.Z3_REAL_SORT: 'r', z3.Z3_BV_SORT: 'v'}.get(s, 'u')

def zbool(x):
    if isinstance(x, Sym):
        x = x.z
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.ExprRef):
        k = kind(x)
        if k == 'b':
            return x
        if k in 'ir':
            return x != 0
        if k == 'v':
            return x != 0
    raise OutOfSubset('not boolean: %r' % type(x))

def coerce(a, b):
    """two z3 terms to a common numeric sort"""
    ka, kb = kind(a), kind(b)
    if ka == kb:
        if ka == 'v' and a.size() != b.size():
            n = max(a.size(), b.size())
            return z3.ZeroExt(n - a.size(), a), z3.ZeroExt(n - b.size(), b)
        return a, b
    if 'v' in (ka, kb):
        if ka != 'v':
            y, x = coerce(b, a)
            return x, y
        if kb == 'i':
            if z3.is_int_value(b):
                return a, z3.BitVecVal(b.as_long(), a.size())
            return z3.BV2Int(a), b
        if kb == 'b':
            return a, z3.If(b, z3.BitVecVal(1, a.size()), z3.BitVecVal(0, a.size()))
        return z3.ToReal(z3.BV2Int(a)), b
    if ka == 'b':
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0)); ka = 'i'
    if kb == 'b':
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0)); kb = 'i'
    if ka == 'i' and kb == 'r':
        a = z3.ToReal(a)
    elif ka == 'r' and kb == 'i':
        b = z3.ToReal(b)
    return a, b

def toreal(z):
    k = kind(z)
    if k == 'r': return z
    if k == 'i': return z3.ToReal(z)
    if k == 'b': return z3.If(z, z3.RealVal(1), z3.RealVal(0))
    if k == 'v': return z3.ToReal(z3.BV2Int(z))
    raise OutOfSubset('toreal')

def whole_term(z):
    """the integer term equal to a real term built from integers only, else None"""
    if z3.is_to_real(z): return z.arg(0)
    if z3.is_rational_value(z): return z3.IntVal(z.numerator_as_long()) if z.denominator_as_long() == 1 else None
    if z3.is_app(z) and z.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        xs = [whole_term(x) for x in z.children()]
        if any(x is None for x in xs): return None
        k = z.decl().kind()
        if k == z3.Z3_OP_UMINUS: return -xs[0]
        r = xs[0]
        for x in xs[1:]: r = r + x if k == z3.Z3_OP_ADD else r - x if k == z3.Z3_OP_SUB else r * x
        return r
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE:
        a, b = whole_term(z.arg(1)), whole_term(z.arg(2))
        return None if a is None or b is None else z3.If(z.arg(0), a, b)
    return None
def toint_floor(z):
    k = kind(z)
    if k == 'i': return z
    if k == 'b': return z3.If(z, z3.IntVal(1), z3.IntVal(0))
    if k == 'r':
        w = whole_term(z)
        return z3.ToInt(z) if w is None else w
    if k == 'v': return z3.BV2Int(z)
    raise OutOfSubset('toint')

def toint_trunc(z):
    if kind(z) != 'r':
        return toint_floor(z)
    w = whole_term(z)
    if w is not None: return w
    return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))

def num2(a, b):
    a, b = coerce(lift(a), lift(b))
    if kind(a) == 'b':
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0)); b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    return a, b

def zfloordiv(a, b):
    if kind(a) == 'r':
        return z3.ToReal(z3.ToInt(a / b))
    if kind(a) == 'v':
        return z3.UDiv(a, b)
    if z3.is_int_value(b):
        return a / b if b.as_long() > 0 else (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))

def zmod(a, b):
    if kind(a) == 'v':
        return z3.URem(a, b)
    if kind(a) == 'i' and z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return a - b * zfloordiv(a, b)

UF = {}
def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in UF:
        UF[key] = z3.Function(name, *sorts)
    return UF[key]
RS, IS = z3.RealSort(), z3.IntSort()

def zsqrt(x):
    """sqrt as an uninterpreted total function with its defining facts on non-negative arguments"""
    x = toreal(x)
    f = uf('sqrt', RS, RS)
    r = f(x)
    if CTX is not None:
        CTX.define(('sqrt', r.get_id()), lambda: z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r

def ufun1(name):
    def g(x):
        return uf(name, RS, RS)(toreal(x))
    return g

def zpow(a, b):
    b = z3.simplify(b)
    if z3.is_int_value(b) or z3.is_rational_value(b):
        f = Fr(b.as_fraction()) if z3.is_rational_value(b) and not z3.is_int_value(b) else Fr(b.as_long())
        if f.denominator == 1 and 0 <= f.numerator <= 8:
            out = None
            for _ in range(f.numerator):
                out = a if out is None else out * a
            if out is None:
                return z3.IntVal(1) if kind(a) == 'i' else z3.RealVal(1)
            return out
        if f.denominator == 1 and -8 <= f.numerator < 0:
            return z3.RealVal(1) / zpow(toreal(a), z3.IntVal(-f.numerator))
        if f == Fr(1, 2):
            return zsqrt(a)
    return uf('pow', RS, RS, RS)(toreal(a), toreal(b))

def zabs(a):
    if kind(a) == 'v': return a
    return z3.If(a >= 0, a, -a)

def binop(op, a, b):
    """z3-level binary operation with numpy/python numeric coercions (no exceptions, total)"""
    a, b = lift(a), lift(b)
    if op in ('and', 'or', 'xor'):
        if kind(a) == 'b' and kind(b) == 'b':
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        a, b = coerce(a, b)
        if kind(a) != 'v':
            if kind(a) == 'b':
                raise OutOfSubset('bit op on bool/int')
            raise OutOfSubset('bitwise operation on unbounded integers')
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
    if op in ('eq', 'ne'):
        if kind(a) == 'b' and kind(b) == 'b':
            r = a == b
        else:
            a, b = coerce(a, b)
            r = a == b
        return r if op == 'eq' else z3.Not(r)
    if op in ('lt', 'le', 'gt', 'ge'):
        a, b = num2(a, b)
        if kind(a) == 'v':
            return {'lt': z3.ULT, 'le': z3.ULE, 'gt': z3.UGT, 'ge': z3.UGE}[op](a, b)
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[op]()
    if op == 'lshift' or op == 'rshift':
        a2, b2 = coerce(a, b)
        if kind(a2) == 'v':
            return a2 << b2 if op == 'lshift' else z3.LShR(a2, b2)
        if z3.is_int_value(b):
            k = 2 ** b.as_long()
            return a * k if op == 'lshift' else zfloordiv(a, z3.IntVal(k))
        raise OutOfSubset('shift')
    a, b = num2(a, b)
    if op == 'add': return a + b
    if op == 'sub': return a - b
    if op == 'mul': return a * b
    if op == 'truediv':
        return toreal(a) / toreal(b)
    if op == 'floordiv': return zfloordiv(a, b)
    if op == 'mod': return zmod(a, b)
    if op == 'pow': return zpow(a, b)
    if op == 'min': return z3.If(a <= b, a, b)
    if op == 'max': return z3.If(a >= b, a, b)
    raise OutOfSubset('binop ' + op)

def wrapz(z):
    """z3 term -> python value (constants become plain python numbers)"""
    if isinstance(z, (Sym, int)): return z
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    return Sym(z)

class Sym:
    """symbolic scalar"""
    __slots__ = ('z', 'np')
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, z, np_=False):
        self.z = z
        self.np = np_       # numpy scalar semantics (no ZeroDivisionError)
    def __repr__(self): return 'Sym(%s)' % self.z
    def __hash__(self): raise OutOfSubset('hash of symbolic value')
    def __bool__(self): return ctx().branch(zbool(self.z))
    def __index__(self):
        z = z3.simplify(self.z)
        if z3.is_int_value(z): return z.as_long()
        raise OutOfSubset('symbolic value used as a concrete index/size')
    def __int__(self):
        return self.__index__()
    def __float__(self):
        z = z3.simplify(self.z)
        if z3.is_int_value(z): return float(z.as_long())
        if z3.is_rational_value(z): return float(Fr(z.as_fraction()))
        raise OutOfSubset('float() of symbolic value')
    def _b(self, op, o, rev=False):
        from . import snp
        if isinstance(o, (snp.SArr, snp.SMArr, snp.SSel)): return NotImplemented
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return snp.elementwise(op, o, self) if rev else snp.elementwise(op, self, o)
        if hasattr(o, '_vf_rbin'): return NotImplemented
        try:
            oz = lift(o)
        except OutOfSubset:
            if op == 'eq': return False
            if op == 'ne': return True
            if o is None or isinstance(o, str):
                raise TypeError('unsupported operand')
            return NotImplemented
        a, b = (oz, self.z) if rev else (self.z, oz)
        if op in ('truediv', 'floordiv', 'mod') and not self.np:
            if ctx().branch(toreal(b) == 0):
                raise ZeroDivisionError('division by zero')
        return wrapz2(binop(op, a, b), self.np)
    def __add__(s, o): return s._b('add', o)
    def __radd__(s, o): return s._b('add', o, True)
    def __sub__(s, o): return s._b('sub', o)
    def __rsub__(s, o): return s._b('sub', o, True)
    def __mul__(s, o): return s._b('mul', o)
    def __rmul__(s, o): return s._b('mul', o, True)
    def __truediv__(s, o): return s._b('truediv', o)
    def __rtruediv__(s, o): return s._b('truediv', o, True)
    def __floordiv__(s, o): return s._b('floordiv', o)
    def __rfloordiv__(s, o): return s._b('floordiv', o, True)
    def __mod__(s, o): return s._b('mod', o)
    def __rmod__(s, o): return s._b('mod', o, True)
    def __divmod__(s, o): return (s // o, s % o)
    def __pow__(s, o): return s._b('pow', o)
    def __rpow__(s, o): return s._b('pow', o, True)
    def __lt__(s, o): return s._b('lt', o)
    def __le__(s, o): return s._b('le', o)
    def __gt__(s, o): return s._b('gt', o)
    def __ge__(s, o): return s._b('ge', o)
    def __eq__(s, o): return s._b('eq', o)
    def __ne__(s, o): return s._b('ne', o)
    def __and__(s, o): return s._b('and', o)
    def __rand__(s, o): return s._b('and', o, True)
    def __or__(s, o): return s._b('or', o)
    def __ror__(s, o): return s._b('or', o, True)
    def __xor__(s, o): return s._b('xor', o)
    def __rxor__(s, o): return s._b('xor', o, True)
    def __lshift__(s, o): return s._b('lshift', o)
    def __rlshift__(s, o): return s._b('lshift', o, True)
    def __rshift__(s, o): return s._b('rshift', o)
    def __invert__(s):
        if kind(s.z) == 'b': return wrapz(z3.Not(s.z))
        if kind(s.z) == 'v': return Sym(~s.z, s.np)
        return -s - 1
    def __neg__(s): return wrapz2(-num2(s.z, 0)[0], s.np)
    def __pos__(s): return s
    def __abs__(s): return wrapz2(zabs(num2(s.z, 0)[0]), s.np)
    # numpy-scalar-like interface
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def real(self): return self
    def item(self): return Sym(self.z)
    def astype(self, dt):
        from . import snp
        return wrapz(snp.cast(self.z, dt))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def is_integer(self): return wrapz(z3.IsInt(toreal(self.z)))

def wrapz2(z, np_):
    w = wrapz(z)
    if isinstance(w, Sym):
        w.np = np_
    return w

def ite(c, a, b):
    """polymorphic if-then-else on values"""
    c = z3.simplify(zbool(c))
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if hasattr(a, '_vf_ite'): return a._vf_ite(c, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if a is None and b is None: return None
    if isinstance(a, str) and a == b: return a
    za, zb = lift(a), lift(b)
    if kind(za) != kind(zb) or za.sort() != zb.sort():
        za, zb = coerce(za, zb)
    return wrapz(z3.If(c, za, zb))

# ---------------------------------------------------------------- polymorphic specification operators
# (accept Sym or plain values; with plain values only they compute plain results)

def _symbolic(*xs):
    return any(isinstance(x, (Sym, z3.ExprRef)) for x in xs)

def And(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    if _symbolic(*xs): return wrapz(z3.And(*[zbool(x) for x in xs]))
    return all(bool(x) for x in xs)
def Or(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    if _symbolic(*xs): return wrapz(z3.Or(*[zbool(x) for x in xs]))
    return any(bool(x) for x in xs)
def Not(x):
    return wrapz(z3.Not(zbool(x))) if _symbolic(x) else (not bool(x))
def Implies(a, b):
    return Or(Not(a), b)
def Iff(a, b):
    if _symbolic(a, b): return wrapz(zbool(a) == zbool(b))
    return bool(a) == bool(b)
def If(c, a, b):
    if _symbolic(c): return ite(c, a, b)
    return a if c else b
TOL = 1e-6
def Eq(a, b, tol=None):
    """equality: exact on symbolic and integral values, within rounding on concrete floats"""
    if _symbolic(a, b):
        return wrapz(binop('eq', a, b))
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b): return a == b
        t = TOL if tol is None else tol
        return abs(a - b) <= t * max(1.0, abs(a), abs(b))
    return bool(a == b)
def Floor(x):
    if _symbolic(x): return wrapz(toint_floor(lift(x)))
    return int(math.floor(x))
def Trunc(x):
    if _symbolic(x): return wrapz(toint_trunc(lift(x)))
    return int(x)
def ToReal(x):
    if _symbolic(x): return wrapz(toreal(lift(x)))
    return float(x)
def Sqrt(x):
    if _symbolic(x): return wrapz(zsqrt(lift(x)))
    return math.sqrt(x)
def Min(a, b):
    if _symbolic(a, b): return wrapz(binop('min', a, b))
    return min(a, b)
def Max(a, b):
    if _symbolic(a, b): return wrapz(binop('max', a, b))
    return max(a, b)
def Abs(a):
    return abs(a)
