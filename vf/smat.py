"""Symbolic matrices of arbitrary (unbounded) dimension: linear combinations of non-commutative monomials in generator
matrices, with transposes, symmetric generators, inverse pairs and Kronecker products in normal form. Coefficients are real
terms, or dual numbers (value, derivative) for derivative contracts. Two such matrices are equal for all instances of the
generators if their images under an arbitrary linear functional are equal; the functional is uninterpreted per monomial,
so equality becomes an obligation in real arithmetic with uninterpreted functions that the SMT solver decides (also with
monomials that carry indices and with folds over sequences of matrices)."""
import hashlib
import numpy as np
import z3
from . import sym, snp
from .sym import Sym, OutOfSubset, lift, wrapz, toreal, RS, IS

class Dual:
    """value and derivative with respect to the one parameter under consideration"""
    __slots__ = ('v', 'd')
    def __init__(self, v, d): self.v, self.d = v, d
    @staticmethod
    def of(x): return x if isinstance(x, Dual) else Dual(x, 0)
    def __add__(s, o):
        if isinstance(o, SMat): return NotImplemented
        o = Dual.of(o); return Dual(s.v + o.v, s.d + o.d)
    __radd__ = __add__
    def __neg__(s): return Dual(-s.v, -s.d)
    def __sub__(s, o):
        if isinstance(o, SMat): return NotImplemented
        o = Dual.of(o); return Dual(s.v - o.v, s.d - o.d)
    def __rsub__(s, o): return Dual.of(o) - s
    def __mul__(s, o):
        if isinstance(o, SMat): return NotImplemented
        o = Dual.of(o); return Dual(s.v * o.v, s.d * o.v + s.v * o.d)
    def __rmul__(s, o): return Dual.of(o) * s
    def __truediv__(s, o): o = Dual.of(o); return Dual(s.v / o.v, (s.d * o.v - s.v * o.d) / (o.v * o.v))
    def __rtruediv__(s, o): return Dual.of(o) / s
    def __pow__(s, n):
        if isinstance(n, Dual): 
            if not (isinstance(n.d, (int, float)) and n.d == 0): raise OutOfSubset('power with varying exponent')
            n = n.v
        if isinstance(n, float) and n == int(n): n = int(n)
        if not isinstance(n, (int, np.integer)): raise OutOfSubset('dual number to a non-integer power')
        n = int(n)
        if n == 0: return Dual(1, 0)
        if n < 0: return 1 / (s ** (-n))
        out = s
        for _ in range(n - 1): out = out * s
        return out
    def vf_numpy(self, name, f, *a, **k):
        if name == 'exp': e = f(self.v); return Dual(e, e * self.d)
        if name == 'square': return self * self
        if name == 'array' or name == 'asarray' or name == 'squeeze' or name == 'ravel': return self
        raise OutOfSubset('numpy.%s of a dual number' % name)
    def __eq__(self, o): raise OutOfSubset('comparison of dual numbers')
    __hash__ = None
    def __repr__(self): return 'Dual(%r, %r)' % (self.v, self.d)
    def item(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0

class Gen:
    """generator matrix; args are index terms (the k-th design), sym: equals its transpose"""
    __slots__ = ('name', 'args', 'sym', 't', 'inv', 'diag')
    def __init__(self, name, args=(), symmetric=False, t=False, inv=None, diag=False): self.name, self.args, self.sym, self.t, self.inv, self.diag = name, tuple(args), symmetric or diag, t, inv, diag
    def T(self): return self if self.sym else Gen(self.name, self.args, self.sym, not self.t, self.inv)
    def key(self): return (self.name, tuple(a.get_id() if isinstance(a, z3.ExprRef) else a for a in self.args), self.t)
    def label(self): return self.name + ("'" if self.t else '')
    def zargs(self): return list(self.args)
class KronGen:
    __slots__ = ('a', 'b')
    def __init__(self, a, b): self.a, self.b = a, b
    def T(self): return KronGen(tuple(x.T() for x in reversed(self.a)), tuple(x.T() for x in reversed(self.b)))
    def key(self): return ('kron', tuple(x.key() for x in self.a), tuple(x.key() for x in self.b))
    def label(self): return 'kron(%s|%s)' % ('.'.join(x.label() for x in self.a), '.'.join(x.label() for x in self.b))
    def zargs(self): return [z for x in self.a + self.b for z in x.zargs()]
    inv = None; name = 'kron'; diag = False

def mono(ms):
    out = []
    for g in ms:
        if out and isinstance(g, KronGen) and isinstance(out[-1], KronGen):
            h = out.pop(); g = KronGen(mono(h.a + g.a), mono(h.b + g.b))
        # a generator and its inverse cancel; diagonal ones commute with each other
        n = len(out) - 1
        while n >= 0:
            h = out[n]
            if g.inv is not None and h.inv is not None and (g.inv == h.name or h.inv == g.name) and g.key()[1] == h.key()[1]: break
            if not (g.diag and h.diag): n = -1; break
            n -= 1
        if n >= 0: del out[n]; continue
        n = len(out)
        while g.diag and n > 0 and out[n - 1].diag and repr(g.key()) < repr(out[n - 1].key()): n -= 1
        out.insert(n, g)
    return tuple(out)

def cadd(a, b): return a + b if isinstance(a, (Dual,)) or not isinstance(b, Dual) else b + a
def iszero(c): return isinstance(c, (int, float)) and c == 0

class SMat:
    vf_matrix = True
    def __init__(self, terms, shape, sparse=True, special=None):
        self.terms, self.shape_, self.sparse = {}, tuple(shape), sparse
        for m, c in terms: self._add(m, c)
    def _add(self, m, c):
        k = tuple(g.key() for g in m)
        if k in self.terms: self.terms[k] = (m, cadd(self.terms[k][1], c))
        else: self.terms[k] = (m, c)
        if iszero(self.terms[k][1]): del self.terms[k]
    # ---- construction
    @staticmethod
    def gen(name, shape, args=(), symmetric=False, sparse=True, inv=None, diag=False):
        return SMat([((Gen(name, [lift(a) for a in args], symmetric, False, inv, diag),), 1)], shape, sparse)
    @staticmethod
    def zero(shape, sparse=True): return SMat([], shape, sparse)
    @staticmethod
    def eye(n): return SMat([((), 1)], (n, n), True)
    def like(self, terms, shape=None, sparse=None): return SMat(terms, self.shape_ if shape is None else shape, self.sparse if sparse is None else sparse)
    def items(self): return list(self.terms.values())
    # ---- attributes
    @property
    def shape(self): return self.shape_
    @property
    def ndim(self): return len(self.shape_)
    @property
    def T(self):
        if len(self.shape_) == 1: return self.copy()          # numpy: the transpose of a vector is itself
        sh = tuple(reversed(self.shape_))
        return self.like([(mono(tuple(g.T() for g in reversed(m))), c) for m, c in self.items()], sh)
    def transpose(self): return self.T
    def tocsc(self, **k): return self
    tocsr = tocoo = todok = tolil = tocsc
    def asformat(self, f, copy=False): return self
    def diagonal(self, k=0):
        if k: raise OutOfSubset('diagonal')
        return DVec(self)
    @staticmethod
    def const(m):
        """a concrete matrix as a constant of the algebra"""
        d = np.asarray(m.todense()) if scipy.sparse.issparse(m) else np.asarray(m)
        if d.ndim != 2: raise OutOfSubset('constant of the matrix algebra')
        n = d.shape
        if not d.any(): return SMat.zero(n)
        if n[0] == n[1] and d[0, 0] and (d == d[0, 0] * np.eye(n[0])).all(): return SMat.eye(n[0]).scale(float(d[0, 0]))
        lead = d.ravel()[np.flatnonzero(d)[0]]          # up to scale
        e = d / lead
        return SMat.gen('const_%s' % hashlib.sha1(repr((n, (e + 0.0).round(12).tolist())).encode()).hexdigest()[:12], n, (), n[0] == n[1] and bool((e == e.T).all())).scale(float(lead))
    def _vf_ite(self, c, o):
        if not isinstance(o, SMat): raise OutOfSubset('choice between a symbolic matrix and something else')
        one, zero = z3.RealVal(1), z3.RealVal(0)
        c = wrapz(c) if isinstance(c, z3.ExprRef) else c
        k = wrapz(z3.If(sym.zbool(c), one, zero)); m = wrapz(z3.If(sym.zbool(c), zero, one))
        sh = tuple(a if a is b or snp.same_dim(a, b) else sym.ite(c, a, b) for a, b in zip(self.shape_, o.shape_))
        return SMat(self.scale(k).items() + o.scale(m).items(), sh, self.sparse)
    def copy(self): return self.like(self.items())
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, dt): return self.copy()
    def todense(self): return self.like(self.items(), sparse=False)
    toarray = todense
    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = tuple(sh[0])
        return self._column(sh)
    def _column(self, sh):
        vec = len(self.shape_) == 1 or snp.same_dim(self.shape_[1], 1)
        n = self.shape_[0]
        if not vec: raise OutOfSubset('reshape of a symbolic matrix')
        ok = lambda d: (isinstance(d, int) and d == -1) or snp.same_dim(d, n)
        if len(sh) == 1 and ok(sh[0]): return self.like(self.items(), (n,))
        if len(sh) == 2 and ok(sh[0]) and snp.same_dim(sh[1], 1): return self.like(self.items(), (n, 1))
        raise OutOfSubset('reshape of a symbolic matrix')
    def ravel(self): return self._column((-1,))
    flatten = ravel
    def squeeze(self): return self.ravel() if len(self.shape_) == 2 and snp.same_dim(self.shape_[1], 1) else self
    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0: return self.copy()
        if isinstance(o, snp.SArr): o = nil(o)
        if scipy.sparse.issparse(o): o = SMat.const(o)
        if not isinstance(o, SMat): return NotImplemented
        self.conform(o)
        return SMat(self.items() + o.items(), self.shape_, self.sparse and o.sparse)
    __radd__ = __add__
    def conform(self, o):
        a, b = self.shape_, o.shape_
        if len(a) != len(b): raise OutOfSubset('broadcast of symbolic matrices')
        for x, y in zip(a, b):
            if not snp.same_dim(x, y): raise OutOfSubset('dimensions of symbolic matrices may differ')
    def __neg__(self): return self.scale(-1)
    def __sub__(self, o): return self + (-o if isinstance(o, SMat) else -1 * o)
    def __rsub__(self, o): return (-self) + o
    def scale(self, s): return self.like([(m, s * c if not isinstance(c, Dual) else c * s) for m, c in self.items()])
    def __iadd__(self, o):
        r = self + o
        if self.sparse: return r
        self.terms = r.terms; return self          # numpy arrays are updated in place
    def __isub__(self, o): return self.__iadd__(-o)
    def dot(self, o):
        if isinstance(o, (Sym, Dual, int, float, np.number)): return self.scale(o)
        if scipy.sparse.issparse(o): o = SMat.const(o)
        if isinstance(o, snp.SArr): o = nil(o)
        if not isinstance(o, SMat): raise OutOfSubset('product of a symbolic matrix with %s' % type(o).__name__)
        a, b = self.shape_, o.shape_
        if len(a) == 1:
            if not snp.same_dim(a[0], b[0]): raise OutOfSubset('inner dimensions of symbolic matrices may differ')
            if len(b) == 2: return o.T.dot(self)
            out = 0
            for m, c in self.items():
                for n, d in o.items(): out = out + number('q', mono(tuple(g.T() for g in reversed(m)) + n), False) * cmul(c, d)
            return out if isinstance(out, Sym) else wrapz(z3.RealVal(0))
        if not snp.same_dim(a[1], b[0]): raise OutOfSubset('inner dimensions of symbolic matrices may differ')
        return SMat([(mono(m + n), cmul(c, d)) for m, c in self.items() for n, d in o.items()], (a[0],) + b[1:], self.sparse and o.sparse)
    def __matmul__(self, o): return self.dot(o)
    def __mul__(self, o):
        if isinstance(o, (Sym, Dual, int, float, np.number)): return self.scale(o)
        if scipy.sparse.issparse(o): o = SMat.const(o)
        if not self.sparse and not getattr(o, 'sparse', False): raise OutOfSubset('elementwise product of symbolic matrices')
        return self.dot(o)
    def __rmul__(self, o):
        if isinstance(o, (Sym, Dual, int, float, np.number)): return self.scale(o)
        raise OutOfSubset('product')
    def __truediv__(self, o):
        if isinstance(o, (Sym, Dual, int, float, np.number)): return self.scale(1 / o if not isinstance(o, int) else wrapz(z3.Q(1, o)))
        raise OutOfSubset('division by a symbolic matrix')
    def __pow__(self, n):
        if not isinstance(n, int) or not self.sparse: raise OutOfSubset('power of a symbolic matrix')
        out = SMat.eye(self.shape_[0])
        for _ in range(n): out = out.dot(self)
        return out
    def __eq__(self, o): raise OutOfSubset('comparison of symbolic matrices')
    __hash__ = None
    def __bool__(self): raise OutOfSubset('truth value of a symbolic matrix')
    def __len__(self): raise OutOfSubset('len of a symbolic matrix')
    def vf_len(self): return self.shape_[0]
    def __getitem__(self, k): raise OutOfSubset('element of a symbolic matrix')
    def vf_numpy(self, name, f, *a, **k):
        if a[0] is not self: raise OutOfSubset('numpy.%s with a symbolic matrix' % name)
        if name in ('array', 'asarray', 'asanyarray', 'copy'): return self.todense()
        if name == 'ravel': return self.ravel()
        if name == 'squeeze': return self.squeeze()
        if name == 'transpose': return self.T
        if name == 'dot': return self.dot(a[1])
        if name in ('add', 'subtract'): return self + a[1] if name == 'add' else self - a[1]
        raise OutOfSubset('numpy.%s of a symbolic matrix' % name)
    # ---- meaning
    def value(self, part='v'):
        out = z3.RealVal(0)
        for m, c in self.items():
            if isinstance(c, Dual): c = c.v if part == 'v' else c.d
            elif part == 'd': c = 0
            args = [z for g in m for z in g.zargs()]
            nm = 'phi[%s]' % '.'.join(g.label() for g in m)
            p = sym.uf(nm, *([a.sort() for a in args] + [RS]))(*args) if args else z3.Real(nm)
            out = out + toreal(lift(c)) * p
        return out
    def real(self): return wrapz(self.value())
    def derivative(self): return wrapz(self.value('d'))
    def _vf_eq(self, o):
        if not isinstance(o, SMat): return False
        if len(self.shape_) != len(o.shape_): return False
        return sym.And(*[sym.Eq(a, b) for a, b in zip(self.shape_, o.shape_)], wrapz(self.value() == o.value()))
    def same(self, o): return self._vf_eq(o)
    def __repr__(self): return 'SMat(%s)' % ' + '.join('%s*%s' % (c, '.'.join(g.label() for g in m)) for m, c in self.items())

def nil(arr):
    """an array of zeros as a matrix"""
    z = arr.snapshot()(tuple(z3.Int('nil_%d' % k) for k in range(arr.ndim)))
    z = z3.simplify(z)
    if z3.is_int_value(z) or z3.is_rational_value(z):
        if z.as_fraction() == 0 if z3.is_rational_value(z) else z.as_long() == 0: return SMat.zero(arr.shape, False)
    raise OutOfSubset('symbolic matrix with array')
def cmul(c, d):
    if isinstance(d, Dual) and not isinstance(c, Dual): return d * c
    return c * d

def FoldMat(term, shape, sparse=True):
    """matrix known only through the value of the functional (a fold over a sequence of matrices)"""
    return SMat([((Gen('\x00', (toreal(lift(term)),)),), 1)], shape, sparse)
# a fold matrix is the monomial with the reserved name: its functional is its argument
_value = SMat.value
def value(self, part='v'):
    out = z3.RealVal(0); rest = []
    for m, c in self.items():
        if len(m) == 1 and isinstance(m[0], Gen) and m[0].name == '\x00':
            if part == 'v': out = out + toreal(lift(c)) * m[0].args[0]
        elif any(isinstance(g, Gen) and g.name == '\x00' for g in m): raise OutOfSubset('product with a folded matrix')
        else: rest.append((m, c))
    return out + _value(SMat(rest, self.shape_, self.sparse), part)
SMat.value = value

def number(kind, m, cyclic):
    """the scalar v'..w of a monomial, or the trace of a monomial: the same number for the transpose (and for rotations of a trace)"""
    def label(m): return tuple(g.label() for g in m), tuple(str(z) for g in m for z in g.zargs())
    if any(not isinstance(g, Gen) or g.name == '\x00' for g in m): raise OutOfSubset('number of a composite monomial')
    if cyclic:
        while len(m) > 1 and len(mono(m[-1:] + m[:-1])) < len(m): m = mono(m[-1:] + m[:-1])
    rots = [m[k:] + m[:k] for k in range(max(len(m), 1))] if cyclic else [m]
    m = min([r for x in rots for r in (x, tuple(g.T() for g in reversed(x)))], key=label)
    args = [z for g in m for z in g.zargs()]
    nm = '%s[%s]' % (kind, '.'.join(g.label() for g in m))
    return wrapz(sym.uf(nm, *([a.sort() for a in args] + [RS]))(*args) if args else z3.Real(nm))

class DVec:
    """the diagonal of a symbolic matrix"""
    def __init__(self, m): self.m = m
    def sum(self, axis=None, out=None, dtype=None):
        out = wrapz(z3.RealVal(0))
        for m, c in self.m.items(): out = out + number('tr', m, True) * c
        return out
    def __rtruediv__(self, o):
        it = self.m.items()
        if len(it) != 1 or len(it[0][0]) != 1 or not it[0][0][0].diag or it[0][0][0].inv is None or not (isinstance(it[0][1], (int, float)) and it[0][1] == 1): raise OutOfSubset('reciprocal of a diagonal')
        g = it[0][0][0]
        return DVec(SMat([((Gen(g.inv, g.args, True, False, g.name, True),), o)], self.m.shape_))
    def vf_numpy(self, name, f, *a, **k):
        if name == 'reciprocal': return 1.0 / self
        if name == 'sum' and not k and len(a) == 1: return self.sum()
        raise OutOfSubset('numpy.%s of a diagonal' % name)
class SDiag:
    """diagonal matrix of a symbolic vector"""
    _vf_sym = True
    def __init__(self, vec): self.vec = vec
    def diagonal(self): return self.vec
    def asformat(self, f): return self
    def _vf_rbin(self, op, o):
        if op == 'mul' and isinstance(o, snp.SArr) and o.ndim == 1: return o * self.vec      # row vector times diagonal matrix
        raise OutOfSubset('operation on a diagonal matrix')
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        raise OutOfSubset('diagonal matrix .' + n)
class Blocks:
    """block diagonal ('d'), or side by side ('h') / on top of each other ('v')"""
    _vf_sym = True
    def __init__(self, kind, seq): self.kind, self.seq = kind, seq
    def asformat(self, f): return self
    tocsr = tocsc = lambda self: self
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        raise OutOfSubset('block matrix .' + n)

def kron(a, b):
    if not isinstance(a, SMat) or not isinstance(b, SMat): raise OutOfSubset('kron')
    mul = lambda x, y: x * y
    return SMat([((KronGen(m, n),), cmul(c, d)) for m, c in a.items() for n, d in b.items()], (mul(a.shape_[0], b.shape_[0]), mul(a.shape_[1], b.shape_[1])), True)

# ------------------------------------------------------------------ scipy.sparse

import scipy, scipy.sparse
def _symdims(t): return isinstance(t, tuple) and len(t) == 2 and any(isinstance(d, Sym) for d in t)
class _Ctor(type):
    def __call__(cls, x, *a, **k):
        if isinstance(x, SMat): r = x.copy(); r.sparse = True; return r
        if _symdims(x): return SMat.zero(x)
        if snp.has_sym(x) or snp.has_sym(*a) or snp.has_sym(*k.values()) or isinstance(x, tuple) and any(isinstance(y, tuple) and snp.has_sym(*y) for y in x): raise OutOfSubset('sparse matrix of symbolic elements')
        return cls._vf_type(x, *a, **k)
    def __instancecheck__(cls, x): return isinstance(x, cls._vf_type)
def _ctor(n): return _Ctor(n, (), {'_vf_type': getattr(scipy.sparse, n)})
class FakeSparse:
    def __init__(self):
        for n in 'csc_matrix csr_matrix dok_matrix lil_matrix coo_matrix dia_matrix bsr_matrix'.split(): setattr(self, n, _ctor(n))
    def kron(self, a, b, format=None): return kron(a, b) if isinstance(a, SMat) or isinstance(b, SMat) else scipy.sparse.kron(a, b, format)
    def eye(self, m, n=None, k=0, *a, **kw):
        if isinstance(m, Sym):
            if k != 0 or n is not None and not snp.same_dim(m, n): raise OutOfSubset('eye')
            return SMat.eye(m)
        return scipy.sparse.eye(m, n, k, *a, **kw)
    def _blocks(self, kind, seq, f, format):
        from . import load
        if load.seq_of(seq) is not None or any(isinstance(x, SMat) for x in seq): return Blocks(kind, seq)
        return f(seq, format=format)
    def block_diag(self, seq, format=None, dtype=None): return self._blocks('d', seq, scipy.sparse.block_diag, format)
    def hstack(self, seq, format=None, dtype=None): return self._blocks('h', seq, scipy.sparse.hstack, format)
    def vstack(self, seq, format=None, dtype=None): return self._blocks('v', seq, scipy.sparse.vstack, format)
    def diags(self, d, offsets=0, shape=None, format=None, dtype=None):
        if isinstance(d, DVec):
            if offsets: raise OutOfSubset('diags')
            return d.m
        if isinstance(d, (list, tuple)) and len(d) == 1: d = d[0]
        if isinstance(d, snp.SArr):
            if offsets or d.ndim != 1: raise OutOfSubset('diags')
            return SDiag(d)
        return scipy.sparse.diags(d, offsets, shape, format, dtype)
    def identity(self, n, *a, **k): return SMat.eye(n) if isinstance(n, Sym) else scipy.sparse.identity(n, *a, **k)
    def issparse(self, x): return x.sparse if isinstance(x, SMat) else scipy.sparse.issparse(x)
    isspmatrix = issparse
    def __getattr__(self, n):
        f = getattr(scipy.sparse, n)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                flat = [y for x in a for y in (x if isinstance(x, (list, tuple)) else [x])]
                if any(isinstance(y, SMat) for y in flat) or snp.has_sym(*flat): raise OutOfSubset('scipy.sparse.' + n)
                return f(*a, **k)
            return g
        return f
SPARSE = FakeSparse()
import scipy.signal
class FakeSignal:
    convolve = staticmethod(snp.convolve)
    def __getattr__(self, n):
        f = getattr(scipy.signal, n)
        if not callable(f) or isinstance(f, type): return f
        def g(*a, **k):
            if snp.has_sym(*a) or snp.has_sym(*k.values()): raise OutOfSubset('scipy.signal.' + n)
            return f(*a, **k)
        return g
SIGNAL = FakeSignal()
class FakeScipy:
    sparse = SPARSE
    signal = SIGNAL
    def __getattr__(self, n): return getattr(scipy, n)
