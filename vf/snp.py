"""Symbolic numpy arrays: symbolic shape, element function, views, masks.  `np` functions fall through to real
numpy whenever no argument is symbolic."""
import builtins, functools, itertools, math
import numpy as np
import z3
from . import sym
from .sym import (Sym, OutOfSubset, PathEnd, ctx, lift, wrapz, kind, binop, zbool, toreal, toint_trunc, toint_floor, zsqrt, ite)

IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()

def dsort(dtype):
    d = np.dtype(dtype)
    if d.kind == 'b': return 'b'
    if d == np.uint16: return 'v16'
    if d == np.uint8: return 'v8'
    if d.kind in 'iu': return 'i'
    if d.kind == 'f': return 'r'
    raise OutOfSubset('dtype %s' % d)

def zsort(code):
    return {'b': BS, 'i': IS, 'r': RS, 'v16': z3.BitVecSort(16), 'v8': z3.BitVecSort(8)}[code]

def code_of(z):
    k = kind(z)
    return 'v%d' % z.size() if k == 'v' else k

def castcode(z, code):
    k = kind(z)
    if code == 'b': return zbool(z)
    if code == 'r': return toreal(z)
    if code == 'i': return toint_trunc(z)
    n = int(code[1:])
    if k == 'v':
        return z if z.size() == n else (z3.ZeroExt(n - z.size(), z) if z.size() < n else z3.Extract(n - 1, 0, z))
    if k == 'b': return z3.If(z, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    z = toint_trunc(z)
    if z3.is_int_value(z3.simplify(z)): return z3.BitVecVal(z3.simplify(z).as_long(), n)
    return z3.Int2BV(z, n)

def cast(z, dtype):
    return castcode(z, dsort(dtype))

def dim(x):
    """dimension -> z3 int"""
    return lift(x)
def simp_dim(x):
    if isinstance(x, (int, np.integer)): return int(x)
    z = z3.simplify(lift(x))
    if z3.is_int_value(z): return z.as_long()
    return x if isinstance(x, Sym) else Sym(z)

def same_dim(a, b):
    """True when provably equal under the path condition; forks otherwise (unequal branch returns False)"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    za, zb = lift(a), lift(b)
    if za.eq(zb): return True
    return ctx().branch(za == zb)

class Buf:
    __slots__ = ('fn', 'shape', 'code', 'memo')
    def __init__(self, fn, shape, code):
        self.fn, self.shape, self.code = fn, shape, code
        self.memo = {}
    def get(self, idx):
        key = tuple(i.get_id() for i in idx)
        hit = self.memo.get(key)
        if hit is not None and hit[0] is self.fn:
            return hit[2]
        v = self.fn(idx)
        self.memo[key] = (self.fn, idx, v)
        return v
    def set(self, fn):
        if sym.CTX is not None:
            sym.CTX.writes.append(self)
        self.fn = fn
        self.memo = {}

def fresh_array(name, shape, dtype='f8'):
    """an array input with arbitrary contents"""
    code = dsort(dtype)
    f = sym.uf(ctx().name(name), *([IS] * len(shape) + [zsort(code)]))
    if len(shape) == 0:
        return SArr(Buf(lambda idx: f(), (), code), dtype=dtype)
    return SArr(Buf(lambda idx: f(*idx), tuple(simp_dim(s) for s in shape), code), dtype=dtype)

def from_fn(shape, fn, code=None, dtype=None):
    """fn: tuple of z3 ints -> z3 term"""
    shape = tuple(simp_dim(s) for s in shape)
    if code is None:
        probe = fn(tuple(z3.Int('probe!%d' % i) for i in range(len(shape))))
        code = code_of(probe)
    return SArr(Buf(fn, shape, code), dtype=dtype)

def dtype_for(code):
    return {'b': np.dtype(bool), 'i': np.dtype(np.int64), 'r': np.dtype(float), 'v16': np.dtype(np.uint16), 'v8': np.dtype(np.uint8)}[code]

def from_concrete(a):
    a = np.asarray(a)
    if a.dtype == object:
        flat = [lift(x) for x in a.ravel()]
        code = 'r' if any(kind(z) == 'r' for z in flat) else ('i' if any(kind(z) == 'i' for z in flat) else code_of(flat[0]) if flat else 'r')
        flat = [castcode(z, code) for z in flat]
        dt = dtype_for(code)
    else:
        code = dsort(a.dtype); dt = a.dtype
        flat = None
    shape = a.shape
    if flat is None:
        uniq = np.unique(a)
        if a.size > 64 and len(uniq) > 1 and a.size > 4096:
            raise OutOfSubset('large concrete array mixed with symbolic data')
        if len(uniq) == 1:
            c = castcode(lift(a.ravel()[0]), code)
            return SArr(Buf(lambda idx: c, shape, code), dtype=dt)
        if a.dtype.kind == 'f' and not np.all(np.isfinite(a)):
            raise OutOfSubset('nan/inf in array')
        flat = [castcode(lift(x), code) for x in a.ravel()]
    def fn(idx):
        # row-major lookup by nested ite; concrete indices resolve directly
        pos = z3.IntVal(0)
        for d, i in zip(shape, idx):
            pos = pos * d + i
        pos = z3.simplify(pos)
        if z3.is_int_value(pos):
            return flat[pos.as_long()]
        out = flat[-1]
        for n in range(len(flat) - 2, -1, -1):
            out = z3.If(pos == n, flat[n], out)
        return out
    if not flat:
        fn = lambda idx: {'b': z3.BoolVal(False), 'i': z3.IntVal(0), 'r': z3.RealVal(0)}.get(code, z3.BitVecVal(0, 16))
    return SArr(Buf(fn, shape, code), dtype=dt)

def as_sarr(x):
    if isinstance(x, SArr): return x
    if isinstance(x, (SSel, SNZ1)): return x.arr()
    if isinstance(x, SMArr): return x.data
    if isinstance(x, np.ma.MaskedArray):
        raise OutOfSubset('concrete masked array mixed with symbolic')
    if isinstance(x, (list, tuple)):
        return array(x)
    if isinstance(x, np.ndarray): return from_concrete(x)
    z = lift(x)
    return SArr(Buf(lambda idx: z, (), code_of(z)))

def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        d = None
        for e in ds:
            if isinstance(e, int) and e == 1:
                continue
            if d is None:
                d = e
            elif not same_dim(d, e):
                # a symbolic extent that is not equal may still be 1
                if not isinstance(e, int) and ctx().branch(lift(e) == 1):
                    continue
                if not isinstance(d, int) and ctx().branch(lift(d) == 1):
                    d = e
                    continue
                raise ValueError('operands could not be broadcast together')
        out.append(1 if d is None else d)
    return tuple(out)

def bidx(shape, idx):
    """index of an operand of `shape` for result index idx"""
    idx = idx[len(idx) - len(shape):]
    return tuple(z3.IntVal(0) if (isinstance(d, int) and d == 1) else i for d, i in zip(shape, idx))

OUTCODE = {'eq': 'b', 'ne': 'b', 'lt': 'b', 'le': 'b', 'gt': 'b', 'ge': 'b'}

def map_arrays(fn, *arrs):
    """elementwise fn over z3 terms with broadcasting; snapshot semantics"""
    arrs = [as_sarr(a) for a in arrs]
    shape = broadcast_shapes(*[a.shape for a in arrs])
    snaps = [a.snapshot() for a in arrs]
    shapes = [a.shape for a in arrs]
    def g(idx):
        return fn(*[s(bidx(sh, idx)) for s, sh in zip(snaps, shapes)])
    return from_fn(shape, g)

def elementwise(op, a, b):
    if hasattr(b, '_vf_rbin') and not isinstance(b, _ArrOps): return b._vf_rbin(op, a)
    if isinstance(a, SSel) or isinstance(b, SSel):
        return SSel.combine(op, a, b)
    if is_masked(a) or is_masked(b):
        return masked_elementwise(op, a, b)
    if isinstance(a, (SSlot,)) or isinstance(b, (SSlot,)):
        raise OutOfSubset('slot arithmetic')
    r = map_arrays(lambda x, y: binop(op, x, y), a, b)
    if isinstance(r, SArr) and r.code == 'r' and op in ('add', 'sub', 'mul', 'truediv'):
        dts = [x.dtype for x in (a, b) if isinstance(x, (SArr, np.ndarray)) and x.ndim > 0]
        if dts and all(d.kind == 'f' for d in dts): r.dtype = np.result_type(*dts)
    return r

class _ArrOps:
    __array_priority__ = 2000
    __array_ufunc__ = None
    def __add__(s, o): return elementwise('add', s, o)
    def __radd__(s, o): return elementwise('add', o, s)
    def __sub__(s, o): return elementwise('sub', s, o)
    def __rsub__(s, o): return elementwise('sub', o, s)
    def __mul__(s, o): return elementwise('mul', s, o)
    def __rmul__(s, o): return elementwise('mul', o, s)
    def __truediv__(s, o): return elementwise('truediv', s, o)
    def __rtruediv__(s, o): return elementwise('truediv', o, s)
    def __floordiv__(s, o): return elementwise('floordiv', s, o)
    def __rfloordiv__(s, o): return elementwise('floordiv', o, s)
    def __mod__(s, o): return elementwise('mod', s, o)
    def __rmod__(s, o): return elementwise('mod', o, s)
    def __pow__(s, o): return elementwise('pow', s, o)
    def __rpow__(s, o): return elementwise('pow', o, s)
    def __lt__(s, o): return elementwise('lt', s, o)
    def __le__(s, o): return elementwise('le', s, o)
    def __gt__(s, o): return elementwise('gt', s, o)
    def __ge__(s, o): return elementwise('ge', s, o)
    def __eq__(s, o):
        if o is None: return False
        return elementwise('eq', s, o)
    def __ne__(s, o):
        if o is None: return True
        return elementwise('ne', s, o)
    def __and__(s, o): return elementwise('and', s, o)
    def __rand__(s, o): return elementwise('and', o, s)
    def __or__(s, o): return elementwise('or', s, o)
    def __ror__(s, o): return elementwise('or', o, s)
    def __xor__(s, o): return elementwise('xor', s, o)
    def __rxor__(s, o): return elementwise('xor', o, s)
    def __lshift__(s, o): return elementwise('lshift', s, o)
    def __rshift__(s, o): return elementwise('rshift', s, o)
    def __hash__(s): return id(s)
    def __neg__(s): return s.map1(lambda z: -sym.num2(z, 0)[0])
    def __pos__(s): return s
    def __abs__(s): return s.map1(lambda z: sym.zabs(sym.num2(z, 0)[0]))
    def __invert__(s): return s.map1(lambda z: z3.Not(z) if kind(z) == 'b' else (~z if kind(z) == 'v' else -z - 1))
    # in-place
    def _i(s, op, o):
        s[Ellipsis] = elementwise(op, s, o)
        return s
    def __iadd__(s, o): return s._i('add', o)
    def __isub__(s, o): return s._i('sub', o)
    def __imul__(s, o): return s._i('mul', o)
    def __itruediv__(s, o): return s._i('truediv', o)
    def __ifloordiv__(s, o): return s._i('floordiv', o)
    def __ior__(s, o): return s._i('or', o)
    def __iand__(s, o): return s._i('and', o)
    def __ixor__(s, o): return s._i('xor', o)

class SArr(_ArrOps):
    """array = buffer + view.  fwd: view index -> base index; inv: base index -> (condition, view index)"""
    def __init__(self, buf, shape=None, fwd=None, inv=None, dtype=None):
        self.buf = buf
        self._shape = tuple(buf.shape if shape is None else shape)
        self.fwd, self.inv = fwd, inv
        self.dtype = np.dtype(dtype) if dtype is not None else dtype_for(buf.code)
    @property
    def shape(self): return self._shape
    @shape.setter
    def shape(self, new):
        r = self.reshape(new)
        self._shape, self.fwd, self.inv = r._shape, r.fwd, r.inv
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self):
        n = 1
        for d in self.shape: n = n * d
        return n
    @property
    def code(self): return self.buf.code
    def __len__(self):
        raise OutOfSubset('len() builtin on symbolic array')
    def vf_len(self):
        if not self.shape: raise TypeError('len() of unsized object')
        return self.shape[0]
    def __repr__(self): return 'SArr%r' % (self.shape,)
    def at(self, idx):
        idx = tuple(lift(i) for i in idx)
        if self.fwd is not None:
            idx = self.fwd(idx)
        return self.buf.get(idx)
    def elem(self, *idx):
        return wrapz(self.at(idx))
    def snapshot(self):
        fn, fwd, buf = self.buf.fn, self.fwd, self.buf
        memo = {}
        def g(idx):
            if fwd is not None: idx = fwd(idx)
            key = tuple(i.get_id() for i in idx)
            hit = memo.get(key)
            if hit is None:
                hit = memo[key] = (idx, fn(idx))
            return hit[1]
        return g
    def copy(self, order=None):
        return from_fn(self.shape, self.snapshot(), self.code, self.dtype)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def map1(self, fn, dtype=None):
        s = self.snapshot()
        return from_fn(self.shape, lambda idx: fn(s(idx)), dtype=dtype)
    def astype(self, dt, **k):
        s = self.snapshot(); c = dsort(dt)
        return from_fn(self.shape, lambda idx: castcode(s(idx), c), c, np.dtype(dt))
    def _vf_ite(self, c, o):
        if not isinstance(o, SArr) or o.ndim != self.ndim or o.code != self.code: raise OutOfSubset('choice between an array and something else')
        s, t = self.snapshot(), o.snapshot()
        return from_fn(tuple(a if a is b or same_dim(a, b) else sym.ite(c, a, b) for a, b in zip(self.shape, o.shape)), lambda idx: z3.If(zbool(c), s(idx), t(idx)), self.code, self.dtype)
    def item(self):
        if self.size != 1: raise OutOfSubset('item')
        return wrapz(self.at((0,) * self.ndim))
    def __bool__(self):
        if builtins.all(isinstance(d, int) and d == 1 for d in self.shape):
            return ctx().branch(zbool(self.at((0,) * self.ndim)))
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __iter__(self):
        if not self.shape: raise TypeError('iteration over a 0-d array')
        n = self.shape[0]
        if not isinstance(n, int):
            raise OutOfSubset('iteration over array of symbolic length')
        return iter([self[i] for i in range(n)])
    # ----- writing
    def write(self, cond_value):
        """cond_value: view idx -> (condition or None, z3 value)"""
        buf, code, inv = self.buf, self.buf.code, self.inv
        old = buf.fn
        if inv is None:
            def fn(idx):
                c, v = cond_value(idx)
                v = castcode(v, code)
                if c is None: return v
                c = z3.simplify(c)
                if z3.is_true(c): return v
                if z3.is_false(c): return old(idx)
                return z3.If(c, v, old(idx))
        else:
            def fn(bidx_):
                c0, idx = inv(bidx_)
                c0 = z3.simplify(c0)
                if z3.is_false(c0): return old(bidx_)
                c, v = cond_value(idx)
                if c is not None: c0 = z3.simplify(z3.And(c0, c))
                if z3.is_false(c0): return old(bidx_)
                v = castcode(v, code)
                if z3.is_true(c0): return v
                return z3.If(c0, v, old(bidx_))
        buf.set(fn)
    # ----- indexing
    def view(self, shape, fwd, inv):
        f0, i0 = self.fwd, self.inv
        if f0 is None:
            return SArr(self.buf, shape, fwd, inv, self.dtype)
        def inv2(b):
            c0, i = i0(b)
            c1, j = inv(i)
            return z3.And(c0, c1), j
        return SArr(self.buf, shape, lambda idx: f0(fwd(idx)), inv2, self.dtype)
    def basic(self, key):
        """basic indexing -> view; key is a full tuple of ints/Syms/slices/None"""
        shape, plan = [], []        # plan per base axis: ('i', z) or ('s', start, step, outaxis)
        ax = 0
        outmap = []                 # for each out axis: base axis or None
        for k in key:
            if k is None:
                shape.append(1); outmap.append(None); continue
            n = self.shape[ax]
            if isinstance(k, slice):
                start, length, step = slice_resolve(k, n)
                plan.append(('s', lift(start), step, len(shape)))
                outmap.append(ax)
                shape.append(simp_dim(length))
            else:
                z = lift(k)
                if kind(z) != 'i':
                    raise OutOfSubset('index kind')
                zn = lift(n)
                inb = z3.simplify(z3.And(z >= -zn, z < zn))
                if not z3.is_true(inb):
                    if not ctx().branch(inb):
                        raise IndexError('index out of bounds')
                if z3.is_int_value(z):
                    z = z if z.as_long() >= 0 else z3.simplify(z + zn)
                else:
                    if ctx().feasible(z < 0):
                        z = z3.If(z < 0, z + zn, z)
                plan.append(('i', z))
            ax += 1
        def fwd(idx):
            out = []
            for p in plan:
                if p[0] == 'i': out.append(p[1])
                else:
                    i = idx[p[3]]
                    out.append(z3.simplify(p[1] + i * p[2]) if p[2] != 1 or not z3.is_int_value(p[1]) or p[1].as_long() != 0 else i)
            return tuple(out)
        nout = len(shape)
        zshape = [lift(s) for s in shape]
        def inv(b):
            conds = []
            idx = [z3.IntVal(0)] * nout
            for p, i in zip(plan, b):
                if p[0] == 'i':
                    conds.append(i == p[1])
                else:
                    start, step, o = p[1], p[2], p[3]
                    if step == 1:
                        j = z3.simplify(i - start)
                    elif step == -1:
                        j = z3.simplify(start - i)
                    else:
                        s = abs(step)
                        d = (i - start) if step > 0 else (start - i)
                        conds.append(d % s == 0)
                        j = d / s
                    conds.append(z3.And(j >= 0, j < zshape[o]))
                    idx[o] = j
            return z3.And(*conds) if conds else z3.BoolVal(True), tuple(idx)
        return self.view(tuple(shape), fwd, inv)
    def expand_key(self, key):
        if not isinstance(key, tuple): key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis and not is_boolarr(k)) + sum(k.ndim for k in key if is_boolarr(k))
        if not builtins.any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n)
            else:
                out.append(k)
        if n > self.ndim: raise IndexError('too many indices for array')
        return tuple(out)
    def column(self, key):
        """a[selection, i]: the one-dimensional view a[:, i] and the mask of the selection (None for other keys)"""
        if not isinstance(key, tuple) or len(key) != self.ndim or self.ndim < 2: return None
        key = tuple(k[0] if isinstance(k, tuple) and len(k) == 1 else k for k in key)
        sel = [n for n, k in enumerate(key) if (isinstance(k, SNZ) and k.mask.ndim == 1) or (is_boolarr(k) and k.ndim == 1)]
        if len(sel) != 1 or not builtins.all(isinstance(k, (int, np.integer, Sym)) and not isinstance(k, bool) for n, k in enumerate(key) if n != sel[0]): return None
        m = key[sel[0]]
        m = m.mask if isinstance(m, SNZ) else m
        return self.basic(tuple(slice(None) if n == sel[0] else k for n, k in enumerate(key))), m
    def rowsel(self, key):
        """a[selection, :]: the mask of the selection (None for other keys)"""
        if not isinstance(key, tuple) or len(key) != self.ndim or self.ndim < 2: return None
        k = key[0][0] if isinstance(key[0], tuple) and len(key[0]) == 1 else key[0]
        if not (isinstance(k, SNZ) and k.mask.ndim == 1 or is_boolarr(k) and k.ndim == 1): return None
        if not builtins.all(isinstance(x, slice) and x == slice(None) for x in key[1:]): return None
        return k.mask if isinstance(k, SNZ) else k
    def __getitem__(self, key):
        c = self.column(key)
        if c: return c[0][c[1]]
        c = self.rowsel(key)
        if c is not None: key = c
        key = norm_key(key)
        if isinstance(key, SNZ): key = (key,)
        if isinstance(key, tuple) and len(key) == 1: key = key[0]
        if isinstance(key, SNZ):
            return SSel(self, key.mask)
        if is_boolarr(key):
            if isinstance(key, np.ndarray): key = from_concrete(key)
            if key.ndim == self.ndim:
                return SSel(self, key)
            if key.ndim == 1:
                return SSel(self, key, rows=True)
            raise OutOfSubset('boolean index of lower rank')
        key = self.expand_key(key)
        fancy = [k for k in key if isinstance(k, (SArr, np.ndarray, list))]
        if fancy:
            return self.gather(key)
        v = self.basic(key)
        if v.shape == ():
            return wrapz_np(v.at(()))
        return v
    def gather(self, key):
        key = [array(k) if isinstance(k, list) else k for k in key]
        sels = [(n, as_sarr(k)) for n, k in enumerate(key) if isinstance(k, (SArr, np.ndarray))]
        if builtins.any(s.code == 'b' for _, s in sels):
            # a[:, mask]
            if len(sels) == 1 and builtins.all(isinstance(k, slice) and k == slice(None) for n, k in enumerate(key) if n != sels[0][0]):
                return SSel(self, sels[0][1], axis=sels[0][0])
            raise OutOfSubset('mixed boolean index')
        if builtins.any(k is None for k in key): raise OutOfSubset('newaxis with fancy')
        bshape = broadcast_shapes(*[s.shape for _, s in sels])
        first, last = sels[0][0], sels[-1][0]
        if [n for n, _ in sels] != list(range(first, last + 1)): raise OutOfSubset('separated fancy indices')
        # ints mixed in are treated as fancy too: keep it simple
        base = self.basic(tuple(slice(None) if isinstance(k, (SArr, np.ndarray)) else k for k in key))
        dropped = sum(1 for n, k in enumerate(key) if not isinstance(k, (SArr, np.ndarray, slice)) and n < first)
        axis0 = first - dropped
        snaps = [(s.snapshot(), s.shape) for _, s in sels]
        for (n, s) in sels:
            check_bounds(s, self.shape[n])
        nb = len(bshape)
        bsnap = base.snapshot()
        dims = [lift(self.shape[n]) for n, _ in sels]
        def fn(idx):
            mid = idx[axis0:axis0 + nb]
            js = []
            for (sn, sh), n_ in zip(snaps, dims):
                j = sn(bidx(sh, mid))
                js.append(wrap_neg(j, n_))
            return bsnap(tuple(idx[:axis0]) + tuple(js) + tuple(idx[axis0 + nb:]))
        shape = base.shape[:axis0] + bshape + base.shape[axis0 + len(sels):]
        return from_fn(shape, fn, self.code, self.dtype)
    def __setitem__(self, key, value):
        c = self.column(key)
        if c:
            c[0][c[1]] = value
            return
        c = self.rowsel(key)
        if c is not None: key = c
        key = norm_key(key)
        if isinstance(key, tuple) and len(key) == 1: key = key[0]
        if isinstance(value, SMSel): value = value.d          # a plain array takes the data of a masked one
        if isinstance(key, SNZ): key = key.mask
        if is_boolarr(key):
            if isinstance(key, np.ndarray): key = from_concrete(key)
            m = key.snapshot()
            if key.ndim < self.ndim:
                if key.ndim != 1: raise OutOfSubset('bool rank')
                msel = lambda idx: zbool(m(idx[:1]))
                axis = 0
            else:
                for a, b in zip(key.shape, self.shape):
                    if not same_dim(a, b): raise IndexError('boolean index did not match')
                msel = lambda idx: zbool(m(idx)); axis = None
            if isinstance(value, SSel):
                if not value.same_mask(key):
                    raise OutOfSubset('assignment from a selection under a different mask')
                vs = value.arr_snap
                self.write(lambda idx: (msel(idx), vs(idx)))
                return
            if is_masked(value): raise OutOfSubset('masked value assigned to plain array')
            v = as_sarr(value)
            if v.shape == () or builtins.all(isinstance(d, int) and d == 1 for d in v.shape):
                z = v.at((0,) * v.ndim)
                self.write(lambda idx: (msel(idx), z))
                return
            raise OutOfSubset('array assigned to boolean selection')
        key = self.expand_key(key)
        if builtins.any(isinstance(k, (SArr, np.ndarray, list)) for k in key):
            return self.scatter(key, value)
        v = self.basic(key)
        if isinstance(value, SSel): raise OutOfSubset('selection assigned to slice')
        if is_masked(value): value = value.data
        a = as_sarr(value)
        if builtins.any(not (isinstance(d, int) and d == 1) for d in a.shape) or a.ndim > v.ndim:
            while a.ndim > v.ndim and isinstance(a.shape[0], int) and a.shape[0] == 1:
                a = a[0] if a.ndim > 1 else a
            broadcast_to_check(a.shape, v.shape)
        s, sh = a.snapshot(), a.shape
        v.write(lambda idx: (None, s(bidx(sh, idx) if len(sh) <= len(idx) else tuple(z3.IntVal(0) for _ in sh))))
    def scatter(self, key, value):
        """a[indices] = scalar on a 1-D array: the cells some index names"""
        if self.ndim != 1 or len(key) != 1 or is_masked(value): raise OutOfSubset('fancy assignment')
        k = as_sarr(key[0]); v = as_sarr(value)
        if k.ndim != 1 or k.code != 'i' or not (v.shape == () or builtins.all(isinstance(d, int) and d == 1 for d in v.shape)): raise OutOfSubset('fancy assignment')
        check_bounds(k, self.shape[0])
        z, s, n, zn = v.at((0,) * v.ndim), k.snapshot(), k.shape[0], lift(self.shape[0])
        def hit(idx):
            i = idx[0]
            if isinstance(n, int): return z3.Or(*[wrap_neg(s((z3.IntVal(j),)), zn) == i for j in range(n)])
            c = ctx()
            q = z3.Int(c.name('sc')); nd = len(c.def_log)
            body = wrap_neg(s((q,)), zn) == i
            local = [f for _, f in c.def_log[nd:] if mentions(f, [q])]
            return z3.Exists([q], z3.And(q >= 0, q < lift(n), body, *local))
        self.write(lambda idx: (hit(idx), z))
    # ----- shape
    def reshape(self, *shape, **kw):
        order = kw.get('order', 'C')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        return reshape(self, shape, order)
    def ravel(self, order='C'):
        return reshape(self, (-1,), order)
    def flatten(self, order='C'):
        return reshape(self, (-1,), order).copy()
    @property
    def T(self):
        if self.ndim < 2: return self
        return self.view(tuple(reversed(self.shape)), lambda idx: tuple(reversed(idx)), lambda b: (z3.BoolVal(True), tuple(reversed(b))))
    def transpose(self, *axes):
        if not axes: return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)): axes = tuple(axes[0])
        inv = [0] * len(axes)
        for o, a in enumerate(axes): inv[a] = o
        return self.view(tuple(self.shape[a] for a in axes), lambda idx: tuple(idx[inv[n]] for n in range(len(axes))),
                         lambda b: (z3.BoolVal(True), tuple(b[a] for a in axes)))
    def squeeze(self, axis=None):
        return squeeze(self)
    def fill(self, v): self[Ellipsis] = v
    # ----- reductions
    def any(self, axis=None): return any_(self, axis)
    def all(self, axis=None): return all_(self, axis)
    def sum(self, axis=None, dtype=None, **k): return sum_(self, axis, dtype, **k)
    def prod(self, axis=None, **k): return prod_(self, axis, **k)
    def min(self, axis=None): return reduce_(self, axis, 'min')
    def max(self, axis=None): return reduce_(self, axis, 'max')
    def mean(self, axis=None): return mean(self, axis)
    def nonzero(self): return nonzero(self)
    def filled(self, v=None): raise AttributeError('filled')
    def dot(self, o):
        if getattr(o, 'vf_matrix', False):
            from . import smat
            return smat.nil(self).dot(o)
        return dot(self, o)
    @property
    def flat(self): return self.ravel()
    def tolist(self): raise OutOfSubset('tolist')
    def __getattr__(self, n):
        if n.startswith('__') or n in ('vf_isinstance', '_vf_rbin', 'vf_array', '_vf_ite', '_vf_eq', 'vf_int', 'vf_str', '_vf_type', 'coord', 'mask'): raise AttributeError(n)
        if hasattr(np.ndarray, n): raise OutOfSubset('ndarray.' + n)
        raise AttributeError(n)

def wrapz_np(z):
    w = wrapz(z)
    if isinstance(w, Sym): w.np = True
    return w

def wrap_neg(j, n):
    if z3.is_int_value(j) and j.as_long() >= 0: return j
    if not ctx().feasible(j < 0): return j
    return z3.If(j < 0, j + n, j)

def fresh_index(shape, hint='ix'):
    c = ctx()
    idx = tuple(z3.Int(c.name(hint)) for _ in shape)
    rng = z3.And(*[z3.And(i >= 0, i < lift(d)) for i, d in zip(idx, shape)]) if shape else z3.BoolVal(True)
    return idx, rng

def check_bounds(s, n):
    """a fancy index array must be provably within bounds (otherwise the real code may raise: not modelled)"""
    idx, rng = fresh_index(s.shape)
    j = s.at(idx)
    if kind(j) != 'i': raise OutOfSubset('fancy index dtype')
    zn = lift(n)
    if ctx().feasible(z3.And(rng, z3.Or(j < -zn, j >= zn))):
        raise OutOfSubset('fancy index not provably in bounds')

def broadcast_to_check(src, dst):
    if len(src) > len(dst): raise ValueError('could not broadcast input array')
    for a, b in zip(src, dst[len(dst) - len(src):]):
        if isinstance(a, int) and a == 1: continue
        if not same_dim(a, b):
            raise ValueError('could not broadcast input array into shape')

def slice_resolve(k, n):
    """-> (start, length, step) for extent n (possibly symbolic); step concrete"""
    step = 1 if k.step is None else k.step
    if isinstance(step, Sym): raise OutOfSubset('symbolic slice step')
    step = int(step)
    if isinstance(n, int) and not isinstance(k.start, Sym) and not isinstance(k.stop, Sym):
        st, sp, sg = k.indices(n)
        return st, builtins.len(range(st, sp, sg)), sg
    zn = lift(n)
    def clamp(v, lo, hi):
        z = lift(v)
        if z3.is_int_value(z):
            z = z if z.as_long() >= 0 else zn + z
        else:
            z = z3.If(z < 0, z + zn, z)
        return z3.If(z < lo, lo, z3.If(z > hi, hi, z))
    if step > 0:
        start = z3.IntVal(0) if k.start is None else clamp(k.start, z3.IntVal(0), zn)
        stop = zn if k.stop is None else clamp(k.stop, z3.IntVal(0), zn)
        d = stop - start
    else:
        start = zn - 1 if k.start is None else clamp(k.start, z3.IntVal(-1), zn - 1)
        stop = z3.IntVal(-1) if k.stop is None else clamp(k.stop, z3.IntVal(-1), zn - 1)
        d = start - stop
    a = abs(step)
    if k.start is None and k.stop is None and a == 1:
        length = zn
    else:
        length = z3.If(d > 0, (d + (a - 1)) / a if a != 1 else d, z3.IntVal(0))
    return simp_path(start), simp_path(length), step

def simp_path(z):
    """simplify an ite-laden extent using the path condition"""
    z = z3.simplify(z)
    for _ in range(6):
        if z3.is_app_of(z, z3.Z3_OP_ITE):
            c, a, b = z.children()
            if not ctx().feasible(z3.Not(c)): z = z3.simplify(a); continue
            if not ctx().feasible(c): z = z3.simplify(b); continue
        break
    # nested: replace decided ite sub-terms
    def walk(t, depth=0):
        if depth > 6 or not z3.is_app(t) or t.num_args() == 0: return t
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            if not ctx().feasible(z3.Not(c)): return walk(a, depth + 1)
            if not ctx().feasible(c): return walk(b, depth + 1)
            return t
        ch = [walk(x, depth + 1) for x in t.children()]
        if builtins.all(x.eq(y) for x, y in zip(ch, t.children())): return t
        return t.decl()(*ch)
    return wrapz(z3.simplify(walk(z)))

def is_boolarr(k):
    return (isinstance(k, SArr) and k.code == 'b' and k.ndim > 0) or (isinstance(k, np.ndarray) and k.dtype == bool and k.ndim > 0)

def norm_key(key):
    if isinstance(key, SMArr):
        if key.data.code == 'b':
            return key.data       # numpy ignores the mask of a boolean masked-array index: uses its data
        return key.data
    if isinstance(key, np.ma.MaskedArray): return key.data
    if isinstance(key, SSel): return key.arr()
    if isinstance(key, tuple): return tuple(k.arr() if isinstance(k, SNZ1) and len(key) > 1 else norm_key(k) for k in key)
    return key

class SSlot: pass

class SSel:
    """a[mask]: the selected elements, kept as (array, mask).  Only operations that keep the pairing are supported."""
    __array_priority__ = 3000
    __array_ufunc__ = None
    def __init__(self, arr, mask, snap=None, rows=False, axis=None):
        self.base = arr
        self.mask = mask
        self.msnap = mask.snapshot()
        self.arr_snap = snap or arr.snapshot()
        self.rows = rows
        self.axis = axis
        if not rows and axis is None:
            for a, b in zip(mask.shape, arr.shape):
                if not same_dim(a, b): raise IndexError('boolean index did not match')
        self.count = None
    @property
    def dtype(self): return self.base.dtype
    def same_mask(self, other):
        om = other.msnap if isinstance(other, SSel) else other.snapshot()
        if isinstance(other, SSel): other = other.mask
        if len(other.shape) != len(self.mask.shape): return False
        idx, rng = fresh_index(self.mask.shape)
        a, b = zbool(self.msnap(idx)), zbool(om(idx))
        if a.eq(b): return True
        return not ctx().feasible(z3.And(rng, a != b))
    def map(self, fn):
        s = self.arr_snap
        g = lambda idx: fn(s(idx))
        arr = from_fn(self.base.shape, g)
        return SSel(arr, self.mask, g, self.rows, self.axis)
    @staticmethod
    def combine(op, a, b):
        s = a if isinstance(a, SSel) else b
        if isinstance(a, SSel) and isinstance(b, SSel):
            if a.axis != b.axis or a.rows != b.rows or not a.same_mask(b): return elementwise(op, a.arr(), b.arr())
            x, y = a.arr_snap, b.arr_snap
            g = lambda idx: binop(op, x(idx), y(idx))
        else:
            o = b if s is a else a
            if is_masked(o): raise OutOfSubset('masked with selection')
            o = as_sarr(o)
            if builtins.any(not (isinstance(d, int) and d == 1) for d in o.shape):
                return elementwise(op, s.arr(), o) if s is a else elementwise(op, o, s.arr())
            z = o.at((0,) * o.ndim)
            x = s.arr_snap
            g = (lambda idx: binop(op, x(idx), z)) if s is a else (lambda idx: binop(op, z, x(idx)))
        arr = from_fn(s.base.shape, g)
        return SSel(arr, s.mask, g, s.rows, s.axis)
    def arr(self):
        """as an ordinary array of symbolic length"""
        q = compress_of(self.mask)
        s, m = self.arr_snap, len(self.mask.shape)
        if self.axis is not None:
            ax = self.axis
            return from_fn(self.base.shape[:ax] + (q.count,) + self.base.shape[ax + 1:], lambda idx: s(idx[:ax] + q.sel(idx[ax]) + idx[ax + 1:]), self.base.code, self.base.dtype)
        return from_fn((q.count,) + tuple(self.base.shape[m:]), lambda idx: s(q.sel(idx[0]) + tuple(idx[1:])), self.base.code, self.base.dtype)
    @property
    def shape(self): return self.arr().shape
    @property
    def ndim(self): return self.arr().ndim
    @property
    def size(self): return self.arr().size
    def vf_len(self): return compress_of(self.mask).count if self.axis in (None, 0) else self.base.shape[0]
    def any(self, axis=None): return any_(self) if axis is None else self.arr().any(axis)
    def all(self, axis=None): return all_(self) if axis is None else self.arr().all(axis)
    def nonzero(self): return nonzero(self.arr())
    def __setitem__(self, k, v): raise OutOfSubset('assignment to a selection')
    def elem(self, *k): return self.arr().elem(*k)
    def astype(self, dt):
        return self.map(lambda z: cast(z, dt))
    def copy(self): return self.map(lambda z: z)
    def ravel(self): return self
    flatten = ravel
    def __hash__(s): return id(s)
    def __getitem__(self, k): return self.arr()[k]
    def __bool__(self): raise OutOfSubset('truth of selection')
    def __iter__(self): raise OutOfSubset('iteration over selection')
for _n in ('add sub mul truediv floordiv mod pow and or xor'.split()):
    setattr(SSel, '__%s__' % _n, (lambda n: lambda s, o: SSel.combine(n, s, o))(_n))
    setattr(SSel, '__r%s__' % _n, (lambda n: lambda s, o: SSel.combine(n, o, s))(_n))
for _n in ('lt le gt ge eq ne'.split()):
    setattr(SSel, '__%s__' % _n, (lambda n: lambda s, o: SSel.combine(n, s, o))(_n))
SSel.__neg__ = lambda s: s.map(lambda z: -sym.num2(z, 0)[0])
SSel.__abs__ = lambda s: s.map(lambda z: sym.zabs(sym.num2(z, 0)[0]))
SSel.__invert__ = lambda s: s.map(lambda z: z3.Not(z) if kind(z) == 'b' else ~z)

class Compress:
    """the true positions of a mask in row-major order: count, sel(k) -> index, rank(index) -> k (each instance axiomatised where mentioned)"""
    def __init__(self, mask):
        c = ctx()
        self.snap, self.shape = mask.snapshot(), mask.shape
        n = c.name('sel')
        nd = len(self.shape)
        self.zcount = z3.Int(n + '_count')
        self.fs = [z3.Function('%s_%d' % (n, d), z3.IntSort(), z3.IntSort()) for d in range(nd)]
        self.fr = z3.Function(n + '_rank', *([z3.IntSort()] * (nd + 1)))
        tot = size_of(self.shape)
        f = z3.And(self.zcount >= 0, self.zcount <= tot)
        c.define(('selcount', n), lambda: f)
        self.count = wrapz(self.zcount)
        self.name = n
    def inside(self, idx): return z3.And(*[z3.And(i >= 0, i < lift(d)) for i, d in zip(idx, self.shape)])
    def sel(self, k):
        idx = tuple(f(k) for f in self.fs)
        def ax():
            cs = [self.inside(idx), zbool(self.snap(idx)), self.fr(*idx) == k]
            out = z3.Implies(z3.And(k >= 0, k < self.zcount), z3.And(*cs))
            if len(idx) == 1:
                f = self.fs[0]
                out = z3.And(out, z3.Implies(z3.And(k >= 1, k < self.zcount), f(k - 1) < f(k)), z3.Implies(z3.And(k >= 0, k < self.zcount - 1), f(k) < f(k + 1)), z3.Implies(z3.And(k >= 0, k < self.zcount), f(k) >= k))
            return out
        ctx().define(('sel', self.name, k.get_id()), ax)
        return idx
    def before(self, p):
        """number of true positions before p (1-D)"""
        p = lift(p)
        if not hasattr(self, 'fb'): self.fb = z3.Function(self.name + '_before', z3.IntSort(), z3.IntSort())
        tot = size_of(self.shape)
        r = self.fb(p)
        def ax():
            m = zbool(self.snap((p,)))
            return z3.And(z3.Implies(z3.And(p >= 0, p <= tot), z3.And(r >= 0, r <= p, r <= self.zcount)), z3.Implies(p == 0, r == 0), z3.Implies(p == tot, r == self.zcount),
                          z3.Implies(z3.And(p >= 0, p < tot), self.fb(p + 1) == r + z3.If(m, z3.IntVal(1), z3.IntVal(0))), z3.Implies(z3.And(p >= 0, p < tot, m), self.fr(p) == r))
        ctx().define(('before', self.name, p.get_id()), ax)
        self.rank(p)
        return wrapz(r)
    def rank(self, *idx):
        idx = tuple(lift(i) for i in idx)
        r = self.fr(*idx)
        ctx().define(('rank', self.name) + tuple(i.get_id() for i in idx), lambda: z3.Implies(z3.And(self.inside(idx), zbool(self.snap(idx))),
                     z3.And(r >= 0, r < self.zcount, *[f(r) == i for f, i in zip(self.fs, idx)])))
        return wrapz(r)

def compress_of(mask):
    """the Compress of a mask; masks that are equal everywhere share one"""
    c = ctx()
    reg = c.__dict__.setdefault('compressions', [])
    s = mask.snapshot()
    idx, rng = fresh_index(mask.shape)
    m = zbool(s(idx))
    for o in reg:
        if len(o.shape) != len(mask.shape) or not builtins.all(same_dim_quiet(a, b) for a, b in zip(o.shape, mask.shape)): continue
        om = zbool(o.snap(idx))
        if m.eq(om) or z3.is_true(z3.simplify(m == om)) or not c.feasible(z3.And(rng, m != om)): return o
    o = Compress(mask)
    reg.append(o)
    return o

class SNZ:
    """numpy.nonzero(mask) / numpy.where(mask)"""
    _vf_sym = True
    __array_priority__ = 3000
    __array_ufunc__ = None
    among = None          # (selection, mask on the base) when this is nonzero() of a selection
    def __init__(self, mask): self.mask = mask
    def __getitem__(self, k):
        if isinstance(k, int) and k == 0 and self.mask.ndim == 1:
            r = SNZ1(self.mask); r.among = self.among
            return r
        if isinstance(k, int) and -self.mask.ndim <= k < self.mask.ndim: return self.dim(k % self.mask.ndim)
        raise OutOfSubset('element of nonzero()')
    def dim(self, d):
        q = compress_of(self.mask)
        return from_fn((q.count,), lambda idx: q.sel(idx[0])[d], 'i', np.int64)
    def vf_len(self): return self.mask.ndim
    def __len__(self): return self.mask.ndim
    def __iter__(self): return iter([self[k] for k in range(self.mask.ndim)])

class SNZ1(SNZ):
    """nonzero(mask)[0] of a 1-D mask: an index array; kept with its mask while it is only used for indexing"""
    def arr(self): return self.dim(0)
    def __getitem__(self, k): return self.arr()[k]
    def __iter__(self): return iter(self.arr())
    def vf_len(self): return compress_of(self.mask).count
    def __len__(self): raise OutOfSubset('len() builtin on symbolic array')
    def tolist(self):
        if self.among is None: raise OutOfSubset('tolist')
        return PosList([self.among])
    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('_vf') or n.startswith('vf_') or n in ('mask', 'coord'): raise AttributeError(n)
        return getattr(self.arr(), n)
for _n in ('add sub mul truediv floordiv mod radd rsub rmul lt le gt ge eq ne neg'.split()):
    setattr(SNZ1, '__%s__' % _n, (lambda n: lambda s, *o: getattr(s.arr(), n)(*o))('__%s__' % _n))
SNZ1.__hash__ = lambda s: id(s)

class PosList:
    """a list of positions within a selection: those where one of the given boolean selections holds, concatenated"""
    _vf_sym = True
    def __init__(self, items): self.items = list(items)
    def __add__(self, o):
        if isinstance(o, list) and not o: return self
        if not isinstance(o, PosList): raise OutOfSubset('list of positions')
        return PosList(self.items + o.items)
    def __radd__(self, o):
        if isinstance(o, list) and not o: return self
        raise OutOfSubset('list of positions')
    def vf_len(self):
        t = 0
        for _, m in self.items:
            q = compress_of(m); q.sel(z3.IntVal(0)); t = t + q.count
        return t
    def __bool__(self): return bool(self.vf_len() > 0)
    def __len__(self): raise OutOfSubset('len() builtin on symbolic list')
    def __iter__(self): raise OutOfSubset('iteration over positions')
def delete(a, obj, axis=None):
    if not has_sym(a, obj): return np.delete(a, obj, axis)
    if isinstance(a, (tuple, list)) and len(a) == 1: a = a[0]
    if axis is not None or not isinstance(a, SNZ) or a.mask.ndim != 1 or not isinstance(obj, PosList): raise OutOfSubset('numpy.delete')
    for sel, _ in obj.items:
        if not sel.same_mask(a.mask): raise OutOfSubset('numpy.delete')
    s, ms = a.mask.snapshot(), [m.snapshot() for _, m in obj.items]
    return SNZ1(from_fn(a.mask.shape, lambda idx: z3.And(zbool(s(idx)), *[z3.Not(zbool(m(idx))) for m in ms]), 'b'))
def count_nonzero(a, axis=None):
    if not has_sym(a): return np.count_nonzero(a, axis=axis)
    if axis is not None: raise OutOfSubset('count_nonzero axis')
    if isinstance(a, SSel):
        if a.axis is not None or a.rows: raise OutOfSubset('count_nonzero rows')
        m, s = a.msnap, a.arr_snap
        q = compress_of(from_fn(a.base.shape, lambda idx: z3.And(zbool(m(idx)), zbool(s(idx))), 'b'))
    else:
        a = as_sarr(a)
        q = compress_of(a if a.code == 'b' else a.map1(zbool))
    q.sel(z3.IntVal(0))
    return q.count
def mention_ranks(*idx):
    """instantiate, at this index, the ranks of every selection of its rank made so far"""
    for q in getattr(ctx(), 'compressions', []):
        if len(q.shape) == len(idx): q.rank(*idx)
def pad(a, pad_width, mode='constant', **k):
    if not has_sym(a): return np.pad(a, pad_width, mode=mode, **k)
    if mode != 'constant' or set(k) - {'constant_values'}: raise OutOfSubset('numpy.pad')
    a = as_sarr(a); v = lift(k.get('constant_values', 0)); s, n = a.snapshot(), a.ndim
    w = np.broadcast_to(np.asarray(pad_width), (n, 2)).tolist()
    shape = tuple(d + lo + hi for d, (lo, hi) in zip(a.shape, w))
    def fn(idx):
        j = tuple(i - lo for i, (lo, hi) in zip(idx, w))
        return z3.If(z3.And(*[z3.And(x >= 0, x < lift(d)) for x, d in zip(j, a.shape)]), s(j), castcode(v, a.code))
    return from_fn(shape, fn, a.code, a.dtype)
def convolve(a, kernel, mode='full', method='auto'):
    """scipy.signal.convolve(image, constant kernel, 'valid')"""
    if not has_sym(a, kernel):
        import scipy.signal
        return scipy.signal.convolve(a, kernel, mode, method)
    if isinstance(kernel, SArr) and builtins.all(isinstance(d, int) for d in kernel.shape):
        ks = {k: z3.simplify(lift(kernel.elem(*k))) for k in np.ndindex(*kernel.shape)}
        if builtins.all(z3.is_int_value(v) for v in ks.values()):
            kernel = np.array([ks[k].as_long() for k in np.ndindex(*kernel.shape)]).reshape(kernel.shape)
    if mode != 'valid' or has_sym(kernel): raise OutOfSubset('convolve')
    a = as_sarr(a); kernel = np.asarray(kernel)
    if kernel.ndim != a.ndim: raise ValueError('volume and kernel should have the same dimensionality')
    for d, kd in zip(a.shape, kernel.shape):
        if ctx().branch(lift(d) < kd): raise OutOfSubset('convolve: image smaller than kernel')
    s = a.snapshot()
    def fn(idx):
        t = z3.RealVal(0) if a.code == 'r' else z3.IntVal(0)
        for k in np.ndindex(*kernel.shape):
            if kernel[k] == 0: continue
            x = s(tuple(i + (n - 1 - q) for i, n, q in zip(idx, kernel.shape, k)))
            if kind(x) in 'bv': x = toint_floor(x)
            t = t + (x if kernel[k] == 1 else x * lift(kernel[k].item()))
        return t
    return from_fn(tuple(d - (n - 1) for d, n in zip(a.shape, kernel.shape)), fn)

# ---------------------------------------------------------------- shape functions

def size_of(shape):
    n = z3.IntVal(1)
    for d in shape: n = n * lift(d)
    return z3.simplify(n)

def reshape(a, shape, order='C'):
    if not isinstance(a, SArr):
        if is_masked(a):
            return SMArr(reshape(a.data, shape, order), None if a.mask_ is None else reshape(a.mask_, shape, order), a.fill_value)
        return np.reshape(a, shape, order=order)
    if isinstance(shape, (int, Sym)): shape = (shape,)
    shape = tuple(simp_dim(s) for s in shape)
    total = size_of(a.shape)
    if builtins.any(isinstance(s, int) and s == -1 for s in shape):
        rest = [s for s in shape if not (isinstance(s, int) and s == -1)]
        nonunit = [d for d in a.shape if not (isinstance(d, int) and d == 1)]
        if not rest or builtins.all(isinstance(s, int) and s == 1 for s in rest):
            val = simp_dim(Sym(total))
        else:
            # remove equal factors
            left = list(nonunit)
            ok = True
            for s in rest:
                if isinstance(s, int) and s == 1: continue
                for d in left:
                    if (isinstance(s, int) and isinstance(d, int) and s == d) or (not isinstance(s, int) and not isinstance(d, int) and lift(s).eq(lift(d))):
                        left.remove(d); break
                else: ok = False
            val = simp_dim(Sym(size_of(left))) if ok else simp_dim(Sym(total / size_of(rest)))
        shape = tuple(val if (isinstance(s, int) and s == -1) else s for s in shape)
    # fast path: same shape up to unit dims
    src = [(n, d) for n, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    dst = [(n, d) for n, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(src) == len(dst) and builtins.all((lift(x[1]).eq(lift(y[1]))) or (same_dim_quiet(x[1], y[1])) for x, y in zip(src, dst)):
        nd, ns = len(shape), a.ndim
        def fwd(idx):
            out = [z3.IntVal(0)] * ns
            for (s, _), (d, _) in zip(src, dst): out[s] = idx[d]
            return tuple(out)
        def inv(b):
            out = [z3.IntVal(0)] * nd
            for (s, _), (d, _) in zip(src, dst): out[d] = b[s]
            return z3.BoolVal(True), tuple(out)
        return a.view(shape, fwd, inv)
    new = size_of(shape)
    if not total.eq(new) and ctx().branch(total != new):
        raise ValueError('cannot reshape array')
    def flat(idx, shp):
        p = z3.IntVal(0)
        seq = list(zip(shp, idx))
        if order == 'F': seq = seq[::-1]
        for d, i in seq: p = p * lift(d) + i
        return p
    def unflat(p, shp):
        out = []
        seq = list(shp)
        if order == 'F': seq = seq[::-1]
        for d in reversed(seq[1:]):
            out.append(p % lift(d)); p = p / lift(d)
        out.append(p)
        out = out[::-1]
        if order == 'F': out = out[::-1]
        return tuple(out)
    ash = a.shape
    if len(ash) == 0 or len(shape) == 0: raise OutOfSubset('0-d reshape')
    return a.view(shape, lambda idx: unflat(flat(idx, shape), ash), lambda b: (z3.BoolVal(True), unflat(flat(b, ash), shape)))

def same_dim_quiet(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return not ctx().feasible(lift(a) != lift(b))

def squeeze(a, axis=None):
    if is_masked(a) and isinstance(a, SMArr):
        return SMArr(squeeze(a.data), None if a.mask_ is None else squeeze(a.mask_), a.fill_value)
    if not isinstance(a, SArr): return np.squeeze(a, axis=axis)
    for d in a.shape:
        if not isinstance(d, int) and ctx().feasible(lift(d) == 1):
            raise OutOfSubset('squeeze of an extent that may be 1')
    if axis is not None:
        axes = (axis,) if isinstance(axis, int) else axis
        axes = [x % a.ndim for x in axes]
    else:
        axes = [n for n, d in enumerate(a.shape) if isinstance(d, int) and d == 1]
    return a[tuple(0 if n in axes else slice(None) for n in range(a.ndim))] if axes else a

# ---------------------------------------------------------------- constructors and functions

def has_sym(*xs):
    for x in xs:
        if isinstance(x, (Sym, SArr, SMArr, SSel, SNZ)) or hasattr(x, '_vf_sym'): return True
        if isinstance(x, (list, tuple)) and has_sym(*x): return True
    return False

def _shape(s):
    if isinstance(s, (int, np.integer, Sym)): return (s,)
    if isinstance(s, (np.ndarray,)): return tuple(int(x) for x in s)
    return tuple(s)

def const_array(shape, value, dtype):
    code = dsort(dtype)
    z = castcode(lift(value), code)
    return SArr(Buf(lambda idx: z, tuple(simp_dim(s) for s in _shape(shape)), code), dtype=np.dtype(dtype))

FORCE_SYMBOLIC = False      # when set, zeros()/ones() of concrete shape are symbolic too (so that symbolic writes work)

def _mk(value):
    def f(shape, dtype=float, *a, **k):
        if dtype is object: return getattr(np, 'zeros' if value == 0 else 'ones')(shape, dtype)
        if not has_sym(shape) and not active(): return (np.zeros if value == 0 else np.ones)(shape, dtype)
        return const_array(shape, value, dtype)
    return f
zeros, ones = _mk(0), _mk(1)
def active():
    return sym.CTX is not None

class SRec:
    """one-dimensional structured array of symbolic length: its fields"""
    def __init__(self, n, dtype, fields=None):
        self.n, self.dtype = n, np.dtype([(str(x[0]),) + tuple(getattr(t, '_vf_type', t) for t in x[1:]) for x in dtype] if isinstance(dtype, list) else dtype)
        self.fields = fields or {k: fresh_array('rec_' + k, (n,), self.dtype[k]) for k in self.dtype.names}
    shape = property(lambda s: (s.n,))
    size = property(lambda s: s.n)
    ndim = 1
    nbytes = property(lambda s: s.n * s.dtype.itemsize)
    def vf_len(self): return self.n
    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.fields: raise ValueError('no field of name ' + k)
            return self.fields[k]
        if isinstance(k, (list, tuple)) and any(isinstance(x, str) for x in k): raise OutOfSubset('several fields')
        fs = {n: v[k] for n, v in self.fields.items()}
        f = next(iter(fs.values()))
        if not isinstance(f, SArr) or f.ndim != 1: raise OutOfSubset('record selection')
        return SRec(f.shape[0], self.dtype, fs)
    def __setitem__(self, k, v):
        if not isinstance(k, str): raise OutOfSubset('record assignment')
        if k not in self.fields: raise ValueError('no field of name ' + k)
        self.fields[k][Ellipsis] = v.arr() if isinstance(v, SSel) else v
    def copy(self): return SRec(self.n, self.dtype, {k: v.copy() for k, v in self.fields.items()})
    def tofile(self, f): f.vf_records(self.copy())
def empty(shape, dtype=float, *a, **k):
    if isinstance(dtype, list) and active():
        sh = _shape(shape)
        if len(sh) != 1: raise OutOfSubset('structured array')
        return SRec(simp_dim(sh[0]), dtype)
    if not has_sym(shape) and not active(): return np.empty(shape, dtype)
    return fresh_array('empty', tuple(simp_dim(s) for s in _shape(shape)), dtype)
def full(shape, v, dtype=None, **k):
    if not has_sym(shape, v) and not active(): return np.full(shape, v, dtype)
    if dtype is None: dtype = dtype_for(code_of(lift(v)))
    return const_array(shape, v, dtype)
def zeros_like(a, dtype=None):
    if not has_sym(a): return zeros(np.shape(a), dtype or np.asarray(a).dtype) if active() else np.zeros_like(a, dtype)
    return const_array(a.shape, 0, dtype or a.dtype)
def ones_like(a, dtype=None):
    if not has_sym(a): return np.ones_like(a, dtype)
    return const_array(a.shape, 1, dtype or a.dtype)
def arange(*args, **k):
    dt = k.get('dtype')
    if not has_sym(*args): return np.arange(*args, **k)
    if len(args) == 1: start, stop, step = 0, args[0], 1
    elif len(args) == 2: start, stop, step = args[0], args[1], 1
    else: start, stop, step = args[:3]
    if isinstance(step, Sym) or step != 1: raise OutOfSubset('arange step')
    n = sym.Max(stop - start, 0) if not _nonneg(stop, start) else stop - start
    s = lift(start)
    out = from_fn((n,), lambda idx: s + idx[0])
    return out.astype(dt) if dt is not None else out
def linspace(start, stop, num=50, endpoint=True, **k):
    if not has_sym(start, stop, num): return np.linspace(start, stop, num, endpoint, **k)
    if k.get('retstep') or k.get('axis'): raise OutOfSubset('linspace options')
    a, b = sym.toreal(lift(start)), sym.toreal(lift(stop)); d = sym.toreal(lift(num)) - (1 if endpoint else 0)
    if ctx().feasible(lift(num) < (2 if endpoint else 1)): raise OutOfSubset('linspace of fewer than two points')
    # the step is a fresh amount defined by step * intervals = distance (no division for the solver)
    step = z3.Real(ctx().name('linspace_step'))
    ctx().assume(step * d == b - a)
    out = from_fn((num,), lambda idx: a + sym.toreal(idx[0]) * step)
    return out.astype(k['dtype']) if k.get('dtype') is not None else out
def _nonneg(stop, start):
    return not ctx().feasible(lift(stop) < lift(start))
def array(x, dtype=None, copy=True, **k):
    if isinstance(x, SArr):
        return x.astype(dtype) if dtype is not None else x.copy()
    if is_masked(x) and isinstance(x, SMArr):
        return x.data.astype(dtype) if dtype is not None else x.data.copy()
    if isinstance(x, SSel): return x
    if isinstance(x, Sym):
        z = x.z if dtype is None else cast(x.z, dtype)
        return SArr(Buf(lambda idx: z, (), code_of(z)))
    if hasattr(x, 'vf_array'): return x.vf_array(dtype)
    if has_sym(x):
        return stack_list(list(x), dtype)
    r = np.array(x, dtype=dtype, **{kk: v for kk, v in k.items() if kk in ('ndmin',)})
    return r
def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and dtype is None: return x
    return array(x, dtype)
def stack_list(xs, dtype=None):
    parts = [as_sarr(x) for x in xs]
    shape = parts[0].shape
    for p in parts[1:]:
        if len(p.shape) != len(shape) or not builtins.all(same_dim(a, b) for a, b in zip(p.shape, shape)):
            raise ValueError('inhomogeneous')
    codes = [p.code for p in parts]
    code = dsort(dtype) if dtype is not None else common_code(codes)
    snaps = [p.snapshot() for p in parts]
    def fn(idx):
        i0 = idx[0]
        out = castcode(snaps[-1](idx[1:]), code)
        if z3.is_int_value(i0): return castcode(snaps[i0.as_long()](idx[1:]), code)
        for n in range(len(snaps) - 2, -1, -1):
            out = z3.If(i0 == n, castcode(snaps[n](idx[1:]), code), out)
        return out
    return from_fn((len(parts),) + tuple(shape), fn, code, dtype)
def common_code(codes):
    for c in ('r', 'i', 'v16', 'v8', 'b'):
        if c in codes: return c
    return 'r'

def concatenate(xs, axis=0):
    if not has_sym(*xs): return np.concatenate(xs, axis=axis)
    if builtins.any(isinstance(x, SMArr) for x in xs):
        return concatenate([x.data if isinstance(x, SMArr) else x for x in xs], axis)
    xs = [x.arr() if isinstance(x, (SSel, SNZ1)) else x for x in xs]
    parts = [as_sarr(x) for x in xs]
    nd = parts[0].ndim
    axis = axis % nd
    for p in parts[1:]:
        if p.ndim != nd: raise ValueError('dimension mismatch')
        for k in range(nd):
            if k != axis and not same_dim(parts[0].shape[k], p.shape[k]):
                raise ValueError('concatenation axis mismatch')
    code = common_code([p.code for p in parts])
    offs, tot = [], z3.IntVal(0)
    for p in parts:
        offs.append(tot); tot = z3.simplify(tot + lift(p.shape[axis]))
    snaps = [p.snapshot() for p in parts]
    def fn(idx):
        def pick(n):
            j = z3.simplify(idx[axis] - offs[n])
            return castcode(snaps[n](tuple(idx[:axis]) + (j,) + tuple(idx[axis + 1:])), code)
        out = pick(len(parts) - 1)
        for n in range(len(parts) - 2, -1, -1):
            c = z3.simplify(idx[axis] < offs[n + 1])
            if z3.is_true(c): out = pick(n)
            elif z3.is_false(c): continue
            else: out = z3.If(c, pick(n), out)
        return out
    shape = tuple(simp_dim(Sym(tot)) if k == axis else parts[0].shape[k] for k in range(nd))
    dts = {p.dtype for p in parts}
    return from_fn(shape, fn, code, np.result_type(*dts) if True else None)
def hstack(xs):
    if not has_sym(*xs): return np.hstack(xs)
    xs = [as_sarr(x) for x in xs]
    xs = [x if x.ndim else reshape0(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)
def reshape0(x):
    z = x.at(())
    return from_fn((1,), lambda idx: z)
def vstack(xs):
    if not has_sym(*xs): return np.vstack(xs)
    xs = [as_sarr(x) for x in xs]
    xs = [x if x.ndim > 1 else x[None, :] for x in xs]
    return concatenate(xs, 0)
row_stack = vstack
def fill_diagonal(a, val, wrap=False):
    if not has_sym(a, val): return np.fill_diagonal(a, val, wrap)
    if not isinstance(a, SArr) or a.ndim != 2 or wrap: raise OutOfSubset('fill_diagonal')
    z = castcode(lift(val), a.code)
    a.write(lambda idx: (idx[0] == idx[1], z))
def column_stack(xs):
    if not has_sym(*xs): return np.column_stack(xs)
    xs = [as_sarr(x) for x in xs]
    return concatenate([x if x.ndim > 1 else x[:, None] for x in xs], 1)
def roll(a, n, axis=None):
    if not has_sym(a, n): return np.roll(a, n, axis)
    a = as_sarr(a)
    if a.ndim != 1 or axis not in (None, 0): raise OutOfSubset('roll')
    s, z, k = a.snapshot(), lift(a.shape[0]), lift(n)
    return from_fn(a.shape, lambda idx: s((z3.If(z > 0, (idx[0] - k) % z3.If(z > 0, z, 1), 0),)), a.code, a.dtype)
def append(a, b, axis=None):
    if not has_sym(a, b): return np.append(a, b, axis)
    if axis is None:
        a, b = as_sarr(a), as_sarr(b)
        a = a.ravel() if a.ndim != 1 else a
        b = (b.ravel() if b.ndim > 1 else b) if b.ndim else reshape0(b)
        return concatenate([a, b])
    return concatenate([a, b], axis)
def expand_dims(a, axis):
    if not has_sym(a): return np.expand_dims(a, axis)
    key = [slice(None)] * a.ndim
    if axis < 0: axis += a.ndim + 1
    key.insert(axis, None)
    return a[tuple(key)]
def transpose(a, axes=None):
    if not has_sym(a): return np.transpose(a, axes)
    return a.T if axes is None else a.transpose(*axes)
def atleast_1d(a):
    if not has_sym(a): return np.atleast_1d(a)
    a = as_sarr(a) if not isinstance(a, SMArr) else a
    return a if a.ndim else reshape0(a)
def repeat(a, n, axis=None):
    if not has_sym(a, n): return np.repeat(a, n, axis)
    if not isinstance(n, (int, Sym)): raise OutOfSubset('repeat')
    a = as_sarr(a)
    if a.ndim == 0: a = reshape0(a)
    if axis is not None and a.ndim > 1:
        ax, s = axis % a.ndim, a.snapshot()
        return from_fn(tuple(simp_dim(d * n) if k == ax else d for k, d in enumerate(a.shape)), lambda idx: s(tuple(i / lift(n) if k == ax else i for k, i in enumerate(idx))), a.code, a.dtype)
    if a.ndim != 1 or axis not in (None, 0, -1): raise OutOfSubset('repeat')
    s = a.snapshot()
    return from_fn((simp_dim(a.shape[0] * n),), lambda idx: s((z3.IntVal(0) if isinstance(a.shape[0], int) and a.shape[0] == 1 else idx[0] / lift(n),)), a.code, a.dtype)
def argsort(a, axis=-1, kind=None):
    if not has_sym(a): return np.argsort(a, axis=axis, kind=kind)
    a = as_sarr(a)
    if a.ndim != 1 or not isinstance(a.shape[0], int) or a.shape[0] > 8: raise OutOfSubset('argsort')
    v, order = [a.at((z3.IntVal(i),)) for i in range(a.shape[0])], []
    for i in range(len(v)):               # insertion sort, as numpy's for short arrays: equal values keep their order
        j = len(order)
        while j > 0 and ctx().branch(lift(wrapz(v[i]) < wrapz(v[order[j - 1]]))): j -= 1
        order.insert(j, i)
    return np.array(order, np.int64)
def tile(a, reps):
    if not has_sym(a, reps): return np.tile(a, reps)
    a = as_sarr(a)
    if isinstance(reps, (int, Sym)): reps = (reps,)
    reps = tuple(reps)
    while a.ndim < len(reps): a = a[None]
    while len(reps) < a.ndim: reps = (1,) + reps
    s, sh = a.snapshot(), a.shape
    return from_fn(tuple(simp_dim(d * r) for d, r in zip(sh, reps)), lambda idx: s(tuple(i if (isinstance(r, int) and r == 1) else (z3.IntVal(0) if isinstance(d, int) and d == 1 else i % lift(d)) for i, d, r in zip(idx, sh, reps))), a.code, a.dtype)

def broadcast_to(a, shape, subok=False):
    if not has_sym(a) and not has_sym(*(shape if isinstance(shape, (tuple, list)) else (shape,))): return np.broadcast_to(a, shape)
    if isinstance(shape, (int, Sym)): shape = (shape,)
    shape = tuple(shape)
    if isinstance(a, SMArr): raise OutOfSubset('broadcast_to masked')
    a = as_sarr(a)
    broadcast_to_check(a.shape, shape)
    s, sh, off = a.snapshot(), a.shape, len(shape) - a.ndim
    return from_fn(shape, lambda idx: s(tuple(z3.IntVal(0) if isinstance(d, int) and d == 1 else i for i, d in zip(idx[off:], sh))), a.code, a.dtype)

def un(name, zf):
    npf = getattr(np, name)
    def f(x, *a, **k):
        if not has_sym(x): return npf(x, *a, **k)
        _only(k, 'out', 'dtype')
        out = k.pop('out', None) if k else (a[0] if a else None)
        if isinstance(x, Sym): return wrapz2np(zf(x.z))
        if isinstance(x, SSel): r = x.map(zf)
        elif isinstance(x, SMArr): r = x.map1(zf)
        else: r = as_sarr(x).map1(zf)
        if out is not None:
            out[Ellipsis] = r
            return out
        return r
    f.__name__ = name
    return f
def wrapz2np(z):
    w = wrapz(z)
    if isinstance(w, Sym): w.np = True
    return w
def zsign(z):
    z = sym.num2(z, 0)[0]
    one, zero = (z3.RealVal(1), z3.RealVal(0)) if kind(z) == 'r' else (z3.IntVal(1), z3.IntVal(0))
    return z3.If(z > 0, one, z3.If(z < 0, -one, zero))
sqrt = un('sqrt', zsqrt)
absolute = un('absolute', lambda z: sym.zabs(sym.num2(z, 0)[0]))
square = un('square', lambda z: z * z)
floor = un('floor', lambda z: z3.ToReal(z3.ToInt(toreal(z))))
ceil = un('ceil', lambda z: z3.ToReal(-z3.ToInt(-toreal(z))))
trunc = un('trunc', lambda z: z3.ToReal(toint_trunc(z)))
def zrint(z):
    z = toreal(z)
    f = z3.ToInt(z); d = z - z3.ToReal(f)
    return z3.ToReal(z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1))))
rint = un('rint', zrint)
sign = un('sign', zsign)
negative = un('negative', lambda z: -z)
for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'arcsin', 'arccos', 'arctan', 'cbrt'):
    globals()[_n] = un(_n, sym.ufun1(_n))
PI = z3.Real('pi')
def zdeg2rad(z): return toreal(z) * PI / 180
radians = un('radians', zdeg2rad)
deg2rad = un('deg2rad', zdeg2rad)
isnan = un('isnan', lambda z: z3.BoolVal(False))
isfinite = un('isfinite', lambda z: z3.BoolVal(True))
isinf = un('isinf', lambda z: z3.BoolVal(False))
logical_not = un('logical_not', lambda z: z3.Not(zbool(z)))
invert = un('invert', lambda z: z3.Not(z) if kind(z) == 'b' else (~z if kind(z) == 'v' else -z - 1))
def around(x, decimals=0):
    if not has_sym(x): return np.around(x, decimals)
    if decimals: raise OutOfSubset('round decimals')
    return rint(x)

def bi(name, op=None, zf=None):
    npf = getattr(np, name)
    g = zf or (lambda a, b: binop(op, a, b))
    def f(a, b, *rest, **k):
        if not has_sym(a, b): return npf(a, b, *rest, **k)
        _only(k, 'out', 'dtype')
        out = k.get('out') if k else (rest[0] if rest else None)
        if isinstance(a, SSel) or isinstance(b, SSel):
            if op is not None: r = SSel.combine(op, a, b)
            elif isinstance(a, SSel) and isinstance(b, SSel) and a.axis == b.axis and a.rows == b.rows and a.same_mask(b):
                x, y = a.arr_snap, b.arr_snap
                h = lambda idx: g(x(idx), y(idx))
                r = SSel(from_fn(a.base.shape, h), a.mask, h, a.rows, a.axis)
            else:
                ar = lambda v: v.arr() if isinstance(v, SSel) else v
                r = f(ar(a), ar(b))
        elif is_masked(a) or is_masked(b):
            r = masked_map2(g, a, b)
        elif not isinstance(a, (SArr,)) and not isinstance(b, (SArr,)) and np.ndim(_nd(a)) == 0 and np.ndim(_nd(b)) == 0:
            r = wrapz2np(g(lift(a), lift(b)))
        else:
            r = map_arrays(g, a, b)
        if isinstance(out, tuple): out = out[0]
        if out is not None:
            out[Ellipsis] = r
            return out
        return r
    f.__name__ = name
    return f
def _nd(x): return 0 if isinstance(x, Sym) else x
add = bi('add', 'add'); subtract = bi('subtract', 'sub'); multiply = bi('multiply', 'mul')
divide = bi('divide', 'truediv'); true_divide = bi('true_divide', 'truediv'); floor_divide = bi('floor_divide', 'floordiv')
mod = bi('mod', 'mod'); remainder = bi('remainder', 'mod'); power = bi('power', 'pow')
maximum = bi('maximum', 'max'); minimum = bi('minimum', 'min')
fmax = bi('fmax', 'max'); fmin = bi('fmin', 'min')
bitwise_and = bi('bitwise_and', 'and'); bitwise_or = bi('bitwise_or', 'or'); bitwise_xor = bi('bitwise_xor', 'xor')
logical_and = bi('logical_and', zf=lambda a, b: z3.And(zbool(a), zbool(b)))
logical_or = bi('logical_or', zf=lambda a, b: z3.Or(zbool(a), zbool(b)))
logical_xor = bi('logical_xor', zf=lambda a, b: z3.Xor(zbool(a), zbool(b)))
equal = bi('equal', 'eq'); not_equal = bi('not_equal', 'ne'); less = bi('less', 'lt'); less_equal = bi('less_equal', 'le')
greater = bi('greater', 'gt'); greater_equal = bi('greater_equal', 'ge')
left_shift = bi('left_shift', 'lshift'); right_shift = bi('right_shift', 'rshift')
def arctan2(a, b):
    if not has_sym(a, b): return np.arctan2(a, b)
    raise OutOfSubset('arctan2')
class _Reducer:
    def __init__(self, fn, npf): self.fn, self.npf = fn, npf
    def __call__(self, *a, **k): return self.fn(*a, **k)
    def reduce(self, seq, *a, **k):
        if isinstance(seq, (list, tuple)) and has_sym(*seq):
            return functools.reduce(self.fn, seq)
        if has_sym(seq):
            if isinstance(seq.shape[0], int): return functools.reduce(self.fn, [seq[i] for i in range(seq.shape[0])])
            raise OutOfSubset('reduce')
        return self.npf.reduce(seq, *a, **k)
    def outer(self, *a, **k): return self.npf.outer(*a, **k)
    def at(self, *a, **k): raise OutOfSubset('ufunc.at') if has_sym(*a) else None
for _n in ('logical_or', 'logical_and', 'bitwise_or', 'bitwise_and', 'add', 'multiply', 'maximum', 'minimum'):
    globals()[_n] = _Reducer(globals()[_n], getattr(np, _n))

def where(c, *ab):
    if not has_sym(c, *ab): return np.where(c, *ab)
    if not ab: return nonzero(c)
    a, b = ab
    if is_masked(c) or is_masked(a) or is_masked(b): raise OutOfSubset('where on masked')
    def g(x, y, w):
        if kind(y) != kind(w) or y.sort() != w.sort(): y, w = sym.coerce(y, w)
        return z3.If(zbool(x), y, w)
    return map_arrays(g, c, a, b)
def nonzero(c):
    if not has_sym(c): return np.nonzero(c)
    if isinstance(c, SMArr): return c.nonzero()
    if isinstance(c, SSel) and c.axis is None and not c.rows:
        m, s = c.msnap, c.arr_snap
        r = SNZ(c.arr().map1(zbool) if c.base.code != 'b' else c.arr())
        r.among = (c, from_fn(c.base.shape, lambda idx: z3.And(zbool(m(idx)), zbool(s(idx))), 'b'))
        return r
    c = as_sarr(c)
    return SNZ(c if c.code == 'b' else c.map1(zbool))
def isin(a, b, **k):
    if not has_sym(a, b): return np.isin(a, b, **k)
    if k: raise OutOfSubset('isin options')
    a, b = as_sarr(a), as_sarr(b).ravel()
    sb, n = b.snapshot(), b.shape[0]
    def g(x):
        if isinstance(n, int): return z3.Or(*[binop('eq', x, sb((z3.IntVal(j),))) for j in range(n)])
        j = z3.Int('isin!j')
        return z3.Exists([j], z3.And(j >= 0, j < lift(n), binop('eq', x, sb((j,)))))
    return a.map1(g, bool)
def in1d(a, b, **k): return isin(a.ravel() if has_sym(a) else np.ravel(a), b, **k)
def argwhere(c):
    if not has_sym(c): return np.argwhere(c)
    c = as_sarr(c)
    q = compress_of(c if c.code == 'b' else c.map1(zbool))
    nd = c.ndim
    def fn(idx):
        ix = q.sel(idx[0])
        r = ix[0]
        for d in range(1, nd): r = z3.If(idx[1] == d, ix[d], r)
        return r
    return from_fn((q.count, nd), fn, 'i', np.int64)
flatnonzero = lambda c: nonzero(c.ravel())[0] if has_sym(c) else np.flatnonzero(c)

# --- reductions over possibly symbolic extents
def _axes(a, axis):
    if axis is None: return list(range(a.ndim))
    if isinstance(axis, int): axis = (axis,)
    return [x % a.ndim for x in axis]

def mentions(f, vs):
    ids = {v.get_id() for v in vs}
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        todo += x.children()
    return False

def _quant(a, axis, isany):
    a = as_sarr(a)
    axes = _axes(a, axis)
    s = a.snapshot()
    symaxes = [x for x in axes if not isinstance(a.shape[x], int)]
    keep = [x for x in range(a.ndim) if x not in axes]
    conaxes = [x for x in axes if x not in symaxes]
    def fn(idx):
        c = ctx()
        bound = {x: z3.Int(c.name('q!%d' % x)) for x in symaxes}
        terms = []
        ndef = len(c.def_log)
        for con in itertools.product(*[range(a.shape[x]) for x in conaxes]):
            full = [None] * a.ndim
            for x, i in zip(keep, idx): full[x] = i
            for x in symaxes: full[x] = bound[x]
            for x, i in zip(conaxes, con): full[x] = z3.IntVal(i)
            terms.append(zbool(s(tuple(full))))
        if isany:
            body = z3.Or(*terms) if terms else z3.BoolVal(False)
        else:
            body = z3.And(*terms) if terms else z3.BoolVal(True)
        if not symaxes: return body
        rng = z3.And(*[z3.And(bound[x] >= 0, bound[x] < lift(a.shape[x])) for x in symaxes])
        vs = [bound[x] for x in symaxes]
        local = [f for _, f in c.def_log[ndef:] if mentions(f, vs)]
        b = z3.simplify(body)
        if z3.is_false(b) and isany: return b
        if z3.is_true(b) and not isany: return b
        return z3.Exists(vs, z3.And(rng, body, *local)) if isany else z3.ForAll(vs, z3.Implies(z3.And(rng, *local), body))
    if not keep: return wrapz2np(fn(()))
    return from_fn(tuple(a.shape[x] for x in keep), fn, 'b')
def any_(a, axis=None, **k):
    if not has_sym(a): return np.any(a, axis, **k)
    _only(k, 'out')
    if isinstance(a, SSel):
        m, s = a.msnap, a.arr_snap
        return _quant(from_fn(a.base.shape, lambda idx: z3.And(zbool(m(idx)), zbool(s(idx))), 'b'), None, True)
    if isinstance(a, SMArr): a = a.filled(False)
    return _quant(a, axis, True)
def all_(a, axis=None, **k):
    if not has_sym(a): return np.all(a, axis, **k)
    _only(k, 'out')
    if isinstance(a, SSel):
        m, s = a.msnap, a.arr_snap
        return _quant(from_fn(a.base.shape, lambda idx: z3.Implies(zbool(m(idx)), zbool(s(idx))), 'b'), None, False)
    if isinstance(a, SMArr): a = a.filled(True)
    return _quant(a, axis, False)
def _only(k, *names):
    for n, v in k.items():
        if n not in names and v is not None: raise OutOfSubset('keyword ' + n)
def _keepdims(r, a, axis):
    if not isinstance(r, SArr): r = from_fn((), lambda idx: lift(r))
    axes, s = _axes(a, axis), r.snapshot()
    return from_fn(tuple(1 if x in axes else d for x, d in enumerate(a.shape)), lambda idx: s(tuple(i for x, i in enumerate(idx) if x not in axes)), r.code)
def sum_(a, axis=None, dtype=None, **k):
    if not has_sym(a): return np.sum(a, axis=axis, dtype=dtype, **k)
    _only(k, 'keepdims')
    if isinstance(a, (list, tuple)): a = array(a)
    if isinstance(a, SMArr):
        if k.get('keepdims'): raise OutOfSubset('keepdims')
        return a.sum(axis)
    if k.get('keepdims'): return _keepdims(sum_(a, axis), as_sarr(a), axis)
    a = as_sarr(a)
    axes = _axes(a, axis)
    s = a.snapshot()
    if builtins.any(not isinstance(a.shape[x], int) for x in axes):
        if len(axes) == a.ndim and a.code == 'b':          # how many: a number about which only its range is known
            n = z3.Int(ctx().name('phi[count]')); tot = lift(1)
            for d in a.shape: tot = tot * lift(d)
            ctx().assume(z3.And(n >= 0, n <= tot)); ctx().counts = True
            return wrapz2np(n)
        raise OutOfSubset('sum over symbolic extent')
    keep = [x for x in range(a.ndim) if x not in axes]
    def fn(idx):
        tot = None
        for con in itertools.product(*[range(a.shape[x]) for x in axes]):
            full = [None] * a.ndim
            for x, i in zip(keep, idx): full[x] = i
            for x, i in zip(axes, con): full[x] = z3.IntVal(i)
            t = s(tuple(full))
            if kind(t) in 'bv': t = toint_floor(t)
            tot = t if tot is None else tot + t
        return tot if tot is not None else z3.IntVal(0)
    if not keep: return wrapz2np(fn(()))
    return from_fn(tuple(a.shape[x] for x in keep), fn)
def prod_(a, axis=None, **k):
    if not has_sym(a): return np.prod(a, axis=axis, **k)
    _only(k)
    if isinstance(a, SMArr): raise OutOfSubset('numpy.prod of a masked array')
    a = as_sarr(array(a) if isinstance(a, (list, tuple)) else a)
    axes = _axes(a, axis)
    s = a.snapshot()
    if builtins.any(not isinstance(a.shape[x], int) for x in axes): raise OutOfSubset('product over symbolic extent')
    keep = [x for x in range(a.ndim) if x not in axes]
    def fn(idx):
        tot = None
        for con in itertools.product(*[range(a.shape[x]) for x in axes]):
            full = [None] * a.ndim
            for x, i in zip(keep, idx): full[x] = i
            for x, i in zip(axes, con): full[x] = z3.IntVal(i)
            t = s(tuple(full))
            if kind(t) in 'bv': t = toint_floor(t)
            tot = t if tot is None else tot * t
        return tot if tot is not None else z3.IntVal(1)
    if not keep: return wrapz2np(fn(()))
    return from_fn(tuple(a.shape[x] for x in keep), fn)
def reduce_(a, axis, op):
    if not has_sym(a): return getattr(np, {'min': 'amin', 'max': 'amax'}[op])(a, axis=axis)
    a = as_sarr(a)
    axes = _axes(a, axis)
    if builtins.any(not isinstance(a.shape[x], int) for x in axes): raise OutOfSubset('min/max over symbolic extent')
    s = a.snapshot()
    keep = [x for x in range(a.ndim) if x not in axes]
    def fn(idx):
        tot = None
        for con in itertools.product(*[range(a.shape[x]) for x in axes]):
            full = [None] * a.ndim
            for x, i in zip(keep, idx): full[x] = i
            for x, i in zip(axes, con): full[x] = z3.IntVal(i)
            t = s(tuple(full))
            tot = t if tot is None else binop(op, tot, t)
        return tot
    if not keep: return wrapz2np(fn(()))
    return from_fn(tuple(a.shape[x] for x in keep), fn)
def mean(a, axis=None, **k):
    if not has_sym(a): return np.mean(a, axis=axis, **k)
    _only(k, 'dtype')
    if isinstance(a, SMArr) and a.mask_ is not None:
        if axis is None: raise OutOfSubset('mean of masked array')
        return a.mean(axis)
    n = 1
    a = as_sarr(a)
    for x in _axes(a, axis): n = n * a.shape[x]
    return elementwise('truediv', sum_(a, axis), n) if isinstance(sum_(a, axis), SArr) else wrapz2np(toreal(lift(sum_(a, axis))) / lift(n))
amin = lambda a, axis=None: reduce_(a, axis, 'min')
amax = lambda a, axis=None: reduce_(a, axis, 'max')
def dot(a, b):
    if not has_sym(a, b): return np.dot(a, b)
    a, b = as_sarr(a), as_sarr(b)
    ka = a.shape[-1]; kb = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if not same_dim(ka, kb): raise ValueError('shapes not aligned')
    k = ka if isinstance(ka, int) else kb
    if not isinstance(k, int): raise OutOfSubset('dot over symbolic extent')
    sa, sb = a.snapshot(), b.snapshot()
    na = a.ndim - 1
    def fn(idx):
        ia, ib = tuple(idx[:na]), tuple(idx[na:])
        tot = None
        for j in range(k):
            J = z3.IntVal(j)
            x = sa(ia + (J,)); y = sb((J,) + ib if b.ndim <= 2 else None)
            p = binop('mul', x, y)
            tot = p if tot is None else tot + p
        return tot
    shape = a.shape[:-1] + (b.shape[1:] if b.ndim > 1 else ())
    if not shape: return wrapz2np(fn(()))
    return from_fn(shape, fn)
def cross(a, b, axis=None, **kw):
    if not has_sym(a, b): return np.cross(a, b, **(dict(kw, axis=axis) if axis is not None else kw))
    a, b = as_sarr(a), as_sarr(b)
    if kw or axis not in (None, -1, a.ndim - 1) or not (isinstance(a.shape[-1], int) and isinstance(b.shape[-1], int) and a.shape[-1] == b.shape[-1] == 3): raise OutOfSubset('cross')
    sa, sb = a.snapshot(), b.snapshot()
    shape = broadcast_shapes(a.shape, b.shape)
    I = [z3.IntVal(i) for i in range(3)]
    def fn(idx):
        def A(i): return sa(bidx(a.shape, tuple(idx[:-1]) + (I[i],)))
        def B(i): return sb(bidx(b.shape, tuple(idx[:-1]) + (I[i],)))
        c = [A(1) * B(2) - A(2) * B(1), A(2) * B(0) - A(0) * B(2), A(0) * B(1) - A(1) * B(0)]
        k = idx[-1]
        if z3.is_int_value(k): return c[k.as_long()]
        return z3.If(k == 0, c[0], z3.If(k == 1, c[1], c[2]))
    return from_fn(shape, fn)
class _LinAlg:
    def __init__(self): self._g = _Guard(np.linalg, 'numpy.linalg')
    def __getattr__(self, n): return getattr(self._g, n)
    def norm(self, a, ord=None, axis=None, keepdims=False):
        if not has_sym(a): return np.linalg.norm(a, ord, axis, keepdims)
        a = as_sarr(a)
        if ord not in (None, 2) or keepdims or not (axis is None and a.ndim == 1 or axis is not None): raise OutOfSubset('numpy.linalg.norm')
        return sqrt(sum_(a * a, axis))
def shape(a):
    return a.shape if has_sym(a) else np.shape(a)
def isscalar(x): return True if isinstance(x, Sym) else np.isscalar(x)
def clip(a, lo, hi):
    if not has_sym(a, lo, hi): return np.clip(a, lo, hi)
    return minimum(maximum(a, lo), hi)
def copy(a): return a.copy() if has_sym(a) else np.copy(a)
def ravel(a, order='C'): return a.ravel(order) if has_sym(a) else np.ravel(a, order)
def outer(a, b):
    if not has_sym(a, b): return np.outer(a, b)
    a, b = as_sarr(a), as_sarr(b)
    return a[:, None] * b[None, :]
def meshgrid(*xs, **k):
    if not has_sym(*xs): return np.meshgrid(*xs, **k)
    ij = k.get('indexing', 'xy')
    x, y = [as_sarr(v) for v in xs]
    sx, sy = x.snapshot(), y.snapshot()
    if ij == 'xy':
        sh = (y.shape[0], x.shape[0])
        return [from_fn(sh, lambda idx: sx((idx[1],)), x.code), from_fn(sh, lambda idx: sy((idx[0],)), y.code)]
    sh = (x.shape[0], y.shape[0])
    return [from_fn(sh, lambda idx: sx((idx[0],)), x.code), from_fn(sh, lambda idx: sy((idx[1],)), y.code)]
def unravel_index(a, dims):
    if not has_sym(a, dims): return np.unravel_index(a, dims)
    raise OutOfSubset('unravel_index')
def scalar_type(name):
    npt = getattr(np, name)
    class T(npt.__class__ if False else object):
        pass
    return npt

# ---------------------------------------------------------------- masked arrays

def is_masked(x):
    return isinstance(x, (SMArr, np.ma.MaskedArray))

class SMArr(_ArrOps):
    def __init__(self, data, mask=None, fill_value=None):
        self.data = data
        self.mask_ = mask          # SArr bool or None (nomask)
        self._fill = fill_value
    @property
    def mask(self):
        return np.ma.nomask if self.mask_ is None else self.mask_
    @mask.setter
    def mask(self, m):
        if self.mask_ is None: self.mask_ = const_array(self.data.shape, False, bool)
        if m is np.ma.nomask: m = False
        self.mask_[Ellipsis] = m
    @property
    def fill_value(self): return self._fill if self._fill is not None else np.ma.default_fill_value(np.zeros((), self.data.dtype))
    @fill_value.setter
    def fill_value(self, v): self._fill = v
    def set_fill_value(self, v): self._fill = v
    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)
    dtype = property(lambda s: s.data.dtype)
    code = property(lambda s: s.data.code)
    def vf_len(self): return self.data.vf_len()
    def getmaskarray(self):
        return const_array(self.data.shape, False, bool) if self.mask_ is None else self.mask_
    def msnap(self):
        if self.mask_ is None: return lambda idx: z3.BoolVal(False)
        return self.mask_.snapshot()
    def map1(self, fn, dtype=None):
        # masked elements keep their data in numpy.ma for most functions; contents under a mask are not observable
        return SMArr(self.data.map1(fn, dtype), None if self.mask_ is None else self.mask_.copy(), self._fill)
    def copy(self): return SMArr(self.data.copy(), None if self.mask_ is None else self.mask_.copy(), self._fill)
    def astype(self, dt): return SMArr(self.data.astype(dt), None if self.mask_ is None else self.mask_.copy(), self._fill)
    def filled(self, v=None):
        if v is None: v = self.fill_value
        if self.mask_ is None: return self.data.copy()
        s, m, c = self.data.snapshot(), self.mask_.snapshot(), self.data.code
        z = castcode(lift(v), c)
        return from_fn(self.data.shape, lambda idx: z3.If(zbool(m(idx)), z, s(idx)), c, self.data.dtype)
    def __getitem__(self, key):
        d = self.data[key]
        m = None if self.mask_ is None else self.mask_[key]
        if isinstance(d, SArr):
            return SMArr(d, m, self._fill)
        if isinstance(d, SSel):
            if m is None: return d
            return SMSel(d, m)
        if m is not None and m is not False:
            if ctx().branch(zbool(m)): return np.ma.masked
        return d
    def __setitem__(self, key, value):
        if value is np.ma.masked:
            if self.mask_ is None: self.mask_ = const_array(self.data.shape, False, bool)
            self.mask_[key] = True
            return
        if isinstance(value, SMSel):
            self.data[key] = value.d
            if self.mask_ is None: self.mask_ = const_array(self.data.shape, False, bool)
            self.mask_[key] = value.m
            return
        if isinstance(value, SMArr):
            self.data[key] = value.data
            if value.mask_ is not None or self.mask_ is not None:
                if self.mask_ is None: self.mask_ = const_array(self.data.shape, False, bool)
                self.mask_[key] = value.mask_ if value.mask_ is not None else False
            return
        self.data[key] = value
        if self.mask_ is not None: self.mask_[key] = False
    def reshape(self, *s, **k):
        return SMArr(self.data.reshape(*s, **k), None if self.mask_ is None else self.mask_.reshape(*s, **k), self._fill)
    def ravel(self, order='C'):
        return SMArr(self.data.ravel(order), None if self.mask_ is None else self.mask_.ravel(order), self._fill)
    flatten = ravel
    def squeeze(self): return squeeze(self)
    @property
    def T(self): return SMArr(self.data.T, None if self.mask_ is None else self.mask_.T, self._fill)
    def any(self, axis=None): return any_(self, axis)
    def all(self, axis=None): return all_(self, axis)
    def sum(self, axis=None):
        r = sum_(self.filled(0), axis)
        if axis is None or self.mask_ is None or not isinstance(r, SArr): return r
        return SMArr(r, all_(self.mask_, axis))
    def mean(self, axis=None):
        if axis is None or self.mask_ is None: return mean(self.data, axis)
        n = sum_(~self.mask_, axis); t = sum_(self.filled(0), axis)
        return SMArr(map_arrays(lambda x, y: z3.If(toreal(y) == 0, z3.RealVal(0), toreal(x) / z3.If(toreal(y) == 0, z3.RealVal(1), toreal(y))), t, n), all_(self.mask_, axis))
    def compressed(self):
        m = self.getmaskarray()
        return SSel(self.data, ~m)
    def nonzero(self): return nonzero(self.filled(False))
    def __iter__(self): raise OutOfSubset('iter masked')
    def __bool__(self): raise OutOfSubset('bool masked')
    def elem(self, *idx): return self.data.elem(*idx)

class SMSel:
    def __init__(self, d, m): self.d, self.m = d, m
    def __getattr__(self, n): raise OutOfSubset('masked selection: ' + n)

def masked_parts(x):
    if isinstance(x, SMArr): return x.data, x.mask_
    if isinstance(x, np.ma.MaskedArray): 
        return from_concrete(x.data), (None if x.mask is np.ma.nomask else from_concrete(np.ma.getmaskarray(x)))
    if isinstance(x, SArr): return x, None
    return as_sarr(x), None

def masked_map2(g, a, b):
    da, ma_ = masked_parts(a); db, mb = masked_parts(b)
    data = map_arrays(g, da, db)
    if ma_ is None and mb is None: m = None
    elif ma_ is None: m = map_arrays(lambda x, y: zbool(y), da, mb)
    elif mb is None: m = map_arrays(lambda x, y: zbool(x), ma_, db)
    else: m = map_arrays(lambda x, y: z3.Or(zbool(x), zbool(y)), ma_, mb)
    return SMArr(data, m)
def masked_elementwise(op, a, b):
    r = masked_map2(lambda x, y: binop(op, x, y), a, b)
    if op in ('truediv', 'floordiv', 'mod'):
        # numpy.ma masks results of division by (nearly) zero
        db, mb = masked_parts(b)
        z = map_arrays(lambda x, y: toreal(y) == 0, masked_parts(a)[0], db)
        m0 = r.mask_
        r.mask_ = z if m0 is None else map_arrays(lambda x, y: z3.Or(zbool(x), zbool(y)), m0, z)
    return r

class _MA:
    """numpy.ma"""
    masked = np.ma.masked
    nomask = np.ma.nomask
    MaskedArray = np.ma.MaskedArray
    core = np.ma.core
    def __getattr__(self, n):
        f = getattr(np.ma, n)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                if has_sym(*a) or has_sym(*k.values()): raise OutOfSubset('numpy.ma.' + n)
                return f(*a, **k)
            return g
        return f
    @staticmethod
    def masked_array(data, mask=np.ma.nomask, dtype=None, fill_value=None, copy=False, **k):
        if not has_sym(data, mask): return np.ma.masked_array(data, mask=mask, dtype=dtype, fill_value=fill_value, copy=copy)
        m0 = None
        if isinstance(data, SMArr): data, m0 = data.data, data.mask_
        d = as_sarr(data)
        if dtype is not None: d = d.astype(dtype)
        elif copy: d = d.copy()
        if mask is np.ma.nomask: m = None
        else:
            m = as_sarr(mask)
            if m.code != 'b': m = m.map1(zbool)
            if m.shape == ():
                z = m.at(()); m = from_fn(d.shape, lambda idx: z, 'b')
            if copy: m = m.copy()
        if m0 is not None: m = m0.copy() if m is None else map_arrays(lambda x, y: z3.Or(zbool(x), zbool(y)), m0, m)
        return SMArr(d, m, fill_value)
    array = masked_array
    @staticmethod
    def getmaskarray(a):
        if isinstance(a, SMArr): return a.getmaskarray()
        if isinstance(a, SArr): return const_array(a.shape, False, bool)
        return np.ma.getmaskarray(a)
    @staticmethod
    def getmask(a):
        if isinstance(a, SMArr): return a.mask
        if isinstance(a, SArr): return np.ma.nomask
        return np.ma.getmask(a)
    @staticmethod
    def getdata(a):
        return a.data if isinstance(a, SMArr) else (a if isinstance(a, SArr) else np.ma.getdata(a))
    @staticmethod
    def filled(a, v=None):
        return a.filled(v) if isinstance(a, SMArr) else (a if isinstance(a, SArr) else np.ma.filled(a, v))
    @staticmethod
    def masked_where(c, a, copy=True):
        if not has_sym(c, a): return np.ma.masked_where(c, a, copy)
        if isinstance(c, SMArr):
            c = c.filled(True)
        return _MA.masked_array(a.copy() if copy else a, mask=as_sarr(c).map1(zbool))
    @staticmethod
    def is_masked(a):
        if isinstance(a, SMArr): return False if a.mask_ is None else any_(a.mask_)
        if has_sym(a): return False
        return np.ma.is_masked(a)
    @staticmethod
    def isMaskedArray(a): return isinstance(a, SMArr) or np.ma.isMaskedArray(a)
    @staticmethod
    def isMA(a): return isinstance(a, SMArr) or np.ma.isMA(a)
    @staticmethod
    def mask_or(a, b, **k):
        if not has_sym(a, b): return np.ma.mask_or(a, b, **k)
        if a is np.ma.nomask: return b
        if b is np.ma.nomask: return a
        return map_arrays(lambda x, y: z3.Or(zbool(x), zbool(y)), a, b)
    @staticmethod
    def count_masked(a): raise OutOfSubset('count_masked') if has_sym(a) else None
    @staticmethod
    def zeros(shape, dtype=float):
        return SMArr(const_array(shape, 0, dtype))
    @staticmethod
    def masked_all(shape, dtype=float):
        return SMArr(fresh_array('masked_all', _shape(shape), dtype), const_array(shape, True, bool))
    @staticmethod
    def sqrt(a): return sqrt(a) if has_sym(a) else np.ma.sqrt(a)
    @staticmethod
    def masked_invalid(a): return _MA.masked_array(a) if has_sym(a) else np.ma.masked_invalid(a)
    @staticmethod
    def masked_equal(a, v): return _MA.masked_where(as_sarr(a) == v, a) if has_sym(a) else np.ma.masked_equal(a, v)
    @staticmethod
    def masked_not_equal(a, v): return _MA.masked_where(as_sarr(a) != v, a) if has_sym(a) else np.ma.masked_not_equal(a, v)
    @staticmethod
    def masked_less(a, v): return _MA.masked_where(as_sarr(a) < v, a) if has_sym(a) else np.ma.masked_less(a, v)
    @staticmethod
    def masked_greater(a, v): return _MA.masked_where(as_sarr(a) > v, a) if has_sym(a) else np.ma.masked_greater(a, v)

# ---------------------------------------------------------------- the module object seen by the code

class _TypeProxy:
    """numpy.float32(...) etc: callable on symbolic scalars/arrays, usable as dtype"""
    pass

class _MGrid:
    def __getitem__(self, k):
        if isinstance(k, slice) and has_sym(k.start, k.stop, k.step):
            if k.step is not None: raise OutOfSubset('mgrid step')
            return arange(0 if k.start is None else k.start, k.stop)
        if isinstance(k, slice) or not has_sym(*k): return np.mgrid[k]
        raise OutOfSubset('numpy.mgrid')

class FakeNumpy:
    ma = _MA()
    mgrid = _MGrid()
    @staticmethod
    def _disp(n, f):
        def w(*a, **k):
            for x in a:
                if hasattr(x, 'vf_numpy'): return x.vf_numpy(n, f, *a, **k)
            return f(*a, **k)
        w.__name__ = n
        return w
    def __init__(self):
        g = globals()
        self.max = amax; self.min = amin; self.sum = sum_; self.prod = prod_; self.any = any_; self.all = all_; self.abs = absolute; self.round = around
        self.asscalar = lambda a: a if isinstance(a, Sym) else a.item() if hasattr(a, 'item') else a
        self.round_ = around; self.newaxis = None; self.sometrue = any_; self.alltrue = all_
        for n in ('zeros ones empty full zeros_like ones_like arange linspace array asarray concatenate hstack vstack column_stack roll append expand_dims broadcast_to transpose '
                  'atleast_1d tile repeat argsort sqrt absolute square floor ceil trunc rint sign negative sin cos tan exp log arcsin arccos arctan cbrt radians deg2rad isnan '
                  'isfinite isinf logical_not invert around add subtract multiply divide true_divide floor_divide mod remainder power maximum '
                  'minimum fmax fmin bitwise_and bitwise_or bitwise_xor logical_and logical_or logical_xor equal not_equal less less_equal '
                  'greater greater_equal left_shift right_shift arctan2 where nonzero flatnonzero mean amin amax dot cross shape isscalar clip '
                  'copy ravel isin in1d delete count_nonzero pad argwhere outer meshgrid unravel_index reshape squeeze row_stack fill_diagonal').split():
            setattr(self, n, self._disp(n, g[n]))
        self.empty_like = lambda a, dtype=None: fresh_array('empty', a.shape, dtype or a.dtype) if has_sym(a) else np.empty_like(a, dtype)
        self.ascontiguousarray = asarray
        self.asanyarray = asarray
        self.logical_or, self.logical_and = g['logical_or'], g['logical_and']
        self.random = _Guard(np.random, 'numpy.random')
        self.linalg = _LinAlg()
        self.testing = np.testing
    def __getattr__(self, n):
        f = getattr(np, n)
        if isinstance(f, type):
            if issubclass(f, np.generic) and f is not np.generic: return dtype_callable(f)
            return f
        if callable(f):
            def g(*a, **k):
                for x in a:
                    if hasattr(x, 'vf_numpy'): return x.vf_numpy(n, f, *a, **k)
                if has_sym(*a) or has_sym(*k.values()): raise OutOfSubset('numpy.' + n)
                return f(*a, **k)
            g.__name__ = n
            return g
        return f

class _Guard:
    def __init__(self, mod, name): self._m, self._n = mod, name
    def __getattr__(self, n):
        f = getattr(self._m, n)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                if has_sym(*a) or has_sym(*k.values()): raise OutOfSubset(self._n + '.' + n)
                return f(*a, **k)
            return g
        return f

_dtc = {}
def dtype_callable(t):
    """A subclass-like stand-in: usable as dtype and callable on symbolic values."""
    if t not in _dtc:
        class M(type):
            def __call__(cls, x=0, *a):
                if isinstance(x, Sym): return wrapz2np(cast(x.z, t))
                if isinstance(x, SArr): return x.astype(t)
                return t(x, *a)
            def __instancecheck__(cls, x): return isinstance(x, t)
            def __eq__(cls, o): return o is cls or o is t or (not isinstance(o, type) and np.dtype(t) == o)
            def __hash__(cls): return hash(t)
        _dtc[t] = M(t.__name__, (), {'dtype': np.dtype(t), '_vf_type': t})
    return _dtc[t]
