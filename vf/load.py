"""Loads /repo modules for symbolic execution: the same translated text, with (1) `numpy`, `datetime`, ... bound to
symbolic stand-ins, (2) builtins that accept symbolic values, and (3) a purely syntactic rewriting of `for` loops and
list comprehensions so that iteration over a sequence of symbolic length is cut at an invariant.  Everything else is
the text that CPython runs."""
import ast, builtins, importlib, math, sys, types
import numpy as np
import z3
from . import src, sym, snp
from .sym import Sym, OutOfSubset, PathEnd, ctx, lift, wrapz, zbool, kind
from .snp import SArr, SMArr, has_sym

# ------------------------------------------------------------------ poisoned locals

class Poison:
    """a local whose value after/within a cut loop is not described by the invariant"""
    def __init__(self, name): object.__setattr__(self, '_n', name)
    def _die(self, *a, **k): raise OutOfSubset('local %s is not described by the loop invariant' % object.__getattribute__(self, '_n'))
    def __getattr__(self, n): self._die()
    __setattr__ = __call__ = __iter__ = __bool__ = __getitem__ = __setitem__ = __len__ = __index__ = __float__ = __int__ = _die
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _die
    __or__ = __ror__ = __and__ = __rand__ = __neg__ = __abs__ = __floordiv__ = __mod__ = __iadd__ = __contains__ = __invert__ = _die
    __hash__ = None

# ------------------------------------------------------------------ symbolic sequences

class SymSeq:
    """sequence of symbolic length; elem(k) with k a Sym/int in range"""
    _vf_sym = True
    def __init__(self, n, elem): self.n, self.elem = snp.simp_dim(n), elem
    def vf_len(self): return self.n
    def __iter__(self): 
        if isinstance(self.n, int): return iter([self.elem(i) for i in range(self.n)])
        raise OutOfSubset('iteration over sequence of symbolic length')
    def __len__(self):
        if isinstance(self.n, int): return self.n
        raise OutOfSubset('len() of symbolic sequence')
    def __bool__(self): return ctx().branch(lift(self.n) > 0)
    def __getitem__(self, k):
        if isinstance(k, slice):
            start, length, step = snp.slice_resolve(k, self.n)
            e = self.elem
            return type(self)(length, lambda i: e(start + i * step))
        z = lift(k); n = lift(self.n)
        if not ctx().branch(z3.And(z >= -n, z < n)): raise IndexError('list index out of range')
        if ctx().branch(z < 0): return self.elem(wrapz(z3.simplify(z + n)))
        return self.elem(k)
    def vf_array(self, dtype=None):
        e = self.elem
        p = e(wrapz(z3.Int('probe!0')))
        if isinstance(p, (SArr, np.ndarray)) and not np.ma.isMaskedArray(p) and len(p.shape):
            a = snp.from_fn((self.n,) + tuple(p.shape), lambda idx: snp.as_sarr(e(wrapz(idx[0]))).at(tuple(idx[1:])), snp.as_sarr(p).code)
        else: a = snp.from_fn((self.n,), lambda idx: lift(e(wrapz(idx[0]))))
        return a.astype(dtype) if dtype is not None else a

class SymRange(SymSeq):
    def __init__(self, start, stop, step=1):
        if isinstance(step, Sym): raise OutOfSubset('symbolic range step')
        self.start, self.stop, self.step = start, stop, step
        if step > 0: d = stop - start
        else: d = start - stop
        a = abs(step)
        n = sym.Max(d, 0) if a == 1 else sym.If(d > 0, (d + (a - 1)) // a, 0)
        SymSeq.__init__(self, snp.simp_path(lift(n)), lambda k: start + k * step)
    def __getitem__(self, k):
        if isinstance(k, slice): return SymSeq(self.n, self.elem)[k]
        return SymSeq.__getitem__(self, k)
    def _vf_eq(self, o):
        if isinstance(o, builtins.range): o = SymRange(o.start, o.stop, o.step)
        if not isinstance(o, SymRange): return False
        return sym.And(sym.Eq(self.n, o.n), sym.Or(sym.Eq(self.n, 0), sym.And(sym.Eq(self.start, o.start), self.step == o.step)))
    def _vf_ite(self, c, o):
        if not isinstance(o, SymRange) or o.step != self.step: raise OutOfSubset('choice between ranges')
        return SymRange(sym.ite(c, self.start, o.start), sym.ite(c, self.stop, o.stop), self.step)
    def __contains__(self, x):
        if self.step != 1: raise OutOfSubset('membership in a range with a step')
        return bool(sym.And(x >= self.start, x < self.stop))

class SymRangeList(SymRange):
    """list of a range"""
    def _list(self): return SymList(self.n, self.elem)
    def append(self, x): raise OutOfSubset('append to a list of a range')
    extend = append
    def __setitem__(self, k, v): raise OutOfSubset('assignment to a list of a range')
    def __add__(self, o): return self._list() + (o._list() if isinstance(o, SymRangeList) else o)
    def __radd__(self, o): return o + self._list()
    def copy(self): return self._list()

class SymList(SymSeq):
    """mutable list"""
    def __init__(self, n, elem): SymSeq.__init__(self, n, elem)
    def append(self, x):
        n, e = self.n, self.elem
        zn = lift(n)
        self.n = snp.simp_dim(n + 1)
        self.elem = lambda k: sym.ite(lift(k) == zn, x, e(k)) if not isinstance(k, int) or not isinstance(n, int) else (x if k == n else e(k))
        sym.CTX and sym.CTX.writes.append(self)
    def extend(self, xs):
        r = self + xs
        self.n, self.elem = r.n, r.elem
        sym.CTX and sym.CTX.writes.append(self)
    def __add__(self, o):
        if isinstance(o, list): o = SymList(len(o), _listelem(o))
        n, e, m, f = self.n, self.elem, o.n, o.elem
        return SymList(n + m, lambda k: sym.merge(lambda: e(k) if ctx().branch(lift(k) < lift(n)) else f(k - n)))
    def __radd__(self, o):
        return SymList(len(o), _listelem(o)) + self
    def __setitem__(self, k, v):
        if isinstance(k, slice): raise OutOfSubset('slice assignment')
        e = self.elem; zk = lift(k)
        self.elem = lambda j: sym.ite(lift(j) == zk, v, e(j))
        sym.CTX and sym.CTX.writes.append(self)
    def copy(self): return SymList(self.n, self.elem)
    def __contains__(self, x): raise OutOfSubset('membership in symbolic list')

def _listelem(xs):
    xs = list(xs)
    def e(k):
        if isinstance(k, int): return xs[k]
        z = z3.simplify(lift(k))
        if z3.is_int_value(z): return xs[z.as_long()]
        out = xs[-1]
        for i in range(len(xs) - 2, -1, -1): out = sym.ite(z == i, xs[i], out)
        return out
    return e

def seq_of(x):
    """view a value as SymSeq if it has symbolic length, else None"""
    if isinstance(x, SymSeq):
        return None if isinstance(x.n, int) else x
    if isinstance(x, (SArr, SMArr)):
        if x.shape and not isinstance(x.shape[0], int):
            if isinstance(x, SArr) and len(x.shape) == 1: return SymSeq(x.shape[0], lambda k: wrapz(x.at((lift(k),))))
            return SymSeq(x.shape[0], lambda k: x[k])
    return None

# ------------------------------------------------------------------ loops

class Inv:
    """what holds when k iterations are done: array contents, locals, facts"""
    def __init__(self, arrays=(), locals=None, facts=(), lists=(), cells=(), attrs=()):
        self.attrs = list(attrs)        # (object, attribute name, value): contents of python objects that the loop updates
        self.cells = list(cells)        # (shape, fn, folds): fn(*cell) holds for every cell, used where one of the folds is mentioned
        self.arrays, self.locals, self.facts, self.lists = list(arrays), dict(locals or {}), list(facts), list(lists)

class LoopView:
    def __init__(self, k, n, locals, seq, ordinal, func, entry): self.k, self.n, self.locals, self.seq, self.ordinal, self.func, self.entry = k, n, locals, seq, ordinal, func, entry

class _Plain:
    sym = False
    def __init__(self, it): self.it = it
    def __iter__(self): return iter(self.it)

def fingerprint(root, depth=0, seen=None, out=None):
    """structure of python containers reachable from locals (to detect unmodelled mutation)"""
    if seen is None: seen, out = {}, []
    if id(root) in seen or depth > 6: return out
    if isinstance(root, (list, tuple, set)):
        seen[id(root)] = root
        out.append((id(root), len(root), tuple(id(x) for x in root)))
        for x in root: fingerprint(x, depth + 1, seen, out)
    elif isinstance(root, dict):
        seen[id(root)] = root
        out.append((id(root), tuple((id(k), id(v)) for k, v in root.items())))
        for x in root.values(): fingerprint(x, depth + 1, seen, out)
    elif isinstance(root, np.ndarray):
        out.append((id(root), root.tobytes() if root.size < 100000 and root.dtype != object else 0))
    elif hasattr(root, '__dict__') and not isinstance(root, (type, types.ModuleType, types.FunctionType, SymSeq, SArr, SMArr)) and type(root).__module__.split('.')[0] not in ('vf', 'z3'):
        seen[id(root)] = root
        fingerprint(root.__dict__, depth + 1, seen, out)
    return out

class _Cut:
    """iteration over a symbolic-length sequence, cut at the invariant supplied by the contract"""
    sym = True
    def __init__(self, func, ordinal, seq, names):
        self.func, self.ordinal, self.seq, self.names = func, ordinal, seq, names
        c = ctx()
        self.invfn = (c.invariants.get(func) or c.invariants.get('*')) if getattr(c, 'invariants', None) else None
        if self.invfn is None:
            raise OutOfSubset('loop over symbolic length without invariant in %s (loop %d)' % (func, ordinal))
        self.state = 'new'
    def __iter__(self): return self
    def view(self, k, locals): return LoopView(k, self.seq.n, locals, self.seq, self.ordinal, self.func, self.entry)
    def check(self, k, locals, what):
        from .contract import oblige, oblige_forall
        inv = self.invfn(self.view(k, locals))
        tag = '%s.loop%d.%s' % (self.func, self.ordinal, what)
        for n, (arr, fn) in enumerate(inv.arrays):
            oblige_forall('%s.array%d' % (tag, n), arr.shape, lambda *idx: sym.wrapz(sym.binop('eq', arr.at(idx), lift(fn(*[wrapz(i) for i in idx])))))
        for name, v in inv.locals.items():
            if name not in locals:
                if v is UNBOUND: continue
                oblige(tag + '.' + name, False); continue
            self.check_value(tag + '.' + name, locals[name], v)
        for obj, name, v in inv.attrs: self.check_value('%s.attr.%s' % (tag, name), getattr(obj, name), v)
        for n, f in enumerate(inv.facts): oblige('%s.fact%d' % (tag, n), f)
        for n, (shape, fn, folds) in enumerate(inv.cells): oblige_forall('%s.cell%d' % (tag, n), shape, fn)
    def check_value(self, tag, have, want):
        from .contract import oblige, oblige_forall
        if want is UNBOUND or want is ANY: return
        if want is None or have is None:
            oblige(tag, (want is None) == (have is None)); return
        if isinstance(want, SArr):
            if isinstance(have, np.ndarray) and not np.ma.isMaskedArray(have) and have.dtype != object:
                if have.size == 0: oblige(tag + '.shape', sym.And(*[sym.Eq(a, b) for a, b in zip(have.shape, want.shape)]) if have.ndim == len(want.shape) else False); return
                have = snp.as_sarr(have)
            if not isinstance(have, SArr): oblige(tag, False); return
            if have is want: return
            oblige(tag + '.shape', sym.And(*[sym.Eq(a, b) for a, b in zip(have.shape, want.shape)]) if len(have.shape) == len(want.shape) else False)
            oblige_forall(tag, want.shape, lambda *idx: sym.wrapz(sym.binop('eq', have.at(idx), want.at(idx))))
            return
        if isinstance(want, SMArr):          # masked arrays: same gaps, same values elsewhere (no mask is a mask without gaps)
            if isinstance(have, np.ma.MaskedArray): have = SMArr(snp.as_sarr(have.data), snp.as_sarr(np.ma.getmaskarray(have)), have.fill_value)
            if not isinstance(have, SMArr): oblige(tag, False); return
            if have is want: return
            oblige(tag + '.shape', sym.And(*[sym.Eq(a, b) for a, b in zip(have.shape, want.shape)]) if len(have.shape) == len(want.shape) else False)
            hm, wm = have.msnap(), want.msnap()
            oblige_forall(tag + '.mask', want.shape, lambda *idx: sym.wrapz(sym.zbool(hm(tuple(lift(i) for i in idx))) == sym.zbool(wm(tuple(lift(i) for i in idx)))))
            oblige_forall(tag, want.shape, lambda *idx: sym.wrapz(z3.Or(sym.zbool(wm(tuple(lift(i) for i in idx))), lift(sym.binop('eq', have.data.at(idx), want.data.at(idx))))))
            return
        if isinstance(want, tuple):
            for i, (a, b) in enumerate(zip(have, want)): self.check_value('%s.%d' % (tag, i), a, b)
            return
        if isinstance(want, SymSeq):
            if isinstance(have, list): have = SymList(len(have), _listelem(have)) if have else SymList(0, want.elem)
            oblige(tag + '.len', sym.Eq(have.n, want.n))
            j = Sym(z3.Int(ctx().name('lj')))
            def g():
                a, b = have.elem(j), want.elem(j)
                return equal_values(a, b)
            c = sym.merge(g)
            oblige(tag + '.elems', sym.Implies(sym.And(j >= 0, j < want.n), c))
            return
        if hasattr(want, '_vf_eq'):
            oblige(tag, want._vf_eq(have)); return
        if isinstance(want, (Sym, int, float, np.number)):
            oblige(tag, sym.wrapz(sym.binop('eq', lift(have), lift(want)))); return
        oblige(tag, have is want or have == want)
    def __next__(self):
        frame = sys._getframe(1)
        c = ctx()
        if self.state == 'new':
            self.entry = dict(frame.f_locals)
            c.cut = True
            self.check(0, frame.f_locals, 'entry')
            if c.branch(z3.Bool(c.name('iterate_%s_%d' % (self.func, self.ordinal)))):
                self.k = Sym(z3.Int(c.name('k')))
                c.assume(z3.And(self.k.z >= 0, self.k.z < lift(self.seq.n)))
                self.state = 'body'
                self.havoc(self.k)
                self.wmark = len(c.writes)
                self.fp = None
                return self.seq.elem(self.k)
            self.state = 'done'
            self.havoc(self.seq.n)
            raise StopIteration
        if self.state == 'body':
            # frame: only what the invariant describes may have been written
            self.check_frame(frame.f_locals)
            self.check(self.k + 1, frame.f_locals, 'preserved')
            raise PathEnd('iteration closed')
        raise StopIteration
    def havoc(self, k):
        c = ctx()
        inv = self.invfn(self.view(k, self.entry))
        self.owned = []
        for arr, fn in inv.arrays:
            code = arr.code
            arr.write(lambda idx, fn=fn, code=code: (None, snp.castcode(lift(fn(*[wrapz(i) for i in idx])), code)))
            self.owned.append(arr.buf)
        self.newlocals = inv.locals
        self.attrs = [(obj, name) for obj, name, v in inv.attrs]
        for obj, name, v in inv.attrs: setattr(obj, name, v)
        for v in inv.locals.values():
            for o in (v if isinstance(v, tuple) else (v,)):
                if isinstance(o, SArr): self.owned.append(o.buf)
                if isinstance(o, SMArr): self.owned += [o.data.buf] + ([o.mask_.buf] if o.mask_ is not None else [])
                if isinstance(o, SymList): self.owned.append(o)
        for f in inv.facts: c.assume(f)
        for shape, fn, folds in inv.cells:
            for fo in folds: fo.know(k, shape, fn)
        if c.solver.check() == z3.unsat: raise PathEnd('infeasible')
    def locals_at(self, locals):
        out = []
        for n in self.names:
            if n in self.newlocals and self.newlocals[n] is not UNBOUND: out.append(self.newlocals[n])
            else: out.append(Poison(n))
        merged = dict(locals); merged.update({n: v for n, v in zip(self.names, out)})
        self.pre = {n: v for n, v in merged.items()}
        self.fp = self.prints(merged)
        self.keep = merged
        return tuple(out)
    def prints(self, vals):
        out, seen = [], {}
        held = [(o, n, getattr(o, n)) for o, n in self.attrs]
        try:
            for o, n, _ in held: setattr(o, n, None)      # described by the invariant
            for n, v in sorted(vals.items()):
                if not isinstance(v, (Poison, _Cut, _Plain)): fingerprint(v, 0, seen, out)
        finally:
            for o, n, v in held: setattr(o, n, v)
        return out
    def check_frame(self, locals):
        c = ctx()
        new = c.writes[self.wmark:]
        fresh = getattr(c, 'fresh_after', None)
        entrybufs = set()
        for v in self.entry.values(): _collect_bufs(v, entrybufs, 0, set())
        for b in new:
            if id(b) in entrybufs and not any(b is o for o in self.owned):
                raise OutOfSubset('loop body writes an array the invariant does not describe (%s)' % self.func)
        fp2 = self.prints(self.keep)
        if fp2 != self.fp:
            raise OutOfSubset('loop body mutates python objects the invariant does not describe (%s)' % self.func)

def _collect_bufs(v, out, depth, seen):
    if depth > 6 or id(v) in seen: return
    seen.add(id(v))
    if isinstance(v, SArr): out.add(id(v.buf))
    elif isinstance(v, SMArr):
        out.add(id(v.data.buf)); v.mask_ is not None and out.add(id(v.mask_.buf))
    elif isinstance(v, SymSeq): out.add(id(v))
    elif isinstance(v, (list, tuple, set)):
        for x in v: _collect_bufs(x, out, depth + 1, seen)
    elif isinstance(v, dict):
        for x in v.values(): _collect_bufs(x, out, depth + 1, seen)
    elif hasattr(v, '__dict__') and not isinstance(v, (type, types.ModuleType, types.FunctionType)): _collect_bufs(v.__dict__, out, depth + 1, seen)

UNBOUND = object()
ANY = object()

def equal_values(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, SArr) and a.dtype != object: a = snp.as_sarr(a)
    if isinstance(a, SArr) and isinstance(b, SArr):
        if len(a.shape) != len(b.shape): return False
        idx = [z3.Int(ctx().name('li')) for _ in a.shape]       # universally quantified: fresh in a goal
        return sym.And(*[sym.Eq(x, y) for x, y in zip(a.shape, b.shape)], sym.Implies(sym.And(*[sym.And(wrapz(i) >= 0, wrapz(i) < d) for i, d in zip(idx, b.shape)]), wrapz(sym.binop('eq', a.at(tuple(idx)), b.at(tuple(idx))))))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return sym.And(*[equal_values(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if hasattr(b, '_vf_eq'): return b._vf_eq(a)
    if a is b: return True
    if a is None or b is None or isinstance(a, str): return a == b
    return sym.Eq(a, b)

def vf_for(func, ordinal, it, names):
    s = seq_of(it) if active() else None
    if s is None: return _Plain(it)
    return _Cut(func, ordinal, s, names)

def active(): return sym.CTX is not None

class _Lazy(Exception): pass
def _subst(v, pairs):
    """the value with an index replaced; _Lazy for a value whose parts are not plain terms"""
    if isinstance(v, Sym): return wrapz(z3.substitute(v.z, *pairs))
    if v is None or isinstance(v, (str, bool, int, float, np.number, np.bool_, types.FunctionType, type)): return v
    if isinstance(v, tuple) and type(v) is tuple: return tuple(_subst(x, pairs) for x in v)
    if type(v) is list: return [_subst(x, pairs) for x in v]
    raise _Lazy()

def elementwise(n, fn):
    """k -> fn(k) for 0 <= k < n, computed now for an arbitrary k (a comprehension sees the state of the time it runs)"""
    c = ctx()
    k0 = z3.Int(c.name('ce'))
    log0 = len(c.def_log)
    lazy = lambda k: sym.merge(lambda: fn(k))
    def g():
        c.assume(z3.And(k0 >= 0, k0 < lift(n)))
        return fn(Sym(k0))
    if not c.feasible(z3.And(k0 >= 0, k0 < lift(n))): return lazy
    try:
        v = sym.merge(g)
        _subst(v, [(k0, k0)])
    except (_Lazy, IndexError, OutOfSubset): return lazy
    facts = [(key, f) for key, f in c.def_log[log0:] if k0.get_id() in _ids(f)]
    def elem(k):
        z = lift(k)
        for m, (key, f) in enumerate(facts): ctx().define(('ce', k0.get_id(), m, z.get_id()), lambda: z3.substitute(f, (k0, z)))
        return _subst(v, [(k0, z)])
    return elem
def _ids(f):
    out, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in out: continue
        out.add(x.get_id()); todo.extend(x.children())
    return out

def vf_comp(it, f, cond):
    s = seq_of(it) if active() else None
    if s is None:
        if cond is None: return [f(x) for x in it]
        return [f(x) for x in it if cond(x)]
    e = s.elem
    if cond is not None:
        # the kept positions in order: the true positions of the mask k -> cond(element k)
        keep = elementwise(s.n, lambda k: bool(cond(e(k))))
        p = snp.compress_of(snp.from_fn((s.n,), lambda idx: sym.zbool(lift(keep(wrapz(idx[0])))), 'b'))
        def at(k):
            return f(e(wrapz(p.sel(lift(k))[0])))
        return SymList(p.count, elementwise(p.count, at))
    return SymList(s.n, elementwise(s.n, lambda k: f(e(k))))

class Rewriter(ast.NodeTransformer):
    def __init__(self, modname): self.mod, self.stack, self.count, self.own = modname, [], [], []
    def visit_ClassDef(self, node):
        self.stack.append(node.name); self.generic_visit(node); self.stack.pop(); return node
    def visit_FunctionDef(self, node):
        self.stack.append(node.name); self.count.append(0)
        glob = {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        self.own.append({x.arg for x in ast.walk(node.args) if isinstance(x, ast.arg)} | {n for st in node.body for n in names_stored(st)} - glob)
        self.generic_visit(node)
        self.stack.pop(); self.count.pop(); self.own.pop()
        return node
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None: node.type = ast.copy_location(ast.Name('Exception', ast.Load()), node)   # engine control flow is not an exception of the program
        return node
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('int', 'float', 'bool', 'str'):
            node.func.id = '__vf_%s__' % node.func.id
        return node
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=ast.Name('__vf_fmt__', ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node
    def visit_ListComp(self, node):
        self.generic_visit(node)
        if not self.count or len(node.generators) != 1: return node
        g = node.generators[0]
        x = ast.arg(arg='__vf_x')
        def lam(body):
            inner = ast.ListComp(elt=body, generators=[ast.comprehension(target=g.target, iter=ast.Tuple(elts=[ast.Name('__vf_x', ast.Load())], ctx=ast.Load()), ifs=[], is_async=0)])
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[x], kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=ast.Subscript(value=inner, slice=ast.Constant(0), ctx=ast.Load()))
        cond = ast.Constant(None)
        if g.ifs:
            cond = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs))
        return ast.copy_location(ast.Call(func=ast.Name('__vf_comp__', ast.Load()), args=[g.iter, lam(node.elt), cond], keywords=[]), node)
    def visit_For(self, node):
        if not self.count:
            self.generic_visit(node); return node
        ordinal = self.count[-1]; self.count[-1] += 1
        fn = '.'.join(self.stack)
        names = sorted(assigned(node) | (filled(node) & self.own[-1]))
        self.generic_visit(node)
        L = '__vf_L%d' % ordinal
        tup = ast.Tuple(elts=[ast.Constant(n) for n in names], ctx=ast.Load())
        make = ast.Assign(targets=[ast.Name(L, ast.Store())], value=ast.Call(func=ast.Name('__vf_for__', ast.Load()),
                 args=[ast.Constant(fn), ast.Constant(ordinal), node.iter, tup], keywords=[]))
        def havoc(exclude):
            ns = [n for n in names]
            return ast.If(test=ast.Attribute(value=ast.Name(L, ast.Load()), attr='sym', ctx=ast.Load()),
                body=[ast.Assign(targets=[ast.Tuple(elts=[ast.Name(n if n not in exclude else '__vf_skip', ast.Store()) for n in ns], ctx=ast.Store())],
                      value=ast.Call(func=ast.Attribute(value=ast.Name(L, ast.Load()), attr='locals_at', ctx=ast.Load()),
                                     args=[ast.Call(func=ast.Name('locals', ast.Load()), args=[], keywords=[])], keywords=[]))], orelse=[])
        targets = names_stored(node.target)
        new = ast.For(target=node.target, iter=ast.Name(L, ast.Load()),
                      body=([havoc(targets)] if names else []) + node.body,
                      orelse=([havoc(set())] if names else []) + node.orelse)
        return [ast.copy_location(make, node), ast.copy_location(new, node)]

def names_stored(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}

def filled(node):
    """names of lists that the loop body appends to"""
    return {c.func.value.id for st in node.body for c in ast.walk(st) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend') and isinstance(c.func.value, ast.Name)}

def assigned(node):
    out = set()
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda): out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        for c in ast.iter_child_nodes(n): walk(c)
    walk(node.target)
    for s in node.body: walk(s)
    return out

# ------------------------------------------------------------------ builtins

def b_len(x):
    if hasattr(x, 'vf_len'): return x.vf_len()
    return builtins.len(x)
def b_range(*a):
    if has_sym(*a):
        if len(a) == 1: return SymRange(0, a[0])
        return SymRange(*a)
    return builtins.range(*[int(x) for x in a])
class _TypeShim(type):
    def __instancecheck__(cls, x): return cls._check(x)
    def __call__(cls, *a, **k): return cls._conv(*a, **k)
    def __eq__(cls, o): return o is cls or o is cls._real
    def __hash__(cls): return hash(cls._real)
def _int(x=0, *a):
    if isinstance(x, SArr): x = x.item()
    if isinstance(x, Sym): return wrapz(sym.toint_trunc(x.z))
    if hasattr(x, 'vf_int'): return x.vf_int()
    if isinstance(x, str) and not a and sdt.has_digits(x): return sdt.symint(x)
    return builtins.int(x, *a)
def _float(x=0.0):
    if isinstance(x, SArr): x = x.item()
    if isinstance(x, Sym): return Sym(sym.toreal(x.z))
    return builtins.float(x)
def _bool(x=False):
    if isinstance(x, Sym): return wrapz(zbool(x.z))
    return builtins.bool(x)
b_int = _int; b_float = _float; b_bool = _bool
INTK, FLTK, BLK = 'iv', 'r', 'b'
def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for u in ts:
        if hasattr(u, '_vf_type'): u = u._vf_type
        if isinstance(x, Sym):
            k = kind(x.z)
            if u is int and k in 'iv' or u is float and k == 'r' or u is bool and k == 'b' or u is object: return True
            if u in (np.integer,) and x.np and k in 'iv': return True
            continue
        if isinstance(x, SArr) and u is np.ndarray: return True
        if isinstance(x, SMArr) and u in (np.ndarray, np.ma.MaskedArray): return True
        if isinstance(x, SymList) and u is list: return True
        if hasattr(x, 'vf_isinstance'):
            if x.vf_isinstance(u): return True
            continue
        if isinstance(u, type) and builtins.isinstance(x, u): return True
        if not isinstance(u, type) and u is not None:
            try:
                if builtins.isinstance(x, u): return True
            except TypeError: pass
    return False
def b_type(*a):
    if builtins.len(a) != 1: return builtins.type(*a)
    x = a[0]
    if isinstance(x, Sym):
        if x.np: raise OutOfSubset('type of a numpy scalar')
        return {'i': int, 'v': int, 'r': float, 'b': bool}[kind(x.z)]
    t = builtins.type(x)
    return b_list if t is list or isinstance(x, SymList) else np.ndarray if t is SArr else t
b_type._vf_type = type
def b_abs(x): return builtins.abs(x)
def _mm(op, real):
    def f(*a, **k):
        if k or not has_sym(*a): return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        out = xs[0]
        for x in xs[1:]: out = wrapz(sym.binop(op, lift(out), lift(x)))
        return out
    return f
def b_sum(xs, start=0):
    s = seq_of(xs)
    if s is not None: raise OutOfSubset('sum over symbolic length')
    out = start
    for x in xs: out = out + x
    return out
def b_enumerate(xs, start=0):
    s = seq_of(xs)
    if s is not None: return SymSeq(s.n, lambda k: (start + k, s.elem(k)))
    return builtins.enumerate(xs, start)
def b_zip(*xs):
    ss = [seq_of(x) for x in xs]
    if builtins.any(s is not None for s in ss):
        if not builtins.all(s is not None for s in ss): raise OutOfSubset('zip of symbolic and concrete length')
        n = ss[0].n
        for s in ss[1:]:
            if not snp.same_dim(n, s.n): n = sym.Min(n, s.n)
        return SymSeq(n, lambda k: tuple(s.elem(k) for s in ss))
    return builtins.zip(*xs)
def b_list(x=()):
    if isinstance(x, SymRange): return SymRangeList(x.start, x.stop, x.step)
    s = seq_of(x)
    if s is not None: return SymList(s.n, s.elem)
    return builtins.list(x)
b_list._vf_type = list
def b_sorted(x, **k):
    if seq_of(x) is not None: raise OutOfSubset('sorted')
    return builtins.sorted(x, **k)
def b_round(x, nd=0):
    """Python 2 round: halves away from zero"""
    if isinstance(x, Sym):
        if nd: raise OutOfSubset('round digits')
        z = sym.toreal(x.z)
        return wrapz(z3.ToReal(z3.If(z >= 0, z3.ToInt(z + z3.Q(1, 2)), -z3.ToInt(-z + z3.Q(1, 2)))))
    return src.py2compat._py2_round(x, nd)
def _integral(v):
    if isinstance(v, Sym): return kind(v.z) in 'ibv'
    if isinstance(v, (SArr, SMArr)): return v.code != 'r'
    if isinstance(v, snp.SSel): return v.base.code != 'r'
    return src.py2compat._integral(v)
def b_div(l, r):
    if has_sym(l, r): return l // r if _integral(l) and _integral(r) else l / r
    if hasattr(l, '_vf_sym') or hasattr(r, '_vf_sym'): return l / r
    return src.py2compat._py2_div(l, r)
def b_idiv(l, r):
    if has_sym(l, r):
        if _integral(l) and _integral(r): l //= r
        else: l /= r
        return l
    return src.py2compat._py2_idiv(l, r)
def b_print(*a, **k): pass
STR = None       # set by a contract: the text of a symbolic whole number
def b_str(*a, **k):
    if STR is not None and len(a) == 1 and isinstance(a[0], Sym): return STR(a[0])
    if a and hasattr(a[0], 'vf_str'): return a[0].vf_str()
    return builtins.str(*a, **k)
def b_any(xs): return builtins.any(xs)
def b_timedelta(*a, **k):
    from . import sdt
    return sdt.timedelta(*a, **k)

class FakeMath:
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f): return f
        def g(*a):
            if has_sym(*a):
                if n == 'floor': return wrapz(sym.toint_floor(a[0].z)) if False else wrapz(z3.ToReal(z3.ToInt(sym.toreal(a[0].z))))
                if n == 'ceil': return wrapz(z3.ToReal(-z3.ToInt(-sym.toreal(a[0].z))))
                if n == 'sqrt': return wrapz(sym.zsqrt(a[0].z))
                if n == 'isnan': return False
                if n in ('sin', 'cos', 'exp', 'log', 'tan'): return wrapz(sym.ufun1(n)(a[0].z))
                raise OutOfSubset('math.' + n)
            return f(*a)
        return g

from . import sdt, smat
NUMPY = snp.FakeNumpy()
OVERRIDES = {'re': sdt.FakeRe(), 'datetime': sdt.FakeDatetimeModule(), 'dateutil.relativedelta': sdt.FakeRDModule(), 'numpy': NUMPY, 'numpy.ma': snp.FakeNumpy.ma, 'math': FakeMath(), 'scipy': smat.FakeScipy(), 'scipy.sparse': smat.SPARSE, 'scipy.signal': smat.SIGNAL}
SMODS = {}

class Lenient(types.ModuleType):
    """module the symbolic run never really uses (plotting, file formats): attribute access gives a guard"""

def _guard_mod(real, name):
    return real

def make_builtins():
    d = dict(vars(builtins))
    d.update(len=b_len, range=b_range, __vf_int__=b_int, __vf_float__=b_float, __vf_bool__=b_bool, __vf_str__=b_str, isinstance=b_isinstance, type=b_type, min=_mm('min', builtins.min), max=_mm('max', builtins.max),
             sum=b_sum, enumerate=b_enumerate, zip=b_zip, list=b_list, sorted=b_sorted, _py2_round=b_round, _py2_div=b_div, _py2_idiv=b_idiv, print=b_print,
             _py2_timedelta=b_timedelta, __vf_for__=vf_for, __vf_comp__=vf_comp, __vf_fmt__=sdt.symfmt_percent, __import__=s_import)
    return d

def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals.get('__package__') or ''
        parts = pkg.split('.')
        if level > 1: parts = parts[:-(level - 1)]
        name = '.'.join(parts + ([name] if name else []))
    if name in OVERRIDES or name.split('.')[0] in ('numpy',):
        if fromlist or '.' not in name: return OVERRIDES.get(name) or importlib.import_module(name)
        return OVERRIDES[name.split('.')[0]]
    root = name.split('.')[0]
    if root in src.ROOTS:
        m = sload(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    p, k = src.locate(name + '.' + f)
                    if p: setattr(m, f, sload(name + '.' + f))
            return m
        return SMODS[root]
    if root in OVERRIDES and not (fromlist and '.' in name):
        if '.' in name: importlib.import_module(name)
        return OVERRIDES[root]
    m = importlib.import_module(name)
    return m if fromlist else sys.modules[root]

def sload(name):
    if name in SMODS: return SMODS[name]
    parent = None
    if '.' in name:
        parent = sload(name.rsplit('.', 1)[0])
        if name in SMODS: return SMODS[name]
    path, k = src.locate(name)
    if path is None: raise ImportError(name)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name if k in ('pkg', 'ns') else name.rsplit('.', 1)[0]
    m.__dict__['__builtins__'] = make_builtins()
    SMODS[name] = m
    if k == 'ns':
        pass
    elif k in ('pyx', 'c'):
        from . import native
        try:
            native.sload_native(name, m, k)
        except BaseException:
            SMODS.pop(name, None); raise
    else:
        text = src.translated(name)
        tree = ast.parse(text)
        tree = Rewriter(name).visit(tree)
        ast.fix_missing_locations(tree)
        try:
            exec(compile(tree, path, 'exec', dont_inherit=True), m.__dict__)
        except BaseException:
            SMODS.pop(name, None)
            raise
    if parent is not None: setattr(parent, name.rsplit('.', 1)[1], m)
    return m
