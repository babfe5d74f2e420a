"""Extension modules (.pyx, .c) for symbolic execution.

Both are turned mechanically into Python text from the current source on every run, and then handled like any other
module.  What is dropped:
 * .pyx: the C types of variables and arguments (cimport, ctypedef, cdef, typed arguments, casts, cython decorators);
   machine integers and float32/float64 become mathematical integers and reals.
 * .c:   the same, and: arguments are bound as PyArg_ParseTupleAndKeywords would bind them, a pointer is a pair
   (array, offset) which must stay inside the array when dereferenced, arrays are taken to be contiguous and of the
   element type the code casts to (checked), and a counting loop `for (i = a; i < b; i++, p++)` becomes a loop over
   range(a, b) with p at its start plus i - a.
Anything else is refused (OutOfSubset), never guessed."""
import ast, re
import numpy as np
from . import src, sym, snp
from .sym import OutOfSubset, Sym, ctx, lift

# ------------------------------------------------------------------ Cython

def _split(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{': depth += 1
        if ch in ')]}': depth -= 1
        if ch == ',' and depth == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out

def _untype_arg(a):
    lead = a[:len(a) - len(a.lstrip())]
    s = a.strip()
    if not s or s.startswith('*'): return a
    default = ''
    depth = 0
    for n, ch in enumerate(s):
        if ch in '([{': depth += 1
        if ch in ')]}': depth -= 1
        if ch == '=' and depth == 0: s, default = s[:n].rstrip(), s[n:]; break
    m = re.search(r'(\w+)\s*(not\s+None|or\s+None)?$', s)
    if not m: raise OutOfSubset('cython argument %r' % a)
    return lead + m.group(1) + default

TYPE = r'(?:unsigned\s+|signed\s+|const\s+|readonly\s+)*[A-Za-z_][\w.]*(?:\s*\[[^\]]*\])?(?:\s*\*+|\s)\s*'

def strip_cython(text):
    lines = text.split('\n')
    out = []
    for ln in lines:
        ind = ln[:len(ln) - len(ln.lstrip())]
        s = ln.strip()
        if re.match(r'(from\s+\S+\s+)?cimport\b', s) or s.startswith('ctypedef ') or re.match(r'import\s+cython\b', s) or re.match(r'(from\s+cython\b)', s):
            out.append(ind + 'pass' if ind else ''); continue
        if s.startswith('@cython.'): out.append(''); continue
        if re.match(r'cdef\s+(extern|class|struct|enum|union)\b', s) or s in ('cdef:',): raise OutOfSubset('cython: ' + s[:60])
        m = re.match(r'(?:cdef|cpdef)\s+(?:inline\s+)?(?:' + TYPE + r')?(\w+)\s*\((.*)$', s)
        if m and not re.match(r'(?:cdef|cpdef)\s+' + TYPE + r'\w+\s*=', s):
            ln = ind + 'def ' + m.group(1) + '(' + m.group(2)
            ln = re.sub(r'\)\s*(?:except\s*[^:]+|noexcept|nogil)+\s*:\s*$', '):', ln)
            out.append(ln); continue
        if s.startswith('cdef '):
            m = re.match(r'cdef\s+' + TYPE + r'(.*)$', s)
            if not m: raise OutOfSubset('cython: ' + s[:60])
            stm = []
            for d in _split(m.group(1)):
                if '=' in d: stm.append(d.strip().lstrip('*'))
            out.append(ind + ('; '.join(stm) if stm else 'pass')); continue
        out.append(re.sub(r'((?:^|[=(,+\-*/]|return)\s*)<\s*[A-Za-z_][\w.]*\s*\**\s*>\s*', r'\1', ln))
    text = '\n'.join(out)
    # argument lists
    res, pos = '', 0
    for m in re.finditer(r'^[ \t]*def\s+\w+\s*\(', text, re.M):
        if m.end() <= pos: continue
        depth, k = 1, m.end()
        while depth and k < len(text):
            if text[k] in '([{': depth += 1
            if text[k] in ')]}': depth -= 1
            k += 1
        args = text[m.end():k - 1]
        res += text[pos:m.end()] + ','.join(_untype_arg(a) for a in _split(args)) + ')'
        pos = k
    return res + text[pos:]

# ------------------------------------------------------------------ C

CTYPES = {'npy_int32': np.int32, 'npy_float32': np.float32, 'npy_int64': np.int64, 'npy_float64': np.float64, 'int': np.int32, 'float': np.float32, 'double': np.float64,
          'npy_uint8': np.uint8, 'npy_int8': np.int8, 'char': np.int8, 'npy_int16': np.int16, 'npy_uint16': np.uint16, 'npy_uint32': np.uint32, 'npy_bool': np.bool_, 'long': np.int64, 'size_t': np.int64, 'npy_intp': np.int64, 'Py_ssize_t': np.int64}
FLOATS = {'npy_float32', 'npy_float64', 'float', 'double'}

class CPtr:
    """pointer into an array"""
    _vf_sym = True
    def __init__(self, arr, off=0): self.arr, self.off = arr, off
    def __add__(self, k): return CPtr(self.arr, self.off + k)
    __radd__ = __add__
    def __sub__(self, k):
        if isinstance(k, CPtr):
            if k.arr is not self.arr: raise OutOfSubset('difference of unrelated pointers')
            return self.off - k.off
        return CPtr(self.arr, self.off - k)
    def at(self, k):
        i = self.off + k
        n = self.arr.shape[0]
        if isinstance(i, Sym) or isinstance(n, Sym):
            import z3
            if not ctx().branch(z3.And(lift(i) >= 0, lift(i) < lift(n))): raise IndexError('pointer outside its array')
        elif not 0 <= i < n: raise IndexError('pointer outside its array')
        return i
    def __getitem__(self, k): return self.arr[self.at(k)]
    def __setitem__(self, k, v): self.arr[self.at(k)] = v

def c_parse(args, kw, fmt, keywords):
    codes, i = [], 0
    fmt = fmt.split(':')[0].split(';')[0]
    optional = False
    while i < len(fmt):
        if fmt[i] == '|': optional = True; i += 1; continue
        if fmt[i] == 'O' and fmt[i + 1:i + 2] == '!': codes.append('O!'); i += 2
        elif fmt[i] in 'Ofdil': codes.append(fmt[i]); i += 1
        else: raise OutOfSubset('argument format ' + fmt)
    if optional: raise OutOfSubset('optional C arguments')
    if len(codes) != len(keywords): raise SystemError('format and keywords differ')
    if len(args) > len(codes): raise TypeError('too many arguments')
    vals = dict(zip(keywords, args))
    for k, v in kw.items():
        if k not in keywords or k in vals: raise TypeError('argument ' + k)
        vals[k] = v
    if len(vals) != len(codes): raise TypeError('missing arguments')
    out = []
    for code, k in zip(codes, keywords):
        v = vals[k]
        if code == 'O!' and not isinstance(v, snp.SArr):
            if isinstance(v, snp.SMArr): v = v.data
            elif isinstance(v, np.ndarray): v = snp.from_concrete(v)
            else: raise TypeError('must be an array')
        out.append(v)
    return out[0] if len(out) == 1 else tuple(out)

def c_data(arr, ctype):
    want = CTYPES.get(ctype)
    if want is None: raise OutOfSubset('pointer to ' + str(ctype))
    if np.dtype(want) != arr.dtype: raise TypeError('array of %s read as %s' % (arr.dtype, ctype))
    return CPtr(arr.ravel())
def c_size(arr): return snp.simp_dim(arr.size)
def c_div(a, b):
    if all((isinstance(x, int) or (isinstance(x, Sym) and sym.kind(x.z) == 'i')) for x in (a, b)): raise OutOfSubset('C integer division')
    return a / b
def c_oos(msg): raise OutOfSubset(msg)

class Unsupported(Exception): pass

class CGen:
    def __init__(self, globals_): self.g = globals_; self.floats = set()
    def line(self, ind, s): self.out.append('    ' * ind + s)
    def function(self, f):
        from pycparser import c_ast as A
        self.out = []
        name = f.decl.name
        params = [p.name for p in f.decl.type.args.params] if f.decl.type.args else []
        isapi = len(params) in (2, 3) and self.typename(f.decl.type) == 'PyObject*'
        self.api = isapi
        self.line(0, 'def %s(%s):' % (name, '*args, **kw' if isapi else ', '.join(params)))
        try:
            self.tmp = 0
            self.block(f.body, 1)
            if len(self.out) == 1: self.line(1, 'pass')
        except Unsupported as e:
            self.out = self.out[:1]
            self.line(1, '__c_oos(%r)' % ('C: %s in %s' % (e, name)))
        return '\n'.join(self.out) + '\n'
    def typename(self, t):
        from pycparser import c_ast as A
        if isinstance(t, (A.TypeDecl,)): return self.typename(t.type)
        if isinstance(t, A.IdentifierType): return ' '.join(t.names)
        if isinstance(t, A.PtrDecl): return self.typename(t.type) + '*'
        if isinstance(t, A.Typename): return self.typename(t.type)
        if isinstance(t, A.FuncDecl): return self.typename(t.type)
        raise Unsupported('type')
    def block(self, b, ind):
        from pycparser import c_ast as A
        items = (b.block_items or []) if isinstance(b, A.Compound) else [b]
        n0 = len(self.out)
        k = 0
        while k < len(items):
            self.stmt(items[k], ind); k += 1
        if len(self.out) == n0: self.line(ind, 'pass')
    def parse_call(self, e):
        """PyArg_ParseTupleAndKeywords(...) -> assignment text"""
        from pycparser import c_ast as A
        a = e.args.exprs
        fmt = ast.literal_eval(a[2].value); kws = self.g[a[3].name]
        outs = []
        for x in a[4:]:
            if not (isinstance(x, A.UnaryOp) and x.op == '&'): raise Unsupported('argument binding')
            n = x.expr.name
            if n != 'PyArray_Type': outs.append(n)
        return '%s = __c_parse(args, kw, %r, %r)' % (', '.join(outs), fmt, kws)
    def is_parse(self, e):
        from pycparser import c_ast as A
        return isinstance(e, A.FuncCall) and isinstance(e.name, A.ID) and e.name.name == 'PyArg_ParseTupleAndKeywords'
    def stmt(self, s, ind):
        from pycparser import c_ast as A
        if isinstance(s, A.Compound): self.block(s, ind)
        elif isinstance(s, A.EmptyStatement) or s is None: pass
        elif isinstance(s, A.Decl):
            t = s.type
            if isinstance(t, A.TypeDecl) and self.typename(t) in FLOATS: self.floats.add(s.name)
            if s.init is not None: self.line(ind, '%s = %s' % (s.name, self.conv(s, s.init)))
        elif isinstance(s, A.DeclList):
            for d in s.decls: self.stmt(d, ind)
        elif isinstance(s, A.Assignment):
            l = self.expr(s.lvalue)
            if s.op == '=': self.line(ind, '%s = %s' % (l, self.expr(s.rvalue)))
            elif s.op in ('+=', '-=', '*='): self.line(ind, '%s = %s %s (%s)' % (l, l, s.op[0], self.expr(s.rvalue)))
            elif s.op == '/=': self.line(ind, '%s = __c_div(%s, %s)' % (l, l, self.expr(s.rvalue)))
            else: raise Unsupported(s.op)
        elif isinstance(s, A.UnaryOp) and s.op in ('++', 'p++', '--', 'p--'):
            l = self.expr(s.expr)
            self.line(ind, '%s = %s %s 1' % (l, l, s.op.replace('p', '')[0]))
        elif isinstance(s, A.ExprList):
            for e in s.exprs: self.stmt(e, ind)
        elif isinstance(s, A.If):
            c = s.cond
            if isinstance(c, A.UnaryOp) and c.op == '!' and self.is_parse(c.expr):
                self.line(ind, self.parse_call(c.expr)); return
            if self.is_parse(c): 
                self.line(ind, self.parse_call(c)); self.block(s.iftrue, ind); return
            self.line(ind, 'if %s:' % self.expr(c))
            self.block(s.iftrue, ind + 1)
            if s.iffalse is not None:
                self.line(ind, 'else:'); self.block(s.iffalse, ind + 1)
        elif isinstance(s, A.Return):
            if s.expr is None: self.line(ind, 'return')
            else:
                e = self.expr(s.expr)
                self.line(ind, "raise TypeError('NULL returned')" if e == 'None' and self.api and not (isinstance(s.expr, A.ID) and s.expr.name == 'Py_None') else 'return ' + e)
        elif isinstance(s, A.FuncCall): self.line(ind, self.expr(s))
        elif isinstance(s, (A.For, A.While)): self.loop(s, ind)
        elif isinstance(s, A.Cast): self.stmt(s.expr, ind)
        elif isinstance(s, A.ID): pass
        elif isinstance(s, A.Continue): self.line(ind, 'continue')
        elif isinstance(s, A.Break): raise Unsupported('break')
        else: raise Unsupported(type(s).__name__)
    def conv(self, decl, init):
        e = self.expr(init)
        return e
    def increment(self, s):
        """name if s is name++ / ++name / name += 1"""
        from pycparser import c_ast as A
        if isinstance(s, A.UnaryOp) and s.op in ('++', 'p++') and isinstance(s.expr, A.ID): return s.expr.name
        if isinstance(s, A.Assignment) and s.op == '+=' and isinstance(s.lvalue, A.ID) and isinstance(s.rvalue, A.Constant) and s.rvalue.value == '1': return s.lvalue.name
        return None
    def assigned(self, node, out):
        from pycparser import c_ast as A
        if isinstance(node, A.Assignment) and isinstance(node.lvalue, A.ID): out.add(node.lvalue.name)
        if isinstance(node, A.UnaryOp) and node.op in ('++', 'p++', '--', 'p--') and isinstance(node.expr, A.ID): out.add(node.expr.name)
        for _, c in node.children(): self.assigned(c, out)
        return out
    def loop(self, s, ind):
        from pycparser import c_ast as A
        if isinstance(s, A.For):
            if s.init is not None: self.stmt(s.init, ind)
            nexts = [] if s.next is None else s.next.exprs if isinstance(s.next, A.ExprList) else [s.next]
        else: nexts = []
        ctr = [self.increment(x) for x in nexts]
        body = (s.stmt.block_items or []) if isinstance(s.stmt, A.Compound) else [s.stmt]
        body = list(body)
        tail = []
        while body and self.increment(body[-1]) is not None and not any(isinstance(x, (A.Continue,)) for x in walk(s.stmt)):
            tail.append(self.increment(body.pop()))
        ctr = tail + ctr
        if None in ctr or len(set(ctr)) != len(ctr): raise Unsupported('loop step')
        c = s.cond
        if not (isinstance(c, A.BinaryOp) and c.op in ('<', '!=', '<=', '>') and isinstance(c.left, A.ID) and isinstance(c.right, (A.ID, A.Constant, A.BinaryOp, A.FuncCall))): 
            raise Unsupported('loop condition')
        op, left, right = c.op, c.left, c.right
        if op == '>':
            if not isinstance(right, A.ID): raise Unsupported('loop condition')
            op, left, right = '<', right, left
        i = left.name
        if i not in ctr: raise Unsupported('loop counter')
        touched = set()
        for b in body: self.assigned(b, touched)
        if touched & set(ctr): raise Unsupported('loop variable changed in the body')
        if touched & {x.name for x in walk(right) if isinstance(x, A.ID)}: raise Unsupported('loop bound changed in the body')
        self.tmp += 1; t = self.tmp
        hi = self.expr(right)
        if op == '<=': hi = '(%s) + 1' % hi
        self.line(ind, '__n%d = __c_trips(%s, %s)' % (t, i, hi))
        for v in ctr: self.line(ind, '__b%d_%s = %s' % (t, v, v))
        self.line(ind, 'for __i%d in range(__n%d):' % (t, t))
        for v in ctr: self.line(ind + 1, '%s = __b%d_%s + __i%d' % (v, t, v, t))
        n0 = len(self.out)
        for b in body: self.stmt(b, ind + 1)
        if len(self.out) == n0: self.line(ind + 1, 'pass')
        for v in ctr: self.line(ind, '%s = __b%d_%s + __n%d' % (v, t, v, t))
    def expr(self, e):
        from pycparser import c_ast as A
        if isinstance(e, A.ID):
            return {'NULL': 'None', 'Py_None': 'None'}.get(e.name, e.name)
        if isinstance(e, A.Constant):
            if e.type == 'string': return e.value
            v = re.sub(r'[fFlLuU]+$', '', e.value)
            return v
        if isinstance(e, A.UnaryOp):
            if e.op == '*': return '(%s)[0]' % self.expr(e.expr)
            if e.op == '!': return '(not (%s))' % self.expr(e.expr)
            if e.op in '-+': return '(%s(%s))' % (e.op, self.expr(e.expr))
            if e.op == '&' and isinstance(e.expr, A.ArrayRef): return '(%s + (%s))' % (self.expr(e.expr.name), self.expr(e.expr.subscript))
            raise Unsupported('operator ' + e.op)
        if isinstance(e, A.BinaryOp):
            l, r = self.expr(e.left), self.expr(e.right)
            if e.op in ('+', '-', '*', '<', '<=', '>', '>=', '==', '!='): return '((%s) %s (%s))' % (l, e.op, r)
            if e.op == '/': return '__c_div(%s, %s)' % (l, r)
            if e.op in ('&&', '||'): return '((%s) %s (%s))' % (l, {'&&': 'and', '||': 'or'}[e.op], r)
            raise Unsupported('operator ' + e.op)
        if isinstance(e, A.TernaryOp): return '((%s) if (%s) else (%s))' % (self.expr(e.iftrue), self.expr(e.cond), self.expr(e.iffalse))
        if isinstance(e, A.ArrayRef): return '(%s)[%s]' % (self.expr(e.name), self.expr(e.subscript))
        if isinstance(e, A.Cast):
            t = self.typename(e.to_type)
            if isinstance(e.expr, A.FuncCall) and getattr(e.expr.name, 'name', '') == 'PyArray_DATA':
                return '__c_data(%s, %r)' % (self.expr(e.expr.args.exprs[0]), t.rstrip('*'))
            if t.endswith('*') or t in FLOATS: return self.expr(e.expr)
            if t in CTYPES: return 'int(%s)' % self.expr(e.expr)
            raise Unsupported('cast to ' + t)
        if isinstance(e, A.FuncCall):
            n = e.name.name
            args = [self.expr(x) for x in (e.args.exprs if e.args else [])]
            if n == 'PyArray_SIZE': return '__c_size(%s)' % args[0]
            if n == 'PyArray_DATA': raise Unsupported('untyped data pointer')
            if n in ('fabs', 'fabsf'): return 'abs(%s)' % args[0]
            if n in ('fmin', 'fminf'): return 'min(%s)' % ', '.join(args)
            if n in ('fmax', 'fmaxf'): return 'max(%s)' % ', '.join(args)
            if n in ('sqrt', 'sqrtf'): return '__c_sqrt(%s)' % args[0]
            if n in self.funcs: return '%s(%s)' % (n, ', '.join(args))
            raise Unsupported('call of ' + n)
        raise Unsupported(type(e).__name__)

def walk(n):
    yield n
    for _, c in n.children(): yield from walk(c)

def c_trips(i, hi):
    d = hi - i
    if isinstance(d, Sym): return snp.simp_path(lift(sym.Max(d, 0)))
    return max(d, 0)

def c_to_python(text):
    import pycparser
    from pycparser import c_ast as A
    text = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), text, flags=re.S)
    text = re.sub(r'//[^\n]*', '', text)
    macros = dict(re.findall(r'^[ \t]*#[ \t]*define[ \t]+(\w+)[ \t]+([-\w.]+)[ \t]*$', text, re.M))
    text = re.sub(r'^[ \t]*#[^\n]*(\\\n[^\n]*)*$', '', text, flags=re.M)
    for k, v in macros.items():
        if k != 'NPY_NO_DEPRECATED_API': text = re.sub(r'\b%s\b' % k, v, text)
    text = text.replace('Py_RETURN_NONE', 'return Py_None')
    # module registration is not program logic
    text = re.sub(r'^\s*(PyMODINIT_FUNC|void)\s+(init|PyInit_)\w+\s*\([^)]*\)\s*\{.*?^\}', '', text, flags=re.S | re.M)
    pre = 'typedef int PyObject; typedef int PyArrayObject; typedef int PyMethodDef; typedef int PyCFunction; typedef int Py_ssize_t;\n' + ''.join('typedef int %s;\n' % t for t in CTYPES if t.startswith('npy') or t == 'size_t')
    text = re.sub(r'static\s+(struct\s+)?PyM\w+(\s+\w+)?\s*(\[\s*\])?\s*=\s*\{.*?\n\};?', '', text, flags=re.S)
    try: tree = pycparser.CParser().parse(pre + text, 'aggregate.c')
    except Exception as e: raise OutOfSubset('C parse: %s' % str(e)[:200])
    g = {}
    funcs = []
    consts = []
    for d in tree.ext:
        if isinstance(d, A.FuncDef): funcs.append(d)
        elif isinstance(d, A.Decl) and isinstance(d.init, A.InitList):
            try: g[d.name] = [ast.literal_eval(x.value) for x in d.init.exprs if isinstance(x, A.Constant)]
            except Exception: pass
    gen = CGen(g)
    gen.funcs = {f.decl.name for f in funcs}
    return '\n'.join(gen.function(f) for f in funcs)

# ------------------------------------------------------------------ loading

def sload_native(name, module, kind_):
    from . import load
    path, _ = src.locate(name)
    raw = src.raw(name)
    if kind_ == 'pyx':
        text = src._tr.translate_python(strip_cython(raw), path)
    else:
        text = c_to_python(raw)
        from .load import FakeMath
        module.__dict__.update(__c_parse=c_parse, __c_data=c_data, __c_size=c_size, __c_div=c_div, __c_oos=c_oos, __c_trips=c_trips, __c_sqrt=lambda x: FakeMath().sqrt(x))
    tree = load.Rewriter(name).visit(ast.parse(text))
    ast.fix_missing_locations(tree)
    exec(compile(tree, path, 'exec', dont_inherit=True), module.__dict__)
