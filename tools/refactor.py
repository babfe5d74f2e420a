"""runs checks on the code as it is after random edits that keep its behaviour:  py.sh tools/refactor.py SEED PNN...
Every module is rewritten (after translation) before the checks see it; nothing in /repo changes. A VIOLATION line is a false alarm."""
import ast, os, random, sys, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
SEED = int(sys.argv[1]); RATE = float(os.environ.get('RF_RATE', '0.5'))
KINDS = os.environ.get('RF_KINDS', 'swapif,temp,args,comp,helper,enum,flip,dead,early,demorgan,fmt,whilefor').split(',')

def N(i, ctx=None): return ast.Name(id=i, ctx=ctx or ast.Load())
def load(x): return ast.Name(id=x, ctx=ast.Load())
def store(x): return ast.Name(id=x, ctx=ast.Store())
PURE = (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp, ast.USub, ast.Load, ast.BinOp, ast.Add, ast.Sub, ast.Mult)
def pure(e): return all(isinstance(x, PURE) for x in ast.walk(e))
def leaf(e): return isinstance(e, (ast.Name, ast.Constant))

class R(ast.NodeTransformer):
    def __init__(self, rnd): self.r = rnd; self.k = 0; self.depth = 0
    def on(self, kind): return kind in KINDS and self.r.random() < RATE
    def new(self, s='tmp'): self.k += 1; return '%s_%d' % (s, self.k)
    def block(self, body):
        out = []
        for s in body:
            x = self.visit(s)
            out += x if isinstance(x, list) else [x]
        return out
    def generic_stmt(self, s):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): setattr(s, f, self.block(b))
        for h in getattr(s, 'handlers', []): h.body = self.block(h.body)
        return s
    def visit_If(self, s):
        self.generic_stmt(s)
        s.test = self.expr(s.test)
        if s.orelse and self.on('swapif'):
            s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
        elif s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.on('early'):
            rest = s.orelse; s.orelse = []
            return [s] + rest
        return s
    def visit_While(self, s): return self.generic_stmt(s)
    def visit_With(self, s): return self.generic_stmt(s)
    def visit_Try(self, s): return self.generic_stmt(s)
    def visit_For(self, s):
        self.generic_stmt(s)
        if self.on('whilefor') and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 \
           and isinstance(s.target, ast.Name) and not s.orelse and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)) \
           and not any(isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Store) for b in s.body for x in ast.walk(b)):
            c, n = self.new('pos'), self.new('count')
            return [ast.Assign([store(n)], s.iter.args[0]), ast.Assign([store(c)], ast.Constant(0)),
                    ast.While(ast.Compare(load(c), [ast.Lt()], [load(n)]), [ast.Assign([s.target], load(c))] + s.body + [ast.AugAssign(store(c), ast.Add(), ast.Constant(1))], [])]
        if self.on('enum'):
            i = self.new('idx')
            s.target = ast.Tuple([store(i), s.target], ast.Store())
            s.iter = ast.Call(load('enumerate'), [s.iter], [])
        return s
    def visit_Return(self, s):
        if s.value is None: return s
        pre, s.value = self.pre(s.value)
        if not leaf(s.value) and self.on('temp'):
            t = self.new('result')
            return pre + [ast.Assign([store(t)], s.value), ast.Return(load(t))]
        return pre + [s]
    def visit_Assign(self, s):
        pre, s.value = self.pre(s.value)
        if not leaf(s.value) and self.on('temp') and not isinstance(s.value, ast.Lambda) and not any(isinstance(x, ast.Name) and x.id == '__slots__' for t in s.targets for x in ast.walk(t)) and self.depth:
            t = self.new('value')
            return pre + [ast.Assign([store(t)], s.value), ast.Assign(s.targets, load(t))]
        return pre + [s]
    def visit_Expr(self, s):
        if isinstance(s.value, ast.Constant): return s
        pre, s.value = self.pre(s.value)
        return pre + [s]
    def pre(self, e):
        """statements to run before, and the expression"""
        if not self.depth: return [], e
        e = self.expr(e)
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) and x is not e for x in ast.walk(e)) and self.on('comp'):
            g = e.generators[0]; acc = self.new('items')
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}; new = {n: self.new(n) for n in names}
            class Q(ast.NodeTransformer):
                def visit_Name(q, x): return ast.Name(new.get(x.id, x.id), x.ctx)
            it = g.iter
            body = ast.Expr(ast.Call(ast.Attribute(load(acc), 'append', ast.Load()), [Q().visit(e.elt)], []))
            for c in reversed(g.ifs): body = ast.If(Q().visit(c), [body], [])
            return [ast.Assign([store(acc)], ast.List([], ast.Load())), ast.For(Q().visit(g.target), it, [body], [])], load(acc)
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and (isinstance(e.func, ast.Name) or pure(e.func)) and not any(isinstance(a, ast.Starred) for a in e.args) and all(k.arg for k in e.keywords) \
           and not (isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals', 'globals', 'isinstance')) and self.on('args'):
            out = []
            for n, a in enumerate(e.args):
                if isinstance(a, (ast.GeneratorExp, ast.Lambda)) or leaf(a): continue
                t = self.new('arg'); out.append(ast.Assign([store(t)], a)); e.args[n] = load(t)
            for k in e.keywords:
                if isinstance(k.value, (ast.GeneratorExp, ast.Lambda)) or leaf(k.value): continue
                t = self.new('arg'); out.append(ast.Assign([store(t)], k.value)); k.value = load(t)
            return out, e
        return [], e
    def expr(self, e):
        me = self
        class X(ast.NodeTransformer):
            def visit_Compare(x, c):
                x.generic_visit(c)
                sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
                if len(c.ops) == 1 and type(c.ops[0]) in sw and pure(c.left) and pure(c.comparators[0]) and me.on('flip'):
                    return ast.Compare(c.comparators[0], [sw[type(c.ops[0])]()], [c.left])
                if len(c.ops) == 1 and isinstance(c.ops[0], (ast.Is, ast.In)) and me.on('demorgan'):
                    return ast.UnaryOp(ast.Not(), ast.Compare(c.left, [ast.IsNot() if isinstance(c.ops[0], ast.Is) else ast.NotIn()], c.comparators))
                return c
            def visit_BinOp(x, b):
                x.generic_visit(b)
                if isinstance(b.op, ast.Add) and isinstance(b.left, ast.Constant) and isinstance(b.left.value, str) and isinstance(b.right, ast.Call) and isinstance(b.right.func, ast.Name) and b.right.func.id == 'str' and len(b.right.args) == 1 and me.on('fmt'):
                    return ast.Call(ast.Attribute(ast.Constant(b.left.value.replace('{', '{{').replace('}', '}}') + '{0}'), 'format', ast.Load()), [b.right.args[0]], [])
                return b
            def visit_Lambda(x, l): return l
        return X().visit(e)
    def visit_FunctionDef(self, f):
        doc = []
        body = f.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str): doc, body = body[:1], body[1:]
        self.depth += 1
        outer, self.k = self.k, self.k
        body = self.block(body) or [ast.Pass()]
        self.depth -= 1
        if self.on('dead'): body.insert(0, ast.Assign([store(self.new('unused'))], ast.Constant(0)))
        f.body = doc + body
        a = f.args
        if not f.decorator_list and not a.vararg and not a.kwarg and not a.kwonlyargs and not f.name.startswith('__') and self.depth == 0 \
           and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for x in ast.walk(f)) and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals', '__class__') for x in ast.walk(f)) and self.on('helper'):
            h = '_%s_%s_body' % (self.cls, f.name.strip('_'))
            ha = copy.deepcopy(a); ha.defaults = []
            names = [x.arg for x in a.args]
            helper = ast.FunctionDef(name=h, args=ha, body=body, decorator_list=[], returns=None, type_params=[])
            if self.incls:
                if not names: return f
                callee = ast.Attribute(load(names[0]), h, ast.Load())
                rest = names[1:]
            else: callee, rest = load(h), names
            f.body = doc + [ast.Return(ast.Call(callee, [load(n) for n in rest], []))]
            return [helper, f]
        return f
    incls, cls = 0, ''
    def visit_ClassDef(self, c):
        if self.depth: return c
        self.incls += 1; self.cls = c.name
        c.body = self.block(c.body)
        self.incls -= 1; self.cls = ''
        return c
    def visit_Lambda(self, l): return l

def rewrite(text, path):
    import zlib
    try: t = ast.parse(text)
    except SyntaxError: return text
    R_ = R(random.Random('%d %s' % (SEED, os.path.basename(path))))
    # a decorated function in a class may not call through an instance; class and static methods are left alone
    out = []
    for s in t.body:
        x = R_.visit(s)
        out += x if isinstance(x, list) else [x]
    t.body = out
    new = ast.unparse(ast.fix_missing_locations(t))
    compile(new, path, 'exec')
    return new

from vf import src, run
was = src._tr.translate_python
def translate(text, path):
    out = was(text, path)
    if path.startswith(src.REPO): out = rewrite(out, path)
    d = os.environ.get('RF_DUMP')
    if d: os.makedirs(d, exist_ok=True); open(os.path.join(d, os.path.relpath(path, src.REPO).replace('/', '.')), 'w').write(out)
    return out
src._tr.translate_python = translate
if __name__ == '__main__':
    sys.argv = ['vf.run'] + sys.argv[2:]
    rc = run.main()
    sys.stdout.flush()
    if src._scratch:
        import shutil; shutil.rmtree(src._scratch, ignore_errors=True)
    os._exit(rc)
