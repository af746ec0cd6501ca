"""Instrumentation: the AST of the code under test is rewritten so that every operation CPython would perform in C on a
symbolic value goes through the runtime `__S__` (runtime.py).  The rewriting is done from the current source on every
run and is purely syntactic and local; control flow stays that of the source.
"""
import ast

S = "__S__"
SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}
LAZY_BAD = (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}


def load(n):
    return ast.Name(id=n, ctx=ast.Load())


def store(n):
    return ast.Name(id=n, ctx=ast.Store())


def s_attr(name):
    return ast.Attribute(value=load(S), attr=name, ctx=ast.Load())


def s_call(name, *args):
    return ast.Call(func=s_attr(name), args=list(args), keywords=[])


def lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[],
                                         kwarg=None, defaults=[]), body=e)


def const(v):
    return ast.Constant(value=v)


def has_bad(e):
    for n in ast.walk(e):
        if isinstance(n, LAZY_BAD):
            return True
        if isinstance(n, ast.Name) and n.id in ("super", "locals", "__class__", "vars", "dir", "eval", "exec"):
            return True
    return False


class Instrumenter(ast.NodeTransformer):
    def __init__(self, modname, attr_hooks=False, merge=True):
        self.modname = modname
        self.attr_hooks = attr_hooks
        self.merge = merge
        self.cls = []
        self.fn = []
        self.uid = 0
        self.in_merge = 0

    # -- helpers
    def visit(self, node):
        r = ast.NodeTransformer.visit(self, node)
        if hasattr(node, "lineno"):
            for n in r if isinstance(r, list) else [r]:
                if isinstance(n, ast.AST) and not hasattr(n, "lineno"):
                    ast.copy_location(n, node)
                    if isinstance(n, ast.Expr) and not hasattr(n.value, "lineno"):
                        ast.copy_location(n.value, node)
        return r

    def infn(self):
        return bool(self.fn) and self.fn[-1] is not None

    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__"):
            for c in reversed(self.cls):
                if c is not None:
                    c = c.lstrip("_")
                    return "_%s%s" % (c, name) if c else name
        return name

    def lazy_ok(self, *es):
        return self.infn() and not any(has_bad(e) for e in es)

    # -- scopes
    def visit_Name(self, node):
        if self.attr_hooks and self.infn() and isinstance(node.ctx, ast.Load) and node.id in self.outer:
            return s_call("second", s_call("gload", const(node.id)), node)
        return node

    def visit_Module(self, node):
        self.outer = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.outer.update(n.names)
        self.generic_visit(node)
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        self.cls.append(node.name)
        self.fn.append(None)
        body = []
        for b in node.body:
            if isinstance(b, ast.FunctionDef) and b.name == "__del__":
                continue   # destructors run at collector-chosen moments; the harnesses call close() explicitly
            r = self.visit(b)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body or [ast.Pass()]
        self.fn.pop()
        self.cls.pop()
        return node

    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        qual = ".".join([c for c in self.cls if c] + [f for f in self.fn if f] + [node.name])
        self.fn.append(node.name)
        gl = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                gl.update(n.names)
        old = getattr(self, "globs", set())
        self.globs = gl
        doc = []
        body = list(node.body)
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
            doc = [body.pop(0)]
        new = []
        for b in body:
            r = self.visit(b)
            if r is not None:
                new.extend(r if isinstance(r, list) else [r])
        node.body = doc + [ast.Expr(s_call("enter", const("%s:%s" % (self.modname, qual))))] + new
        self.globs = old
        self.fn.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        self.fn.append("<lambda>")
        self.generic_visit(node)
        self.fn.pop()
        return node

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            self.generic_visit(node)
            return node
        self.filtered(node)
        self.generic_visit(node)
        return ast.Call(func=s_attr("call"), args=[node.func] + node.args, keywords=node.keywords)

    NEUTRAL = {"sum": 0, "any": False, "all": True}

    def filtered(self, node):
        """sum/any/all(x for .. if c) as sum/any/all((x if c else neutral) for ..): a choice of values instead of a fork"""
        f = node.func
        if not (isinstance(f, ast.Name) and f.id in self.NEUTRAL and len(node.args) == 1 and not node.keywords and isinstance(
                node.args[0], (ast.GeneratorExp, ast.ListComp)) and node.args[0].generators[-1].ifs):
            return
        g = node.args[0]
        conds = g.generators[-1].ifs
        g.generators[-1].ifs = []
        g.elt = ast.IfExp(test=conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds), body=g.elt,
                          orelse=const(self.NEUTRAL[f.id]))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return s_call("getitem", node.value, self.key(node.slice))
        return node

    def key(self, sl):
        if isinstance(sl, ast.Slice):
            return ast.Call(func=s_attr("slice"), args=[sl.lower or const(None), sl.upper or const(None),
                                                        sl.step or const(None)], keywords=[])
        if isinstance(sl, ast.Tuple):
            return ast.Tuple(elts=[self.key(e) for e in sl.elts], ctx=ast.Load())
        return sl

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if self.attr_hooks and isinstance(node.ctx, ast.Load) and self.infn():
            return s_call("getattr", node.value, const(self.mangle(node.attr)))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = s_call("contains", node.comparators[0], node.left)
            return c if isinstance(node.ops[0], ast.In) else s_call("not_", c)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return s_call("not_", node.operand)
        return node

    def visit_BoolOp(self, node):
        ok = self.lazy_ok(*node.values)
        self.generic_visit(node)
        if not ok:
            return node
        return s_call("and_" if isinstance(node.op, ast.And) else "or_", *[lam(v) for v in node.values])

    def visit_IfExp(self, node):
        ok = self.lazy_ok(node.test, node.body, node.orelse)
        self.generic_visit(node)
        if not ok:
            return node
        return s_call("ifexp", node.test, lam(node.body), lam(node.orelse))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return s_call("mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = const(None)
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(v.conversion), spec], ctx=ast.Load()))
        return s_call("fstr", *parts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return s_call("mkdict", node)
        return s_call("mkdict_items", *[ast.Tuple(elts=[k, v], ctx=ast.Load())
                                        for k, v in zip(node.keys, node.values)])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return s_call("mkdict", ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators))

    # -- statements
    def stores(self, target, value_expr):
        """statement(s) storing value_expr into target"""
        if isinstance(target, ast.Subscript):
            return ast.Expr(s_call("setitem", target.value, self.key(target.slice), value_expr))
        if isinstance(target, ast.Attribute):
            return ast.Expr(s_call("setattr", target.value, const(self.mangle(target.attr)), value_expr))
        return ast.Assign(targets=[target], value=value_expr)

    def simple(self, t):
        return isinstance(t, ast.Name)

    def flatten(self, target, post):
        """replace non-name leaves of a tuple target by temporaries; post gets the stores"""
        if isinstance(target, (ast.Tuple, ast.List)):
            target.elts = [self.flatten(e, post) for e in target.elts]
            return target
        if isinstance(target, ast.Starred):
            target.value = self.flatten(target.value, post)
            return target
        if isinstance(target, ast.Name):
            return target
        self.uid += 1
        n = "__t%d" % self.uid
        post.append(self.stores(target, load(n)))
        return store(n)

    def visit_Assign(self, node):
        self.generic_visit(node)
        if not self.infn() and all(isinstance(t, (ast.Name, ast.Tuple)) for t in node.targets):
            return node
        if len(node.targets) == 1 and isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
            return self.stores(node.targets[0], node.value)
        if all(isinstance(t, ast.Name) for t in node.targets):
            if self.attr_hooks and self.infn() and len(node.targets) == 1 and node.targets[0].id in self.outer:
                node.value = s_call("gstore", const(node.targets[0].id), node.value)
            return node
        post = []
        if len(node.targets) == 1:
            t = self.flatten(node.targets[0], post)
            return [ast.Assign(targets=[t], value=node.value)] + post
        self.uid += 1
        n = "__t%d" % self.uid
        out = [ast.Assign(targets=[store(n)], value=node.value)]
        for t in node.targets:
            if isinstance(t, (ast.Subscript, ast.Attribute)):
                out.append(self.stores(t, load(n)))
            else:
                post = []
                t = self.flatten(t, post)
                out.append(ast.Assign(targets=[t], value=load(n)))
                out.extend(post)
        return out

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is not None and isinstance(node.target, (ast.Subscript, ast.Attribute)):
            return self.stores(node.target, node.value)
        return node

    def visit_AugAssign(self, node):
        t = node.target
        ok = self.lazy_ok(node.value)
        self.generic_visit(node)
        op = const(OPS[type(node.op)])
        v = lam(node.value) if ok else s_call("later", node.value)
        if isinstance(t, ast.Name):
            if self.attr_hooks and self.infn() and t.id in self.outer:
                return ast.Assign(targets=[store(t.id)], value=s_call("gstore", const(t.id), s_call(
                    "iop", op, s_call("second", s_call("gload", const(t.id)), load(t.id)), node.value)))
            return ast.Assign(targets=[store(t.id)], value=s_call("iop", op, load(t.id), node.value))
        if isinstance(t, ast.Subscript):
            return ast.Expr(s_call("augitem", t.value, self.key(t.slice), op, v))
        return ast.Expr(s_call("augattr", t.value, const(self.mangle(t.attr)), op, v))

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(s_call("delitem", t.value, self.key(t.slice))))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(s_call("delattr", t.value, const(self.mangle(t.attr)))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_For(self, node):
        self.generic_visit(node)
        post = []
        node.target = self.flatten(node.target, post)
        node.body = post + node.body
        node.iter = s_call("iter", node.iter)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(type=s_attr("Signal"), name=None, body=[ast.Raise()]))
        return node

    # -- mergeable conditionals
    def visit_If(self, node):
        names = self.merge_names(node) if self.merge and self.infn() and self.in_merge < 3 else None
        if names is None:
            self.generic_visit(node)
            return node
        import copy
        self.in_merge += 1
        spec = self.generic_visit(copy.deepcopy(node))
        self.in_merge -= 1
        plain = self.generic_visit(copy.deepcopy(node))
        self.uid += 1
        u = self.uid
        c, m, o = "__c%d" % u, "__m%d" % u, "__o%d" % u
        nm = sorted(names)
        tup_l = ast.Call(func=s_attr("locs"), args=[ast.Call(func=load("__locals__"), args=[], keywords=[]),
                                                    const(tuple(nm))], keywords=[])

        def snap():
            return ast.Call(func=s_attr("locs"), args=[ast.Call(func=load("__locals__"), args=[], keywords=[]),
                                                       const(tuple(nm))], keywords=[])

        def restore(src):
            out = []
            for i, n in enumerate(nm):
                out.append(ast.Assign(targets=[store(n)], value=ast.Subscript(
                    value=load(src), slice=const(i), ctx=ast.Load())))
            # names that were unbound are unbound again
            for i, n in enumerate(nm):
                out.append(ast.If(test=ast.Compare(left=load(n), ops=[ast.Is()], comparators=[s_attr("MISSING")]),
                                  body=[ast.Delete(targets=[ast.Name(id=n, ctx=ast.Del())])], orelse=[]))
            return out
        body = [ast.Assign(targets=[store(m)], value=s_call("merge_begin", load(c)))]
        inner = list(spec.body)
        inner.append(ast.Expr(ast.Call(func=ast.Attribute(value=load(m), attr="mid", ctx=ast.Load()),
                                       args=[snap()], keywords=[])))
        inner += restore(o)
        inner += list(spec.orelse)
        inner.append(ast.Assign(targets=[store(o)], value=ast.Call(
            func=ast.Attribute(value=load(m), attr="end", ctx=ast.Load()), args=[snap()], keywords=[])))
        inner += restore(o)
        fail = [ast.Expr(ast.Call(func=ast.Attribute(value=load(m), attr="fail", ctx=ast.Load()), args=[],
                                  keywords=[]))] + restore(o) + [ast.Assign(targets=[store(m)], value=const(None))]
        body.append(ast.If(
            test=ast.Compare(left=load(m), ops=[ast.IsNot()], comparators=[const(None)]),
            body=[ast.Assign(targets=[store(o)], value=snap()),
                  ast.Try(body=inner,
                          handlers=[ast.ExceptHandler(type=s_attr("MERGE_FAIL"), name=None, body=fail)],
                          orelse=[], finalbody=[])], orelse=[]))
        plain.test = load(c)
        del tup_l
        return [ast.Assign(targets=[store(c)], value=spec.test)] + body + [
            ast.If(test=ast.Compare(left=load(m), ops=[ast.Is()], comparators=[const(None)]), body=[plain],
                   orelse=[])]

    def merge_names(self, node):
        """names assigned by a mergeable conditional, or None"""
        names = set()

        def expr_ok(e):
            return not has_bad(e)

        def walk(body):
            for s in body:
                if isinstance(s, ast.Pass):
                    continue
                if isinstance(s, ast.Assign):
                    if not expr_ok(s.value):
                        return False
                    for t in s.targets:
                        if not tgt(t):
                            return False
                elif isinstance(s, ast.AugAssign):
                    if not expr_ok(s.value) or not tgt(s.target):
                        return False
                elif isinstance(s, ast.Expr):
                    if not expr_ok(s.value):
                        return False
                elif isinstance(s, ast.If):
                    if not expr_ok(s.test) or not walk(s.body) or not walk(s.orelse):
                        return False
                else:
                    return False
            return True

        def tgt(t):
            if isinstance(t, ast.Name):
                if t.id in self.globs:
                    return False
                names.add(t.id)
                return True
            if isinstance(t, (ast.Tuple, ast.List)):
                return all(tgt(e) for e in t.elts)
            return isinstance(t, (ast.Subscript, ast.Attribute))
        if has_bad(node.test) or not walk(node.body) or not walk(node.orelse):
            return None
        if len(names) > 12:
            return None
        return names


def instrument(source, filename, modname, attr_hooks=False, merge=True):
    tree = ast.parse(source, filename)
    tree = Instrumenter(modname, attr_hooks, merge).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
