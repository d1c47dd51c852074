"""Mechanical extraction of the real modules of /repo on every run.

Every module `clustertools.*` is read from /repo's working tree, parsed, rewritten by the rules
below and executed against the symbolic runtime.  Nothing of the text is replaced by hand.
Rewriting (all that differs from the source):
  * float literals -> exact decimal rationals; `/`, `**`, `%` -> helper calls (exact int division)
  * `for` loops / list comprehensions -> the same loop driven by vt.loops (concrete iterables run
    unchanged; symbolic ones go through the loop rule)
  * list displays -> VList (a list that knows about loop segments)
  * every `def` is wrapped so that a call can be answered by the callee's contract
  * bare `except:` -> `except Exception:` ; docstrings dropped ; classes get VTObj as base
  * imports of numpy/galpy/... -> contract models in vt.npmodel / vt.stubs
"""
import ast, sys, os, importlib.abc, importlib.machinery, builtins, types
from . import runtime as rt

REPO = os.environ.get("VT_REPO", "/repo")


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.loopn = 0
        self.inloop = [0]
        self.loopvars = []
        self.whilen = {}

    # names
    def vt(self, name):
        return ast.Attribute(value=ast.Name(id="_vt_", ctx=ast.Load()), attr=name, ctx=ast.Load())

    def call(self, name, *args):
        return ast.Call(func=self.vt(name), args=list(args), keywords=[])

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return self.call("F", ast.Constant(repr(n.value)))
        return n

    def visit_JoinedStr(self, n):
        return ast.Constant("<fstring>")

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return self.call("div", n.left, n.right)
        if isinstance(n.op, ast.Pow):
            return self.call("pow", n.left, n.right)
        if isinstance(n.op, ast.Mod):
            return self.call("mod", n.left, n.right)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self.call("isin", n.left, n.comparators[0])
            return ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.NotIn) else r
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            n.value = self.call("den", n.value)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return self.call("L", n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1:
            return n
        g = n.generators[0]
        tgt = g.target
        if isinstance(tgt, ast.Name):
            def lam(body):
                return ast.Lambda(args=_args([tgt.id]), body=body)
        elif isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
            def lam(body):
                inner = ast.Lambda(args=_args([e.id for e in tgt.elts]), body=body)
                return ast.Lambda(args=_args(["_vt_t"]), body=ast.Call(func=inner, args=[ast.Starred(ast.Name("_vt_t", ast.Load()), ast.Load())], keywords=[]))
        else:
            return n
        return self.call("lc", lam(n.elt), g.iter, ast.List(elts=[lam(c) for c in g.ifs], ctx=ast.Load()))

    def _enter_fn(self, n):
        self.stack.append(n.name)
        self.inloop.append(0)

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        q = ".".join(self.stack + [n.name])
        self.stack.append(n.name)
        sv, self.loopvars = self.loopvars, []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:] or [ast.Pass()]
        n.body = self._stmts(body)
        self.loopvars = sv
        self.stack.pop()
        n.decorator_list = [ast.Call(func=self.vt("fn"), args=[ast.Constant(self.mod + "." + q)], keywords=[])] + n.decorator_list
        return n

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out or [ast.Pass()]

    def visit_Lambda(self, n):
        sv, self.loopvars = self.loopvars, []
        self.generic_visit(n)
        self.loopvars = sv
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:] or [ast.Pass()]
        n.body = self._stmts(body)
        n.bases = [b for b in n.bases if not (isinstance(b, ast.Name) and b.id == "object")] or [self.vt("VTObj")]
        self.stack.pop()
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name(id="Exception", ctx=ast.Load())
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if self.loopvars:
            return [ast.Expr(self.call("ret", *[ast.Name(l, ast.Load()) for l, _ in self.loopvars if l])), n]
        return n

    def visit_Break(self, n):
        if self.loopvars and self.loopvars[-1][0]:
            l = self.loopvars[-1][0]
            return [ast.Expr(ast.Call(func=ast.Attribute(ast.Name(l, ast.Load()), "brk", ast.Load()), args=[], keywords=[])), n]
        return n

    def visit_Continue(self, n):
        if self.loopvars and self.loopvars[-1][0]:
            l, names = self.loopvars[-1]
            return self._tail(l, names) + [n]
        return n

    def _grab(self, names):
        return ast.Tuple(elts=[self.call("grab", ast.Lambda(args=_args([]), body=ast.Name(x, ast.Load()))) for x in names], ctx=ast.Load())

    def _tail(self, l, names):
        return [ast.If(test=ast.Attribute(ast.Name(l, ast.Load()), "sym", ast.Load()),
                       body=[ast.Expr(ast.Call(func=ast.Attribute(ast.Name(l, ast.Load()), "tail", ast.Load()),
                                               args=[self._grab(names)], keywords=[]))], orelse=[])]

    def visit_While(self, n):
        """while loops: unchanged, except that a loop with a registered invariant is cut at its head (vt.runtime.WLoop)"""
        if n.orelse:
            raise SyntaxError("while/else")
        fnq = ".".join(self.stack)
        self.whilen[fnq] = self.whilen.get(fnq, 0) + 1
        w = "_vl_w%d_%s" % (self.whilen[fnq], self.stack[-1] if self.stack else "")
        names = sorted(_assigned(n.body))
        self.loopvars.append((None, []))
        test = self.visit(n.test)
        body = self._stmts(n.body)
        self.loopvars.pop()
        where = "%s.%s#%d" % (self.mod, fnq, self.whilen[fnq])
        pre = ast.Assign(targets=[ast.Name(w, ast.Store())], value=self.call("WLoop", ast.Constant(where), ast.Tuple([ast.Constant(x) for x in names], ast.Load())))
        head = ast.If(test=ast.Attribute(ast.Name(w, ast.Load()), "sym", ast.Load()),
                      body=[ast.Assign(targets=[ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                                       value=ast.Call(func=ast.Attribute(ast.Name(w, ast.Load()), "head", ast.Load()),
                                                      args=[self._grab(names), ast.Call(func=ast.Name("locals", ast.Load()), args=[], keywords=[])], keywords=[]))],
                      orelse=[])
        brk = ast.If(test=ast.UnaryOp(ast.Not(), test), body=[ast.Break()], orelse=[])
        loop = ast.While(test=ast.Constant(True), body=[head, brk] + body, orelse=[])
        post = ast.Expr(ast.Call(func=ast.Attribute(ast.Name(w, ast.Load()), "leave", ast.Load()), args=[], keywords=[]))
        return [pre, loop, post]

    def visit_For(self, n):
        self.loopn += 1
        l = "_vl%d" % self.loopn
        names = sorted(_assigned(n.body) | _assigned_target(n.target))
        it = self.visit(n.iter)
        self.loopvars.append((l, names))
        body = self._stmts(n.body)
        self.loopvars.pop()
        orelse = self._stmts(n.orelse) if n.orelse else []
        where = "%s:%s#%d" % (self.mod, ".".join(self.stack), self.loopn)
        pre = ast.Assign(targets=[ast.Name(l, ast.Store())],
                         value=self.call("loop", it, ast.Constant(where), ast.Tuple([ast.Constant(x) for x in names], ast.Load()), self._grab(names)))
        tgt_names = _assigned_target(n.target)
        carried = [x for x in names]
        head = []
        hn = [x for x in names if x not in tgt_names]
        if hn:
            head = [ast.If(test=ast.Attribute(ast.Name(l, ast.Load()), "sym", ast.Load()),
                           body=[ast.Assign(targets=[ast.Tuple([ast.Name(x, ast.Store()) for x in hn], ast.Store())],
                                            value=ast.Call(func=ast.Attribute(ast.Name(l, ast.Load()), "head", ast.Load()),
                                                           args=[ast.Tuple([ast.Constant(x) for x in hn], ast.Load())], keywords=[]))],
                           orelse=[])]
        loop = ast.For(target=n.target, iter=ast.Name(l, ast.Load()), body=head + body + self._tail(l, names), orelse=orelse)
        post = []
        if names:
            post = [ast.If(test=ast.Attribute(ast.Name(l, ast.Load()), "sym", ast.Load()),
                           body=[ast.Assign(targets=[ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                                            value=ast.Call(func=ast.Attribute(ast.Name(l, ast.Load()), "exit", ast.Load()),
                                                           args=[self._grab(names)], keywords=[]))],
                           orelse=[])]
        return [pre, loop] + post


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _assigned_target(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def _assigned(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)
    for s in body:
        V().visit(s)
    return {x for x in out if not x.startswith("_vl")}


def transform(src, modname, path):
    tree = ast.parse(src, path)
    x = Xform(modname)
    body = tree.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        body = body[1:]
    tree.body = x._stmts(body)
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name == "clustertools" or name.startswith("clustertools."):
            rel = name.split(".")
            p = os.path.join(REPO, *rel)
            if os.path.isdir(p):
                f = os.path.join(p, "__init__.py")
                return importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
            f = p + ".py"
            if os.path.exists(f):
                return importlib.machinery.ModuleSpec(name, self, origin=f)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        f = mod.__spec__.origin
        with open(f) as fh:
            src = fh.read()
        tree = transform(src, mod.__name__, f)
        if mod.__spec__.submodule_search_locations is not None:
            mod.__path__ = [os.path.dirname(f)]
        mod.__dict__["_vt_"] = rt
        mod.__dict__["__builtins__"] = rt.BUILTINS
        rt.SOURCES[mod.__name__] = (f, src)
        exec(compile(tree, f, "exec"), mod.__dict__)


_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, Finder())
        _installed = True


def load():
    install()
    import clustertools
    return clustertools
