"""Loads the modules of wulfric from /repo's current source text for symbolic execution.

Every function body is the one in the repository; the only syntactic change is that loops and
comprehensions call hooks (so that iteration over a symbolic sequence can be summarised or cut by
an invariant; over ordinary iterables the hooks just iterate) and that `x in y`, `not x`,
f-strings etc. stay as they are.  Names numpy, math, spglib and some builtins are bound to the
stand-ins of npshim.
"""

import ast
import builtins
import hashlib
import os
import sys
import types

from . import npshim
from .sym import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.join(REPO, "src")


class Hooks(ast.NodeTransformer):
    """for/while loops and comprehensions -> hook calls"""

    def __init__(self):
        self.n = 0
        self.fn = ["<module>"]
        self.in_class = 0

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.counts = getattr(self, "counts", {})
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_Global(self, node):
        return node

    @staticmethod
    def _assigned(body):
        names, mutated = set(), set()

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

            def visit_FunctionDef(s, n):
                names.add(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                s.visit(n.generators[0].iter)

            visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        for b in body:
            V().visit(b)
        return sorted(n for n in names if not n.startswith("__vc"))

    def visit_For(self, node):
        self.generic_visit(node)
        if self.fn[-1] == "<module>":
            return node
        self.n += 1
        v = f"__vcl{self.n}"
        assigned = sorted(set(self._assigned(node.body)) | set(self._assigned([node.target])))
        return self._loop(node, v, assigned, node.iter, node.target)

    def _loop(self, node, v, assigned, it, target):
        fn = self.fn[-1]
        new = []
        src = (
            f"{v} = __vc_loop__({fn!r}, {node.lineno}, {assigned!r})\n"
        )
        pre = ast.parse(src).body[0]
        if it is not None:
            pre.value.args.append(it)
        stores = any(isinstance(m, (ast.Subscript, ast.Attribute)) and not isinstance(m.ctx, ast.Load) for b in node.body for m in ast.walk(b))
        pre.value.keywords.append(ast.keyword(arg="stores", value=ast.Constant(value=stores)))
        new.append(pre)
        # while v.more(locals): rebind; target = v.item(); body
        head = []
        head.append(ast.parse(f"{v}.enter(locals())").body[0])
        for name in assigned:
            head.append(
                ast.parse(f"if {v}.rebinds({name!r}):\n    {name} = {v}.value({name!r})\nelif {v}.unbinds({name!r}):\n    del {name}").body[0]
            )
        loop = ast.parse(f"while {v}.more():\n    pass\n").body[0]
        if it is not None:
            asg = ast.Assign(targets=[target], value=ast.parse(f"{v}.item()", mode="eval").body)
            body = [asg] + node.body
            test = None
        else:
            # condition evaluated after the rebinding of variables
            brk = ast.parse(f"if not {v}.test(None):\n    {v}.exhausted()\n    break").body[0]
            if any(isinstance(m, (ast.NamedExpr, ast.Await, ast.Yield)) for m in ast.walk(node.test)):
                brk.test.operand.args[0] = node.test
            else:
                brk.test.operand.args[0] = ast.parse("lambda: 0", mode="eval").body
                brk.test.operand.args[0].body = node.test
            again = [ast.parse(f"if {v}.rebinds_after_test({name!r}):\n    {name} = {v}.value({name!r})").body[0] for name in assigned]
            body = [brk] + again + node.body
        loop.body = body
        orelse = node.orelse
        # structure:  while True: enter; rebind; if not more(): exhausted; break ; body
        wh = ast.parse("while True:\n    pass").body[0]
        stop = ast.parse(f"if not {v}.more():\n    {v}.exhausted()\n    break").body[0]
        wh.body = head + [stop] + body
        tr = ast.parse(f"try:\n    pass\nfinally:\n    {v}.leave()").body[0]
        tr.body = [wh]
        new.append(tr)
        after = []
        for name in assigned:
            after.append(
                ast.parse(f"if {v}.after_rebinds({name!r}):\n    {name} = {v}.after_value({name!r})").body[0]
            )
        new += after
        if orelse:
            els = ast.parse(f"if {v}.was_exhausted():\n    pass").body[0]
            els.body = orelse
            new.append(els)
        for n in new:
            for m in ast.walk(n):
                if not hasattr(m, "lineno"):
                    continue
                if m is n or True:
                    pass
            ast.copy_location(n, node)
        out = []
        for n in new:
            _fix(n, node)
            out.append(n)
        return out

    def visit_While(self, node):
        self.generic_visit(node)
        if self.fn[-1] == "<module>":
            return node
        self.n += 1
        v = f"__vcl{self.n}"
        assigned = self._assigned(node.body)
        return self._loop(node, v, assigned, None, None)

    def _comp(self, node, kind, elts):
        self.generic_visit(node)
        elts = [getattr(node, name) for name in elts]
        if self.fn[-1] == "<module>" or len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        # __vc_comp__(kind, iter, lambda-ish)
        args = ast.arguments(
            posonlyargs=[], args=[ast.arg(arg="__vc_item")], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]
        )
        if not isinstance(g.target, ast.Name):
            # [e for a, b in it] : keep the comprehension inside a helper over one-element lists
            def one(expr, ifs):
                gen = ast.comprehension(
                    target=g.target,
                    iter=ast.List(elts=[ast.Name(id="__vc_item", ctx=ast.Load())], ctx=ast.Load()),
                    ifs=ifs,
                    is_async=0,
                )
                return ast.Subscript(
                    value=ast.ListComp(elt=expr, generators=[gen]), slice=ast.Constant(value=0), ctx=ast.Load()
                )
        else:
            def one(expr, ifs):
                a = ast.arguments(
                    posonlyargs=[], args=[ast.arg(arg=g.target.id)], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]
                )
                return ast.Call(
                    func=ast.Lambda(args=a, body=expr), args=[ast.Name(id="__vc_item", ctx=ast.Load())], keywords=[]
                )

        elt = ast.Tuple(elts=elts, ctx=ast.Load()) if kind == "dict" else elts[0]
        cond = None
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
        call = ast.Call(
            func=ast.Name(id="__vc_comp__", ctx=ast.Load()),
            args=[
                ast.Constant(value=kind),
                g.iter,
                ast.Lambda(args=args, body=one(elt, [])),
                ast.Lambda(args=args, body=one(cond, [])) if cond is not None else ast.Constant(value=None),
            ],
            keywords=[],
        )
        _fix(call, node)
        return call

    def visit_ListComp(self, node):
        return self._comp(node, "list", ["elt"])

    # [a, b] : a list that a symbolic loop may fill
    def visit_List(self, node):
        self.generic_visit(node)
        if self.fn[-1] == "<module>" or not isinstance(node.ctx, ast.Load):
            return node
        call = ast.Call(func=ast.Name(id="__vc_list__", ctx=ast.Load()), args=[node], keywords=[])
        _fix(call, node)
        return call

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.fn[-1] == "<module>":
            return node
        call = ast.Call(func=ast.Name(id="__vc_dict__", ctx=ast.Load()), args=[node], keywords=[])
        _fix(call, node)
        return call

    # f"{a}{b}" of symbolic strings
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if self.fn[-1] == "<module>":
            return node
        if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec is not None) for v in node.values):
            return node
        args = [v if isinstance(v, ast.Constant) else v.value for v in node.values]
        call = ast.Call(func=ast.Name(id="__vc_fmt__", ctx=ast.Load()), args=args, keywords=[])
        _fix(call, node)
        return call

    # sep.join(parts) of symbolic texts
    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn[-1] == "<module>" or node.keywords or len(node.args) != 1 or isinstance(node.args[0], ast.Starred):
            return node
        if isinstance(node.func, ast.Name) and node.func.id == "str":
            node.func.id = "__vc_str__"
            return node
        if not (isinstance(node.func, ast.Attribute) and node.func.attr == "join"):
            return node
        call = ast.Call(func=ast.Name(id="__vc_join__", ctx=ast.Load()), args=[node.func.value, node.args[0]], keywords=[])
        _fix(call, node)
        return call

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen", ["elt"])

    def visit_SetComp(self, node):
        return self._comp(node, "set", ["elt"])

    def visit_DictComp(self, node):
        return self._comp(node, "dict", ["key", "value"])

    # if cond: message += "..."   (no case split on the text of a message)
    def visit_If(self, node):
        b = node.body[0]
        if self.fn[-1] == "<module>" or node.orelse or len(node.body) != 1 or not isinstance(b, ast.AugAssign):
            self.generic_visit(node)
            return node
        node.test = self.visit(node.test)
        node.body = [b]
        if (
            isinstance(b, ast.AugAssign)
            and isinstance(b.op, ast.Add)
            and isinstance(b.target, ast.Name)
            and (isinstance(b.value, ast.JoinedStr) or (isinstance(b.value, ast.Constant) and isinstance(b.value.value, str)))
        ):
            v = b.target.id
            new = ast.Assign(
                targets=[ast.Name(id=v, ctx=ast.Store())],
                value=ast.Call(
                    func=ast.Name(id="__vc_strif__", ctx=ast.Load()),
                    args=[
                        node.test,
                        ast.Name(id=v, ctx=ast.Load()),
                        ast.Lambda(
                            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b.value
                        ),
                    ],
                    keywords=[],
                ),
            )
            _fix(new, node)
            return new
        node.body = [self.visit(b)]
        return node

    # x op= y : numpy arrays do not hand over to symbolic operands in place
    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.fn[-1] == "<module>":
            return node
        import copy

        load = copy.deepcopy(node.target)
        for m in ast.walk(load):
            if isinstance(m, (ast.Name, ast.Subscript, ast.Attribute)) and isinstance(m.ctx, ast.Store):
                m.ctx = ast.Load()
        new = ast.Assign(
            targets=[node.target],
            value=ast.Call(
                func=ast.Name(id="__vc_iop__", ctx=ast.Load()),
                args=[ast.Constant(value=type(node.op).__name__), load, node.value],
                keywords=[],
            ),
        )
        _fix(new, node)
        return new

    # not x  on symbolic conditions does not split
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not) and self.fn[-1] != "<module>":
            new = ast.Call(func=ast.Name(id="__vc_not__", ctx=ast.Load()), args=[node.operand], keywords=[])
            _fix(new, node)
            return new
        return node

    # `a in b`, `not a` on symbolic operands
    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.fn[-1] == "<module>":
            return node
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = "__vc_in__" if isinstance(node.ops[0], ast.In) else "__vc_notin__"
            call = ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
            _fix(call, node)
            return call
        return node


def _fix(n, ref):
    for m in ast.walk(n):
        if isinstance(m, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.excepthandler)) and not hasattr(m, "lineno"):
            ast.copy_location(m, ref)
    ast.fix_missing_locations(n)


def mark_generated(tree):
    return tree


class Loader:
    def __init__(self, hooks=None):
        self.modules = {}
        self.stubs = {}
        self.hooks = hooks
        self.sources = {}
        self.spglib = None
        self.scipy = None
        self.builtins = {}  # e.g. open

    def stub(self, qualname, fn):
        """replace a function by its contract; qualname = 'wulfric.cell._niggli.get_niggli'"""
        mod, name = qualname.rsplit(".", 1)
        cur = self.__dict__.setdefault("current", {})
        if qualname not in cur:
            if mod in self.modules:
                raise Unsupported(f"module {mod} was loaded before its function {name} was replaced by a contract")

            def contract(*a, **k):
                return cur[qualname](*a, **k)

            contract.__name__ = name
            self.stubs.setdefault(mod, {})[name] = contract
        cur[qualname] = fn  # the paths of a harness share the modules, not the contracts

    # ------------------------------------------------------------------ modules
    def path(self, name):
        base = os.path.join(ROOT, *name.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            return (p, True) if os.path.exists(p) else (None, True)
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        m = types.ModuleType(name)
        self.modules[name] = m
        p, pkg = self.path(name)
        if p is None and not pkg:
            del self.modules[name]
            raise ImportError(f"No module named {name}")
        m.__file__ = p
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(p)] if p else []
        if name == "wulfric":
            # the top-level package re-exports everything (also plotly); attributes on demand
            m.__getattr__ = lambda k: self._top(k)
            return m
        src = open(p, encoding="utf-8").read()
        self.sources[os.path.relpath(p, REPO)] = hashlib.sha256(src.encode()).hexdigest()
        tree = ast.parse(src, p)
        if "/constants/" not in p:
            tree = Hooks().visit(tree)
            ast.fix_missing_locations(tree)
        code = compile(tree, p, "exec")
        g = m.__dict__
        b = dict(builtins.__dict__)
        b.update(npshim.BUILTINS)
        b["__import__"] = self._import
        from . import seq

        b["__vc_loop__"] = seq.make_loop
        b["__vc_comp__"] = seq.comprehension
        b["__vc_iop__"] = seq.iop
        b["__vc_strif__"] = seq.strif
        b["__vc_not__"] = seq.s_not
        b["__vc_list__"] = seq.new_list
        b["__vc_dict__"] = seq.new_dict
        b["dict"] = seq.GDict
        b.update(self.builtins)
        b["__vc_fmt__"] = seq.fmt
        b["__vc_str__"] = seq.to_str
        b["__vc_join__"] = seq.join
        b["__vc_in__"] = seq.contains
        b["__vc_notin__"] = seq.not_contains
        g["__builtins__"] = b
        try:
            exec(code, g)
        except BaseException:
            self.modules.pop(name, None)
            raise
        for k, f in self.stubs.get(name, {}).items():
            if k not in g:
                raise Unsupported(f"function under contract not found: {name}.{k}")
            g["__real_" + k] = g[k]
            g[k] = f
        return m

    def _top(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        for mod in ("_exceptions", "_numerical", "_spglib_interface", "_syntactic_sugar", "_kpoints_class"):
            mm = self.load("wulfric." + mod)
            if hasattr(mm, k):
                return getattr(mm, k)
        try:
            return self.load("wulfric." + k)
        except ImportError:
            raise AttributeError(k)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[: len(pkg) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == "wulfric":
            if not fromlist:
                self.load(name)
                return self.load("wulfric")
            m = self.load(name)
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        setattr(m, f, self.load(name + "." + f))
                    except ImportError:
                        pass
            return m
        if name == "numpy":
            return npshim.as_module("numpy", npshim.np)
        if name == "numpy.linalg":
            return npshim.as_module("numpy", npshim.np) if not fromlist else npshim.as_module("numpy.linalg", npshim.np.linalg)
        if name == "math":
            return npshim.as_module("math", npshim.math)
        if top == "spglib":
            if self.spglib is None:
                raise ImportError("spglib")
            return self.spglib
        if top == "scipy":
            if self.scipy is None:
                raise ImportError("scipy")
            return self.scipy
        if top in ("plotly", "matplotlib"):
            raise ImportError(top)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def get(self, qualname):
        mod, name = qualname.rsplit(".", 1)
        if mod.rsplit(".", 1)[-1][:1].isupper():  # a method or property of a class
            for c in self.get(mod).__mro__:
                if name in c.__dict__:
                    return c.__dict__[name]
            raise Unsupported(f"function under contract not found: {qualname}")
        m = self.load(mod)
        g = m.__dict__
        if "__real_" + name in g:
            return g["__real_" + name]
        if name not in g:
            raise Unsupported(f"function under contract not found: {qualname}")
        return g[name]
