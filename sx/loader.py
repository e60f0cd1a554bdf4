"""Import netomaton from /repo's working tree with call-site hooks, for symbolic execution.

The source is read and parsed on every run.  The only rewriting: calls of the builtins str/int/float/bool/bin/type/ord/
repr/round/sum/print/hash/format and of .join, .format and "..." % go through sx.env (which falls through to the builtin for concrete arguments), imports
of numpy/math/random/msgpack bind the stand-ins of sx.env, "is" between values other than None knows
about CPython's cache of small integers, f-strings become concatenations, and the messages of raise and
assert are evaluated in a mode in which a symbolic value prints as a placeholder.  Control flow, data structures and
arithmetic are executed as written.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
CALLS = {"str", "int", "float", "bool", "bin", "type", "ord", "repr", "round", "sum", "print", "hash", "format", "ascii"}
SHIMMED = {"numpy", "math", "random", "msgpack"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Rewrite(ast.NodeTransformer):
    def __init__(self, shadowed):
        self.shadowed = shadowed

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in CALLS and f.id not in self.shadowed:
            if f.id == "super":
                return node
            node.func = _name("__sx_" + f.id + "__")
        elif isinstance(f, ast.Name) and f.id == "map" and node.args and isinstance(node.args[0], ast.Name) \
                and node.args[0].id in CALLS and node.args[0].id not in self.shadowed:
            node.args[0] = _name("__sx_" + node.args[0].id + "__")
        elif isinstance(f, ast.Attribute) and f.attr == "join" and len(node.args) == 1 and not node.keywords:
            return ast.copy_location(ast.Call(func=_name("__sx_join__"), args=[f.value, node.args[0]], keywords=[]), node)
        elif isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            node.args = [f.value] + node.args
            node.func = _name("__sx_template__")
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=_name("__sx_percent__"), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and not any(
                isinstance(x, ast.Constant) and x.value is None for x in (node.left, node.comparators[0])):
            call = ast.Call(func=_name("__sx_is__"), args=[node.left, node.comparators[0]], keywords=[])
            return ast.copy_location(call if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(op=ast.Not(), operand=call), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for p in node.values:
            if isinstance(p, ast.FormattedValue):
                value = p.value
                if p.conversion != -1:
                    value = ast.Call(func=_name("__sx_%s__" % {115: "str", 114: "repr", 97: "ascii"}[p.conversion]), args=[value], keywords=[])
                args = [value] if p.format_spec is None else [value, p.format_spec]
                parts.append(ast.Call(func=_name("__sx_format__"), args=args, keywords=[]))
            else:
                parts.append(p)
        return ast.copy_location(ast.Call(func=_name("__sx_join__"), keywords=[], args=[
            ast.Constant(""), ast.List(elts=parts, ctx=ast.Load())]), node)

    def _quiet(self, e):
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        return ast.copy_location(ast.Call(func=_name("__sx_quiet__"), args=[lam], keywords=[]), e)

    def visit_Raise(self, node):
        self.generic_visit(node)
        if isinstance(node.exc, ast.Call):
            node.exc = self._quiet(node.exc)
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        if node.msg is not None:
            node.msg = self._quiet(node.msg)
        return node

    def visit_Import(self, node):
        keep, extra = [], []
        for a in node.names:
            if a.name in SHIMMED:
                extra.append(ast.Assign(targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
                                        value=ast.Call(func=_name("__sx_import__"), args=[ast.Constant(a.name)],
                                                       keywords=[])))
            else:
                keep.append(a)
        out = []
        if keep:
            node.names = keep
            out.append(node)
        return [ast.copy_location(x, node) for x in out + extra]

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in SHIMMED and not any(a.name == "*" for a in node.names):
            return [ast.copy_location(ast.Assign(
                targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
                value=ast.Attribute(value=ast.Call(func=_name("__sx_import__"), args=[ast.Constant(node.module)],
                                                   keywords=[]), attr=a.name, ctx=ast.Load())), node)
                for a in node.names]
        return node


def _hooks():
    import builtins
    from . import env
    d = {"__sx_join__": env.sx_join, "__sx_template__": env.sx_template, "__sx_percent__": env.sx_percent,
          "__sx_quiet__": env.sx_quiet, "__sx_is__": env.sx_is, "__sx_import__": env.sx_import}
    for n in CALLS:
        if n == "print":
            d["__sx_print__"] = lambda *a, **k: None
        else:
            def mk(n, real):
                return lambda *a, **k: env.sx_call(n, real, a, k)
            d["__sx_" + n + "__"] = mk(n, getattr(builtins, n))
    return d


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        shadowed = {t.id for t in ast.walk(tree) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} | \
                   {a.arg for a in ast.walk(tree) if isinstance(a, ast.arg)} | \
                   {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        tree = ast.fix_missing_locations(Rewrite(shadowed & CALLS).visit(tree))
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__.update(_hooks())
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "netomaton" and not name.startswith("netomaton."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p), submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p))
        return None


def load_symbolic():
    import warnings
    warnings.simplefilter("ignore")
    import matplotlib
    matplotlib.use("Agg")
    sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True
    import netomaton
    return netomaton


def load_plain():
    """The unhooked code, from the same working tree."""
    import warnings
    warnings.simplefilter("ignore")
    import matplotlib
    matplotlib.use("Agg")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import netomaton
    assert os.path.realpath(netomaton.__file__).startswith(os.path.realpath(REPO)), netomaton.__file__
    return netomaton
