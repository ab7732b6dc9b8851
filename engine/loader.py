"""Loads theboss from /repo's working tree for symbolic execution.

The source text is parsed on every run; operators and literals that numpy/Python would
evaluate in floating point are redirected to exact symbolic arithmetic (engine.sym), and the
imports of numpy, scipy, math, random and the process pools resolve to engine.shims.
Nothing else of the code is rewritten."""
import ast
import builtins
import importlib
import os
import sys
import types

from . import shims

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGE = "theboss"
SITE = "/opt/venv/lib/python3.12/site-packages"


class Rewriter(ast.NodeTransformer):
    def _call(self, name, args, node):
        c = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[])
        return ast.copy_location(c, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = {ast.Div: "__eng_div__", ast.Pow: "__eng_pow__", ast.MatMult: "__eng_mm__"}.get(type(node.op))
        if n:
            return self._call(n, [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        n = {ast.Div: "__eng_idiv__", ast.Pow: "__eng_pow__", ast.MatMult: "__eng_mm__"}.get(type(node.op))
        if not n:
            return node
        load = _as_load(node.target)
        return ast.copy_location(
            ast.Assign(targets=[node.target], value=self._call(n, [load, node.value], node)), node)

    def visit_Constant(self, node):
        if type(node.value) is float:
            return self._call("__eng_f__", [ast.Constant(repr(node.value))], node)
        if type(node.value) is complex:
            return self._call("__eng_c__", [ast.Constant(repr(node.value.imag))], node)
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_JoinedStr(self, node):
        return node


def _as_load(t):
    src = ast.unparse(t)
    return ast.parse(src, mode="eval").body


_CODE = {}


def _source_path(name):
    base = os.path.join(REPO, *name.split("."))
    if os.path.isdir(base):
        p = os.path.join(base, "__init__.py")
        return (p if os.path.exists(p) else None), True
    p = base + ".py"
    if os.path.exists(p):
        return p, False
    return None, False


def _compiled(name):
    if name not in _CODE:
        path, is_pkg = _source_path(name)
        if path is None:
            if is_pkg:
                _CODE[name] = (None, True, None)
            else:
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        else:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(Rewriter().visit(tree))
            _CODE[name] = (compile(tree, path, "exec"), is_pkg, path)
    return _CODE[name]


def clear_code_cache():
    _CODE.clear()


class Program:
    """one fresh copy of the package's modules"""

    def __init__(self):
        self.mods = {}
        self.shims = shims.make_modules()
        self.builtins = shims.make_builtins(self._import)

    # -- import machinery
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: len(parts) - (level - 1)]
            name = ".".join(parts + ([name] if name else []))
        if name == PACKAGE or name.startswith(PACKAGE + "."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(name.split(".")[0])
        if name in self.shims:
            m = self.shims[name]
            if fromlist:
                return m
            return self.shims[name.split(".")[0]]
        root = name.split(".")[0]
        if name.startswith(("numpy._core", "numpy.core.", "numpy._globals", "numpy.exceptions")):
            return __import__(name, globals, locals, fromlist, level)    # numpy importing its own parts
        if root in ("numpy", "scipy"):
            raise shims.Unsupported(f"import of {name}")
        if root in ("guancodes",) and SITE not in sys.path:
            sys.path.append(SITE)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent, _, tail = name.rpartition(".")
        if parent:
            p = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        code, is_pkg, path = _compiled(name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        m.__package__ = name if is_pkg else parent
        if is_pkg:
            m.__path__ = [os.path.join(REPO, *name.split("."))]
        self.mods[name] = m
        # dataclasses and typing look modules up in sys.modules
        saved = sys.modules.get(name)
        sys.modules[name] = m
        try:
            if code is not None:
                exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        finally:
            if saved is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = saved
        if parent:
            setattr(self.mods[parent], tail, m)
        return m

    def __getitem__(self, dotted):
        """'boson_sampling_utilities.boson_sampling_utilities' -> module"""
        return self.load(PACKAGE + "." + dotted)


def loaded_functions():
    """names of code objects compiled from /repo in this run (for evidence)"""
    out = []
    for name, (code, _, path) in sorted(_CODE.items()):
        if code is None:
            continue
        out.append(name)
    return out
