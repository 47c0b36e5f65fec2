"""Import hook: loads hyperstatic.* from /repo's current source, instrumented.

The transformation keeps the program text and replaces only
  * decimal float literals by exact rationals, `/` and `%` by helpers that keep integers exact,
  * list / dict displays and builtins (list, dict, len, max, sum, range, ...) by subclasses that
    also admit symbolic contents,
  * `for` loops and one-generator comprehensions: the same body, with hooks that are active only
    when the iterated collection is symbolic,
  * imports of numpy / scipy / quadpy / the compiled shell kernels by their assumed contracts.
Everything else is compiled and executed by CPython as written."""
import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import rtlib, shim_np, shim_sp
from .sym import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
LOADED = {}
STUBS = {}          # module name -> module object replacing a repository / third party module


class Namespace(types.ModuleType):
    def __init__(self, name, d=None, fallback=None):
        super().__init__(name)
        self.__dict__.update(d or {})
        self._fb = fallback

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        fb = self.__dict__.get("_fb")
        if fb is not None:
            return getattr(fb, n)
        raise Unsupported(f"{self.__name__}.{n}")


def _shims():
    la = Namespace("scipy.linalg", {}, shim_sp.linalg)
    sp = Namespace("scipy", {"sparse": shim_sp.spr, "linalg": la})
    sparse = Namespace("scipy.sparse", {"linalg": shim_sp.sl}, shim_sp.spr)
    return {
        "numpy": shim_np,
        "scipy": sp,
        "scipy.sparse": sparse,
        "scipy.sparse.linalg": Namespace("scipy.sparse.linalg", {}, shim_sp.sl),
        "scipy.interpolate": Namespace("scipy.interpolate"),
        "scipy.linalg": la,
        "scipy.spatial.transform": Namespace("scipy.spatial.transform", {"Rotation": shim_sp.Rotation}),
        "matplotlib": Namespace("matplotlib", {"pyplot": Namespace("pyplot", {"rcParams": {}})}),
        "sympy": Namespace("sympy", {"re": None}),
        "quadpy": Namespace("quadpy"),
        "os": GhostOs("os"),
        "pickle": GhostPickle("pickle"),
        "shutil": GhostShutil("shutil"),
    }


GHOSTED = ("scipy", "numpy", "matplotlib", "sympy", "quadpy", "os", "pickle", "shutil", "subprocess", "tempfile", "pathlib", "glob", "socket", "ctypes", "io", "dill", "joblib")


class Missing:
    """an import without an assumed contract: any use leaves the obligation undecided"""
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __call__(self, *a, **k):
        raise Unsupported(self._n)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self._n}.{n}")


def vc_from(m, n):
    try:
        return getattr(vc_import(m, True), n)
    except (Unsupported, AttributeError):
        if m + "." + n in SHIMS:
            return SHIMS[m + "." + n]
        return Missing(m + "." + n)


class GhostPath(types.ModuleType):
    def __init__(self):
        super().__init__("path")
        for n in ("join", "basename", "dirname", "splitext", "normpath", "sep", "abspath", "realpath", "split"):
            setattr(self, n, getattr(os.path, n))

    def exists(self, p):
        return p in shim_np.FS

    def isfile(self, p):
        return p in shim_np.FS and not self.isdir(p)

    def isdir(self, p):
        v = shim_np.FS.get(p)
        return isinstance(v, str) and v == "<dir>"


class GhostOs(types.ModuleType):
    """os over the ghost file system: no effect on the real one"""
    def __init__(self, n):
        super().__init__(n)
        self.path = GhostPath()
        self.sep = "/"
        self.curdir = "."
        self.environ = {}

    def getcwd(self):
        return "/ghost"

    def mkdir(self, p, *a):
        if p in shim_np.FS:
            raise FileExistsError(p)
        shim_np.FS[p] = "<dir>"

    def makedirs(self, p, exist_ok=False, **k):
        if p in shim_np.FS and not exist_ok:
            raise FileExistsError(p)
        shim_np.FS[p] = "<dir>"

    def remove(self, p):
        if p not in shim_np.FS:
            raise FileNotFoundError(p)
        if shim_np.FS[p] == "<dir>":
            raise IsADirectoryError(p)
        del shim_np.FS[p]

    unlink = remove

    def rmdir(self, p):
        if shim_np.FS.get(p) != "<dir>":
            raise FileNotFoundError(p)
        if _under(p):
            raise OSError("Directory not empty: " + p)
        del shim_np.FS[p]

    def listdir(self, p="."):
        if shim_np.FS.get(p) != "<dir>":
            raise FileNotFoundError(p)
        n = len(p.rstrip("/")) + 1
        return [k[n:] for k in _under(p) if "/" not in k[n:]]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("os." + n)


def _under(p):
    return [k for k in shim_np.FS if isinstance(k, str) and k.startswith(p.rstrip("/") + "/")]


class GhostShutil(types.ModuleType):
    def rmtree(self, p, ignore_errors=False, onerror=None, **k):
        if shim_np.FS.get(p) != "<dir>":
            if ignore_errors:
                return
            raise FileNotFoundError(p)
        for q in _under(p) + [p]:
            del shim_np.FS[q]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("shutil." + n)


class GhostFile:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        return None


def ghost_open(path, mode="r", *a, **k):
    if "r" in mode and path not in shim_np.FS:
        raise FileNotFoundError(path)
    return GhostFile(path, mode)


class GhostPickle(types.ModuleType):
    """what is stored and what is restored are copies: later changes of one object do not reach the others"""
    def dump(self, obj, f, *a):
        shim_np.FS[f.path] = copy.deepcopy(obj)

    def load(self, f, *a):
        return copy.deepcopy(shim_np.FS[f.path])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("pickle." + n)


SHIMS = _shims()


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_vc_", ast.Load()), name, ast.Load()), args, []), node)

    def visit_Constant(self, node):
        if isinstance(node.value, float) and not isinstance(node.value, bool):
            return self._call("_c", [ast.Constant(repr(node.value))], node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return self._call("_div", [node.left, node.right], node)
        if isinstance(node.op, ast.Mod):
            return self._call("_mod", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([node.target], self._call("_div", [ast.Name(node.target.id, ast.Load()), node.value], node)), node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._call("vlist_of", [ast.copy_location(ast.List(node.elts, ast.Load()), node)], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_vc_", ast.Load()), "SDict", ast.Load()), [node], []), node)

    # annotations are not executed code of interest
    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        self.generic_visit(node)
        return node

    def visit_ListComp(self, node):
        simple = len(node.generators) == 1 and not node.generators[0].is_async and not _has_super(node)
        self.generic_visit(node)
        if not simple:
            return ast.copy_location(self._call("vlist_of", [node], node), node)
        return self._comp(node, "vcomp", [node.elt])

    def visit_GeneratorExp(self, node):
        simple = len(node.generators) == 1 and not _has_super(node)
        self.generic_visit(node)
        if not simple:
            return node
        return self._comp(node, "vcomp", [node.elt])

    def visit_DictComp(self, node):
        simple = len(node.generators) == 1 and not _has_super(node)
        self.generic_visit(node)
        if not simple:
            return node
        return self._comp(node, "vdictcomp", [node.key, node.value])

    def _comp(self, node, helper, exprs):
        g = node.generators[0]

        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
            # tuple target: lambda t: (lambda (a, b): body)(*t)
            names = _target_names(g.target)
            if names is None:
                return None
            inner = ast.Lambda(ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body)
            return ast.Lambda(ast.arguments([], [ast.arg("_vc_t")], None, [], [], None, []),
                              ast.Call(inner, [ast.Starred(ast.Name("_vc_t", ast.Load()), ast.Load())], []))
        fs = [lam(e) for e in exprs]
        if any(f is None for f in fs):
            return node
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = lam(c)
        else:
            cond = ast.Constant(None)
        return self._call(helper, fs + [g.iter, cond], node)

    def visit_If(self, node):
        def ok(st):
            if isinstance(st, ast.Assign):
                return len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)
            return isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "append" and isinstance(st.value.func.value, ast.Name)
        simple = not node.orelse and all(ok(s) for s in node.body) and any(isinstance(s, ast.Expr) for s in node.body)
        names = [s.targets[0].id for s in node.body if isinstance(s, ast.Assign)] if simple else []
        self.generic_visit(node)
        if not simple:
            return node
        self.n += 1
        g = f"_vc_g{self.n}"
        ld = lambda: ast.Name(g, ast.Load())
        call = lambda f: ast.Call(ast.Attribute(ast.Name("_vc_", ast.Load()), f, ast.Load()), [ld()], [])
        after = [ast.Assign([ast.Name(n, ast.Store())], self._call("poison", [ast.Constant(n)], node)) for n in names]
        out = [ast.Assign([ast.Name(g, ast.Store())], self._call("guard", [node.test], node)),
               ast.If(ld(), [ast.Try(node.body, [], [], [ast.Expr(call("unguard"))])] + ([ast.If(call("isguard"), after, [])] if after else []), [])]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_For(self, node):
        info = _LoopInfo(node)
        raw_body_ok = not info.bad
        self.generic_visit(node)
        self.n += 1
        it = f"_vc_it{self.n}"
        L = f"_vc_L{self.n}"
        ld = lambda n: ast.Name(n, ast.Load())
        plain = ast.For(node.target, ld(it), node.body, node.orelse)
        if not raw_body_ok:
            symbolic = [ast.Raise(self._call("Unsupported", [ast.Constant(info.bad + " in a symbolic loop")], node), None)]
        else:
            import copy
            names = sorted(info.stored | info.mutated)
            attrs = sorted(info.attrs)
            exprs = [ld(n) for n in names] + [ast.Attribute(ld(a), b, ast.Load()) for a, b in attrs]
            tgts = [ast.Name(n, ast.Store()) for n in names] + [ast.Attribute(ld(a), b, ast.Store()) for a, b in attrs]
            labels = names + [f"{a}.{b}" for a, b in attrs]
            pre = []
            for n in sorted(set(names)):
                pre.append(ast.Try([ast.Expr(ld(n))],
                                   [ast.ExceptHandler(ast.Name("NameError", ast.Load()), None,
                                                      [ast.Assign([ast.Name(n, ast.Store())], ast.Attribute(ld("_vc_"), "UNBOUND", ast.Load()))])], [], []))
            lab = ast.Tuple([ast.Constant(x) for x in labels], ast.Load())
            cap = ast.Tuple(exprs, ast.Load())
            enter = ast.Call(ast.Attribute(ld(L), "enter", ast.Load()), [lab, cap, ast.Tuple([], ast.Load())], [])
            body = []
            if tgts:
                body.append(ast.Assign([ast.Tuple(copy.deepcopy(tgts), ast.Store())], enter))
            else:
                body.append(ast.Expr(enter))
            leave = ast.Expr(ast.Call(ast.Attribute(ld(L), "leave", ast.Load()), [copy.deepcopy(cap)], []))
            ex = "_vc_e"
            body.append(ast.Try(copy.deepcopy(node.body),
                                [ast.ExceptHandler(ast.Name("BaseException", ast.Load()), ex,
                                                   [ast.Expr(ast.Call(ast.Attribute(ld(L), "abort", ast.Load()), [ld(ex)], [])), ast.Raise(None, None)])],
                                [], [leave]))
            loop = ast.For(copy.deepcopy(node.target), ld(L), body, copy.deepcopy(node.orelse))
            symbolic = pre + [ast.Assign([ast.Name(L, ast.Store())], self._call("loop", [ld(it), ast.Constant(f"line {node.lineno}")], node)), loop]
            if tgts:
                symbolic.append(ast.Assign([ast.Tuple(copy.deepcopy(tgts), ast.Store())],
                                           ast.Call(ast.Attribute(ld(L), "result", ast.Load()), [lab, copy.deepcopy(cap)], [])))
        out = [ast.Assign([ast.Name(it, ast.Store())], node.iter),
               ast.If(self._call("symbolic", [ld(it)], node), symbolic, [plain])]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out


def _has_super(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and n.id in ("super", "__class__"):
            return True
        if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield)):
            return True
    return False


def _target_names(t):
    if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
        return [e.id for e in t.elts]
    return None


class _LoopInfo:
    """names stored / arrays updated by a loop body; constructs that cannot be summarised"""

    def __init__(self, node):
        self.stored, self.mutated, self.attrs, self.bad = set(), set(), set(), ""
        self.targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        for st in node.body:
            self.visit(st, 0)
        self.stored -= self.targets

    def visit(self, n, depth):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                self.stored.add(n.name)
            return
        if isinstance(n, ast.Return):
            self.bad = "return"
        if isinstance(n, ast.Break) and depth == 0:
            self.bad = "break"
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Delete)):
            self.bad = type(n).__name__
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if not isinstance(n, ast.With) else [i.optional_vars for i in n.items if i.optional_vars]
            for t in ts:
                self.target(t, isinstance(n, ast.AugAssign))
        d2 = depth + 1 if isinstance(n, (ast.For, ast.While)) else depth
        for c in ast.iter_child_nodes(n):
            self.visit(c, d2)

    def target(self, t, aug):
        if isinstance(t, ast.Name):
            self.stored.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.target(e, aug)
        elif isinstance(t, ast.Starred):
            self.target(t.value, aug)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name):
                self.attrs.add((t.value.id, t.attr))
            else:
                self.bad = "attribute store"
        elif isinstance(t, ast.Subscript):
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                self.mutated.add(b.id)
            elif isinstance(b, ast.Attribute):
                pass          # self.__d[k] = v : SDict tracks its own updates; arrays are checked at run time
            else:
                self.bad = "subscript store"


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name in STUBS:
            return importlib.machinery.ModuleSpec(name, self, is_package=hasattr(STUBS[name], "__path__"))
        if name == "hyperstatic" or name.startswith("hyperstatic."):
            base = os.path.join(REPO, *name.split("."))
            for fn, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
                if os.path.isfile(fn):
                    sp = importlib.machinery.ModuleSpec(name, self, origin=fn, is_package=pkg)
                    sp._vc_file = fn
                    if pkg:
                        sp.submodule_search_locations = [base]
                    return sp
            if os.path.isdir(base):
                sp = importlib.machinery.ModuleSpec(name, self, is_package=True)
                sp.submodule_search_locations = [base]
                return sp
        return None

    def create_module(self, spec):
        return STUBS.get(spec.name)

    def exec_module(self, mod):
        fn = getattr(mod.__spec__, "_vc_file", None)
        if fn is None:
            return
        src = open(fn, encoding="utf-8-sig").read()
        tree = ast.parse(src, fn)
        # `if __name__ == "__main__"` never runs on import
        tree = Imports().visit(tree)
        tree = T().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, fn, "exec")
        mod.__dict__["_vc_"] = rtlib
        mod.__dict__["open"] = ghost_open
        mod.__dict__["_vc_import"] = vc_import
        mod.__dict__["_vc_from"] = vc_from
        mod.__dict__.update(rtlib.NAMES)
        LOADED[mod.__name__] = fn
        exec(code, mod.__dict__)


class Imports(ast.NodeTransformer):
    """route imports of shimmed third-party modules"""

    def visit_Import(self, node):
        out = []
        for a in node.names:
            top = a.name.split(".")[0]
            if a.name in SHIMS or top in GHOSTED:
                out.append(ast.copy_location(ast.parse(
                    f"{a.asname or top} = _vc_import({a.name!r}, {bool(a.asname)!r})").body[0], node))
            else:
                out.append(ast.copy_location(ast.Import([a]), node))
        return out

    def visit_ImportFrom(self, node):
        m = node.module or ""
        top = m.split(".")[0]
        if node.level == 0 and (m in SHIMS or top in GHOSTED):
            out = []
            for a in node.names:
                if a.name == "*":
                    continue
                out.append(ast.copy_location(ast.parse(
                    f"{a.asname or a.name} = _vc_from({m!r}, {a.name!r})").body[0], node))
            return out
        return node


def vc_import(name, full):
    if full:
        if name in SHIMS:
            return SHIMS[name]
        p, _, n = name.rpartition(".")
        return vc_from(p, n) if p else Missing(n)
    t = name.split(".")[0]
    return SHIMS.get(t) or Missing(t)


_installed = [False]


def install():
    if not _installed[0]:
        sys.dont_write_bytecode = True
        sys.meta_path.insert(0, Finder())
        _installed[0] = True


def reset():
    for n in [n for n in sys.modules if n == "hyperstatic" or n.startswith("hyperstatic.")]:
        del sys.modules[n]


def load(name):
    install()
    if name.startswith("hyperstatic.core") and not STUBS:
        kernels(["plates.metaDKT", "plates.metaDKQ", "plates.TMQ", "membranes.GQ12", "membranes.T9"])
    return importlib.import_module(name)


class KernelModule(types.ModuleType):
    """a shell kernel package whose numerical kernel is compiled C: represented by its contract"""


def stub_kernel(name, **attrs):
    m = KernelModule(name)
    m.__path__ = []
    m.__dict__.update(attrs)
    STUBS[name] = m
    return m


def kernels(names, prefix="hyperstatic.core.fe_model.meta"):
    """replace the symbolic-algebra packages behind the shell elements"""
    stub_kernel(prefix)
    for p in ("membranes", "plates", "shells", "interpolate"):
        m = stub_kernel(prefix + "." + p)
    for full in names:
        k = stub_kernel(prefix + "." + full)
        parent, _, leaf = full.rpartition(".")
        setattr(STUBS[prefix + "." + parent], leaf, k)
    return STUBS


def program(src, **env):
    """client code of a contract, instrumented like repository code; returns its namespace"""
    tree = T().visit(Imports().visit(ast.parse(src)))
    ast.fix_missing_locations(tree)
    d = {"_vc_": rtlib, "_vc_import": vc_import, "_vc_from": vc_from, "open": ghost_open, "__name__": "client"}
    d.update(rtlib.NAMES)
    d.update(env)
    exec(compile(tree, "<client>", "exec"), d)
    return types.SimpleNamespace(**{k: v for k, v in d.items() if not k.startswith("_vc_")})
