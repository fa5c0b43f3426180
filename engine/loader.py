"""Loads the library's current source for symbolic execution.

Every module under REPO/micropolarray is parsed from the working tree, minimally rewritten (type
conversions such as int(x) become calls to symbolic-aware versions; each function records that it
was entered) and executed with an __import__ that hands it the stand-ins of world.py for compiled
libraries.  Modules are re-executed for each path, so module state never leaks between paths.
"""
from __future__ import annotations
import ast, builtins, importlib, importlib.abc, importlib.machinery, importlib.util, os, sys, types
import numpy as np
from . import arr, sym, world
from .sym import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "micropolarray"
CALLS = {"int": "z_int", "float": "z_float", "type": "z_type", "bytes": "z_bytes"}
ENTERED = set()
_codes = {}


class Rewrite(ast.NodeTransformer):
    def __init__(self, mod): self.mod, self.stack, self.np = mod, [], {"np", "numpy"}

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        q = self.mod + ":" + ".".join(self.stack)
        n.args = self.generic_visit(n.args)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = [self.visit(s) for s in n.body]
        mark = ast.parse(f"__z_enter__({q!r})").body
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body[k:k] = mark
        self.stack.pop()
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in CALLS: n.func = ast.Name("__" + CALLS[f.id] + "__", ast.Load())
            elif f.id == "map" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in CALLS:
                n.args[0] = ast.Name("__" + CALLS[n.args[0].id] + "__", ast.Load())
        elif isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and v.id in self.np and f.attr in world.SCALAR_TYPES:
                n.args = [ast.Constant(f.attr)] + n.args
                n.func = ast.Name("__z_npscalar__", ast.Load())
            elif isinstance(v, ast.Name) and v.id == "int" and f.attr == "from_bytes":
                n.func = ast.Name("__z_from_bytes__", ast.Load())
            elif isinstance(v, ast.Constant) and isinstance(v.value, str) and f.attr == "join":
                n.func = ast.Name("__z_join__", ast.Load())
                n.args = [v] + n.args
        return n


def code_for(path, mod):
    src = open(path, "rb").read()
    k = (path, src)
    if k not in _codes:
        tree = Rewrite(mod).visit(ast.parse(src, path))
        _codes[k] = compile(ast.fix_missing_locations(tree), path, "exec")
    return _codes[k]


# ---------------------------------------------------------------- import map
_np = _math = None
_mods = {}


def shim(name):
    """Stand-in for a top-level or dotted module, or None for the real one."""
    if name in _mods: return _mods[name]
    r = None
    top = name.split(".")[0]
    if top == "numpy":
        p = _mods.get("numpy") or world.numpy_proxy()
        _mods["numpy"] = p
        if name == "numpy": r = p
        elif name == "numpy.linalg": r = p.linalg
        elif name == "numpy.lib.stride_tricks" or name == "numpy.lib":
            st = types.ModuleType("numpy.lib.stride_tricks")
            import numpy.lib.stride_tricks as real

            def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
                x = arr.lift(x)
                return arr.wrap(real.as_strided(x.raw(), shape, strides), x._ld, view=True)

            def swv(x, window_shape, axis=None, **k):
                x = arr.lift(x)
                return arr.wrap(real.sliding_window_view(x.raw(), window_shape, axis, **k), x._ld, view=True)
            st.as_strided, st.sliding_window_view, st.broadcast_to = as_strided, swv, p.broadcast_to
            if name == "numpy.lib":
                l = types.ModuleType("numpy.lib")
                l.stride_tricks = st
                r = l
            else: r = st
        elif name == "numpy.typing": r = importlib.import_module(name)
        else: r = importlib.import_module(name)
    elif name == "math": r = world.math_proxy()
    elif top == "numba":
        m = _mods.get("numba") or world.numba_module()
        _mods["numba"] = m
        r = m if name == "numba" else m.typed if name == "numba.typed" else world.Dummy(name)
    elif name == "astropy":
        r = types.ModuleType("astropy")
        r.__path__ = []
        io = types.ModuleType("astropy.io")
        io.__path__ = []
        io.fits = shim("astropy.io.fits")
        r.io = io
        _mods["astropy.io"] = io
        import astropy
        r.__getattr__ = lambda n: getattr(astropy, n)
    elif name == "astropy.io":
        shim("astropy")
        r = _mods["astropy.io"]
    elif name == "astropy.io.fits": r = world.fits_module()
    elif name == "multiprocessing" or name == "multiprocess":
        import multiprocessing as real
        r = types.ModuleType(name)
        r.Pool = world.Pool
        r.cpu_count = lambda: 4
        r.get_context = lambda *a: r
        r.__getattr__ = lambda n: getattr(real, n)
    elif name == "multiprocessing.pool":
        r = types.ModuleType(name)
        r.Pool = r.ThreadPool = world.Pool
    elif name == "concurrent.futures" or name == "concurrent":
        import concurrent.futures as real
        r = types.ModuleType("concurrent.futures")
        r.ProcessPoolExecutor = r.ThreadPoolExecutor = world._Exec
        r.as_completed = lambda fs, timeout=None: iter(list(fs)[::-1])
        r.wait = lambda fs, *a, **k: (set(fs), set())
        if name == "concurrent":
            t = types.ModuleType("concurrent")
            t.futures = r
            r = t
    elif top == "tqdm":
        r = types.ModuleType("tqdm")
        r.tqdm = lambda it=None, *a, **k: it
        r.trange = lambda *a, **k: range(*a)
        r.__path__ = []
        r.auto = r
    elif top == "scipy": r = scipy_shim(name)
    elif top == "PIL":
        if name == "PIL":
            r = types.ModuleType("PIL")
            r.Image = shim("PIL.Image")
        elif name == "PIL.Image":
            r = types.ModuleType("PIL.Image")
            r.fromarray = world.pil_fromarray
            from PIL import Image as P
            r.__getattr__ = lambda n: getattr(P, n)
    elif name == "matplotlib.pyplot": r = world.Plt(name)
    elif top in ("matplotlib", "mpl_toolkits", "pandas", "seaborn"): r = world.Dummy(name)
    elif top == "cv2": r = world.Cv2(name)
    _mods[name] = r
    return r


def scipy_shim(name):
    sub = name.split(".", 1)[1] if "." in name else ""
    over = {"ndimage": {"median_filter": world.median_filter}, "optimize": {"curve_fit": world.curve_fit}, "interpolate": {"interp1d": world.interp1d}}
    m = types.ModuleType(name)
    m.__path__ = []

    def guard(f, nm):
        def g(*a, **k):
            if arr.any_sym(a) or arr.any_sym(list(k.values())): raise Unsupported(f"scipy {nm} on symbolic data")
            return arr.from_real(f(*[world.deep_real(x) for x in a], **{q: world.deep_real(v) for q, v in k.items()}))
        return g
    if sub == "":
        for s in over: setattr(m, s, shim("scipy." + s))
        m.__getattr__ = lambda n: importlib.import_module("scipy." + n)
        return m
    real = importlib.import_module(name)
    for k, v in over.get(sub, {}).items(): setattr(m, k, v)
    if sub in over:
        def ga(n):
            v = getattr(real, n)
            return guard(v, n) if callable(v) and not isinstance(v, type) else v
        m.__getattr__ = ga
        return m
    return real


_real_import = builtins.__import__


def z_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level > 0 or name.split(".")[0] == PKG: return _real_import(name, globals, locals, fromlist, level)
    if fromlist:
        m = shim(name)
        if m is None: return _real_import(name, globals, locals, fromlist, level)
        for n in fromlist:
            if n != "*" and not hasattr(m, n):
                s = shim(name + "." + n)
                if s is not None: setattr(m, n, s)
        return m
    top = name.split(".")[0]
    m = shim(name)
    if m is None: return _real_import(name, globals, locals, fromlist, level)
    t = shim(top)
    if t is None: return _real_import(name, globals, locals, fromlist, level)
    # make dotted submodules reachable from the top module
    parts = name.split(".")
    cur, nm = t, top
    for p in parts[1:]:
        nm += "." + p
        s = shim(nm) or importlib.import_module(nm)
        if not hasattr(cur, p) or isinstance(cur, types.ModuleType) and p not in cur.__dict__:
            try: setattr(cur, p, s)
            except Exception: pass
        cur = getattr(cur, p)
    return t


def z_enter(q): ENTERED.add(q)


def make_builtins():
    b = dict(builtins.__dict__)
    b["__import__"] = z_import
    for n in ("open",): b[n] = world.zopen
    for n in ("bin", "isinstance", "round", "divmod", "print", "sum", "min", "max"): b[n] = getattr(world, "z_" + n)
    for f in ("z_int", "z_float", "z_type", "z_bytes", "z_npscalar", "z_from_bytes", "z_join"): b["__" + f + "__"] = getattr(world, f)
    b["__z_enter__"] = z_enter
    return b


_B = None


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."): return None
        p = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            s = importlib.machinery.ModuleSpec(name, self, origin=os.path.join(p, "__init__.py"), is_package=True)
            s.submodule_search_locations = [p]
        elif os.path.isfile(p + ".py"):
            s = importlib.machinery.ModuleSpec(name, self, origin=p + ".py")
        else: return None
        s.has_location = True
        return s

    def create_module(self, spec): return None

    def exec_module(self, m):
        global _B
        if _B is None: _B = make_builtins()
        m.__dict__["__builtins__"] = _B
        exec(code_for(m.__spec__.origin, m.__name__), m.__dict__)


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path): sys.meta_path.insert(0, Finder())


def fresh():
    """A fresh copy of the library (symbolic mode)."""
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]: del sys.modules[k]
    world.reset()
    arr.NUMBA = 0
    return importlib.import_module(PKG)


# ---------------------------------------------------------------- concrete mode (real library)
def load_real():
    """The unmodified library in this interpreter (replays and cross-checks)."""
    import numpy, scipy, scipy.ndimage, scipy.optimize, scipy.interpolate, numba, astropy.io.fits, PIL.Image, matplotlib, matplotlib.pyplot, pandas, cv2, tqdm, pytz, multiprocessing  # noqa
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, REPO)
    m = importlib.import_module(PKG)
    assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO)), m.__file__
    return m


ORDER = None      # order in which directories are listed (None: reverse lexicographic)


def list_order(names): return ORDER(sorted(names)) if ORDER else sorted(names, reverse=True)


def guard_fs(root):
    """File removals and renames outside root are refused (scratch containment)."""
    import shutil
    root = os.path.realpath(root)

    def g(f, n):
        def h(p, *a, **k):
            for q in (p, *a[:n - 1]):
                if isinstance(q, (str, bytes, os.PathLike)):
                    q = os.path.realpath(os.fsdecode(q))
                    if not (q == root or q.startswith(root + os.sep)): raise PermissionError(f"outside the scratch directory: {q}")
            return f(p, *a, **k)
        return h
    for n, k in (("remove", 1), ("unlink", 1), ("rmdir", 1), ("rename", 2), ("replace", 2), ("truncate", 1)): setattr(os, n, g(getattr(os, n), k))
    shutil.rmtree = g(shutil.rmtree, 1)
    # adversarial directory order: listings come back in reverse lexicographic order
    ls, sd = os.listdir, os.scandir
    os.listdir = lambda p=".": list_order(ls(p))

    class SD(list):
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def close(self): pass
        def __next__(self):
            if not self: raise StopIteration
            return self.pop(0)

    def scandir(p="."):
        d = {e.name: e for e in sd(p)}
        return SD(d[n] for n in list_order(d))
    os.scandir = scandir
