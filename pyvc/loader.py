"""Executes the package source from /repo with shimmed dependencies, for symbolic execution."""
import ast
import builtins
import os
import sys
import types
import numpy as _np
from . import terms as T
from .terms import Node, BNode, Unsupported, lift
from .npshim import np_shim, math_shim, obj
from . import engine

REPO = os.environ.get("PYVC_REPO", "/repo")


class FloatShim(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Node)) and not isinstance(x, BNode)

    def __call__(cls, x=0.0):
        if isinstance(x, Node):
            return x
        if isinstance(x, _np.ndarray):
            return x.reshape(-1)[0]
        return lift(float(x))

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class float_(metaclass=FloatShim):
    pass


class Recorder:
    """Absorbs any use (plotting, progress bars); records calls."""
    def __init__(self, name="rec", log=None):
        object.__setattr__(self, "_n", name)
        object.__setattr__(self, "_log", log if log is not None else [])

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Recorder(self._n + "." + n, self._log)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        self._log.append((self._n, a, k))
        if self._n.endswith("subplots"):
            r, c = (list(a) + [1, 1])[:2]
            ax = Recorder(self._n + ".ax", self._log)
            if r * c == 1:
                return Recorder(self._n + ".fig", self._log), ax
            arr = _np.empty((r, c) if r > 1 and c > 1 else (r * c,), dtype=object)
            for i in _np.ndindex(*arr.shape):
                arr[i] = Recorder(self._n + f".ax{i}", self._log)
            return Recorder(self._n + ".fig", self._log), arr
        return Recorder(self._n + "()", self._log)

    def __iter__(self):
        return iter([Recorder(self._n + "[0]", self._log), Recorder(self._n + "[1]", self._log)])

    def __getitem__(self, k):
        return Recorder(self._n + "[]", self._log)

    def __bool__(self):
        return True

    def __enter__(self): return self
    def __exit__(self, *a): return False


def shim_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if k is float_ or k is float:
            if isinstance(x, float) or (isinstance(x, Node) and not isinstance(x, BNode)):
                return True
        elif k is int:
            if isinstance(x, int):
                return True
        elif k is bool:
            if isinstance(x, (bool, BNode)):
                return True
        elif isinstance(k, type):
            if isinstance(x, k):
                return True
            if k is list and type(x).__name__ in ("SymList", "TrackedList"):
                return True
        elif k is _np.ndarray:
            if isinstance(x, _np.ndarray):
                return True
        else:
            if isinstance(x, k):
                return True
    return False


def _seq(args, key):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if len(args) == 1 and hasattr(args[0], "__pyvc_extremum__"):
        return None
    return xs


def shim_max(*args, key=None, default=None):
    if len(args) == 1 and hasattr(args[0], "__pyvc_extremum__"):
        return args[0].__pyvc_extremum__(True, key)
    xs = list(args[0]) if len(args) == 1 else list(args)
    if not any(isinstance(x, Node) for x in xs):
        if key is not None:
            return builtins.max(xs, key=key)
        return builtins.max(xs)
    best = xs[0]
    for x in xs[1:]:
        if key is None:
            best = T.maxn(best, x)
        else:
            best = T.ite(T.lt(lift(key(best)), lift(key(x))), x, best)
    return best


def shim_min(*args, key=None, default=None):
    if len(args) == 1 and hasattr(args[0], "__pyvc_extremum__"):
        return args[0].__pyvc_extremum__(False, key)
    xs = list(args[0]) if len(args) == 1 else list(args)
    if not any(isinstance(x, Node) for x in xs):
        if key is not None:
            return builtins.min(xs, key=key)
        return builtins.min(xs)
    best = xs[0]
    for x in xs[1:]:
        if key is None:
            best = T.minn(best, x)
        else:
            best = T.ite(T.lt(lift(key(x)), lift(key(best))), x, best)
    return best


def shim_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def shim_len(x):
    f = getattr(type(x), "__pyvc_len__", None)
    return f(x) if f is not None else builtins.len(x)


def shim_abs(x):
    if isinstance(x, _np.ndarray):
        return np_shim.abs(x)
    return builtins.abs(x)


def shim_int(x=0, *a):
    if isinstance(x, BNode):
        return T.b2n(x)
    if isinstance(x, Node):
        if x.op == "c":
            return int(x.data)
        return T.uf("trunc", x)
    return int(x, *a)


def shim_round(x, n=None):
    if isinstance(x, Node) and x.op != "c":
        return T.uf("round", x)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def shim_bool(x=False):
    if isinstance(x, BNode):
        return x
    if isinstance(x, Node):
        return T.bnot(T.eq(x, T.ZERO))
    return bool(x)


def shim_all(xs):
    return T.band(*[T._b(x) for x in xs]) if not isinstance(xs, _np.ndarray) else np_shim.all(xs)


def shim_any(xs):
    return T.bor(*[T._b(x) for x in xs]) if not isinstance(xs, _np.ndarray) else np_shim.any(xs)


def _bool_out(b):
    if isinstance(b, BNode) and b.op == "bc":
        return b.data
    return b


class Package:
    """One symbolic copy of the package."""

    def __init__(self, overrides=None, transform=None):
        self.mods = {}
        self.log = []
        self.overrides = overrides or {}
        self.transform = transform or {}
        self.files = []
        self.functions = {}

    # ------------------------------------------------ imports
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            if fromlist and name == "":
                class M: pass
                m = M()
                for f in fromlist:
                    setattr(m, f, self.load(f))
                return m
            return self.load(name)
        top = name.split(".")[0]
        if name == "numpy":
            return np_shim
        if name == "numpy.linalg":
            return np_shim.linalg if fromlist else self._wrapnp()
        if name == "math":
            return math_shim
        if top == "numba":
            def njit(*a, **k):
                if a and callable(a[0]) and not k:
                    return a[0]
                return lambda f: f
            return types.SimpleNamespace(njit=njit, jit=njit, prange=range, float64=float, vectorize=njit,
                                         boolean=bool, int64=int, types=Recorder("numba.types"))
        if top in ("matplotlib", "tqdm", "mpl_toolkits"):
            return Recorder(name, self.log)
        if top == "spiceypy":
            return self.overrides.get("spiceypy", Recorder("spiceypy", self.log))
        if top == "scipy":
            return self.overrides.get("scipy", Recorder("scipy", self.log))
        if name.startswith("numpy._"):      # numpy's own lazy imports
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if top == "pyqlaw":
            return self.load(name.split(".", 1)[1] if "." in name else "__init__")
        if top == "itertools":
            return _itertools()
        if top in ("sympy", "copy", "json", "types", "typing", "functools", "itertools", "dataclasses", "abc", "enum",
                   "collections", "warnings", "operator", "os", "sys", "time", "numbers", "contextlib", "inspect", "__future__"):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported(f"import of {name}")

    def _wrapnp(self):
        return np_shim

    def builtins(self):
        b = dict(vars(builtins))
        b.update({
            "__import__": self._import, "isinstance": shim_isinstance, "max": shim_max, "min": shim_min, "float": float_,
            "sum": shim_sum, "abs": shim_abs, "int": _IntShim, "round": shim_round, "bool": _BoolShim, "all": shim_all,
            "any": shim_any, "len": shim_len, "print": lambda *a, **k: None, "open": self._open, "sorted": shim_sorted,
        })
        return b

    def _open(self, *a, **k):
        self.log.append(("open", a, k))
        return Recorder("file", self.log)

    def load(self, name):
        name = name.split(".")[-1]
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, "pyqlaw", name + ".py")
        src = open(path).read()
        self.files.append(path)
        tree = ast.parse(src, path)
        tr = self.transform.get(name)
        if tr is not None:
            tree = tr(tree)
            ast.fix_missing_locations(tree)
        m = types.ModuleType("pyqlaw_sym." + name)
        m.__dict__["__builtins__"] = self.builtins()
        m.__dict__["__name__"] = "pyqlaw_sym." + name
        m.__dict__["__file__"] = path
        self.mods[name] = m
        m.__dict__.update(self.overrides.get("inject", {}))
        exec(compile(tree, path, "exec"), m.__dict__)
        return m

    def lambdified(self, fun):
        """The generated evaluator's own code, with its numpy functions replaced by symbolic ones."""
        g = dict(fun.__globals__)
        for k in ("sqrt", "sin", "cos", "tan", "exp", "log", "abs", "sign"):
            g[k] = getattr(np_shim, k)
        g.update(arctan2=np_shim.arctan2, arctan=np_shim.arctan, arccos=np_shim.arccos, arcsin=np_shim.arcsin, pi=T.PI,
                 select=_select, amax=None, amin=None, array=np_shim.array, where=np_shim.where,
                 less=np_shim.less, less_equal=np_shim.less_equal, greater=np_shim.greater, equal=np_shim.equal,
                 greater_equal=np_shim.greater_equal, maximum=np_shim.maximum, minimum=np_shim.minimum)
        return types.FunctionType(fun.__code__, g, fun.__name__, fun.__defaults__, fun.__closure__)


def shim_sorted(xs, key=None, reverse=False):
    return builtins.sorted(xs, key=key, reverse=reverse)


def _select(conds, vals, default=None):
    r = lift(default) if default is not None else T.NAN
    for c, v in reversed(list(zip(conds, vals))):
        r = T.ite(T._b(c), lift(v), r)
    return r


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, *a):
        return shim_int(*a)


class _IntShim(metaclass=_IntMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, BNode))

    def __call__(cls, *a):
        return shim_bool(*a)


class _BoolShim(metaclass=_BoolMeta):
    pass


def _itertools():
    import itertools
    return itertools
