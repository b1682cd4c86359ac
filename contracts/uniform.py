"""Histories of arbitrary length.

Reporting functions treat every entry of a recorded history alike.  They are executed once on histories of length n = 8
whose entries are arbitrary values; the run stands for every length when nothing in it depends on n:

  - len() of a history (or of an array made from one) yields a token that refuses arithmetic other than "+/- constant",
    and comparison with anything but another token; range()/enumerate() over it yield index tokens that can only select;
  - histories refuse selection by constants other than the first and the last entry;
  - no loop of an executed function carries values from one iteration to the next or stores outside its own slot,
    and none of them asks for shapes or sizes (syntactic check of the functions that were executed).

When one of these fails the run counts as bounded (length 8 only).
"""
import ast
import builtins
import os
import sys
import numpy as np
from pyvc import terms as T
from pyvc.loader import REPO
from pyvc.terms import Unsupported
from .common import obj

N = 8
NON_UNIFORM = []


def note(what):
    """The run is not length-independent from here on."""
    if what not in NON_UNIFORM:
        NON_UNIFORM.append(what)


class Rep(int):
    """The symbolic length n (plus a constant); computes with the value 8 but reports it."""
    def _bin(nm, keep=False):
        f = getattr(int, nm)

        def g(s, o):
            r = f(s, o)
            if r is NotImplemented:
                return r
            if keep and type(o) is int and abs(o) <= 2:
                return Rep(r)
            note(f"arithmetic on the length of a history ({nm.strip('_')})")
            return r
        return g
    __add__, __radd__, __sub__ = _bin("__add__", True), _bin("__radd__", True), _bin("__sub__", True)
    for _n in ("__rsub__", "__mul__", "__rmul__", "__floordiv__", "__rfloordiv__", "__truediv__", "__rtruediv__", "__mod__", "__rmod__", "__pow__", "__and__",
               "__or__", "__xor__", "__lshift__", "__rshift__"):
        locals()[_n] = _bin(_n)
    del _n

    def _cmp(nm):
        f = getattr(int, nm)

        def g(s, o):
            r = f(s, o)
            if r is NotImplemented or isinstance(o, Rep):
                return r
            # every history has an entry
            if type(o) is int and ((o <= 0) or (o == 1 and nm in ("__ge__", "__lt__"))):
                return r
            note("comparison of the length of a history")
            return r
        return g
    for _n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        locals()[_n] = _cmp(_n)
    del _n
    __hash__ = int.__hash__


class Count(Rep):
    """A number of points asked for by the caller; evenly spaced grids of that many points have arbitrary entries."""
    def __new__(cls, nm="s"):
        c = Rep.__new__(cls, N)
        c.grids, c.nm = [], nm
        return c

    def __pyvc_linspace__(s, a, b, endpoint):
        g = [T.var(f"{s.nm}{len(s.grids)}_{j}") for j in range(N)]
        s.grids.append((a, b, endpoint, g))
        return obj(g)


class Pos(int):
    """An index token."""
    def _bin(nm):
        f = getattr(int, nm)

        def g(s, o):
            note(f"arithmetic on an index of a history ({nm.strip('_')})")
            return f(s, o)
        return g
    for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__floordiv__", "__truediv__", "__mod__", "__rmod__", "__pow__", "__and__",
               "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        locals()[_n] = _bin(_n)
    del _n
    __hash__ = int.__hash__


class Hist(list):
    """A recorded history."""
    def __pyvc_len__(s):
        return Rep(builtins.len(s))

    def __getitem__(s, k):
        if isinstance(k, slice):
            if k.step not in (None, 1) or k.start not in (None, 0, 1, -1) or k.stop not in (None, -1):
                note("selection of a range of a history by position")
            return Hist(list.__getitem__(s, k))
        if not isinstance(k, Pos) and k not in (0, -1):
            note("selection of an entry of a history by position")
        return list.__getitem__(s, k)

    def __add__(s, o):
        return Hist(list.__add__(s, o))

    def copy(s):
        return Hist(s)
    __copy__ = copy

    def __deepcopy__(s, memo):
        import copy
        return Hist([copy.deepcopy(x, memo) for x in s])


def _len(x):
    f = getattr(type(x), "__pyvc_len__", None)
    if f is not None:
        return f(x)
    n = builtins.len(x)
    return Rep(n) if isinstance(x, (np.ndarray, list)) and n in (N - 1, N, N + 1) else n


def _range(*a):
    if any(isinstance(x, Rep) for x in a):
        if len(a) == 1 or (len(a) == 2 and a[0] in (0,)):
            return [Pos(i) for i in builtins.range(int(a[-1]))]
        note("partial iteration over a history")
    return builtins.range(*[int(x) for x in a])


def _enumerate(xs, start=0):
    xs = list(xs)
    if len(xs) in (N - 1, N, N + 1):
        return [(Pos(i + start), x) for i, x in builtins.enumerate(xs)]
    return builtins.enumerate(xs, start)


BUILTINS = {"len": _len, "range": _range, "enumerate": _enumerate}


def fresh(name):
    """A module of its own symbolic copy of the package, with length-tracking builtins."""
    from pyvc.loader import Package
    p = Package()
    m = p.load(name)
    install(p)
    NON_UNIFORM.clear()
    return m


def verdict(ex):
    return sorted(ex.carried()) + list(NON_UNIFORM)


def install(pkg):
    """Length-tracking builtins in every module of a symbolic package."""
    for m in pkg.mods.values():
        m.__dict__["__builtins__"].update(BUILTINS)


# ------------------------------------------------------------------ syntactic side condition
def carried(fn):
    """Reasons why a loop of the function does not treat its iterations alike."""
    bad = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and n.attr in ("shape", "size", "ndim", "nbytes", "__len__"):
            bad.add(f".{n.attr}")
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.NamedExpr)):
            bad.add(type(n).__name__)
        if isinstance(n, ast.While):
            bad.add("while")
    for loop in ast.walk(fn):
        if not isinstance(loop, ast.For):
            continue
        target = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        body = ast.Module(body=loop.body, type_ignores=[])
        wr = {n.id for n in ast.walk(body) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        bases, used = set(), {}
        for n in ast.walk(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                used[n.id] = used.get(n.id, 0) + 1
        own = {}
        for n in ast.walk(body):
            if isinstance(n, (ast.Break, ast.Continue)) or (isinstance(n, ast.Return)):
                bad.add(type(n).__name__.lower())
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                idx = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                if isinstance(n.value, ast.Name) and n.value.id in wr:
                    continue            # local of the iteration
                if not (isinstance(n.value, ast.Name) and any(isinstance(i, ast.Name) and i.id in target for i in idx)):
                    bad.add("store to " + ast.unparse(n))
                else:
                    own[n.value.id] = own.get(n.value.id, 0) + 1
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bad.add("store to " + ast.unparse(n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in ("pop", "insert", "remove", "extend", "clear", "setdefault", "update", "popitem", "reverse", "sort"):
                    bad.add(n.func.attr)
                if n.func.attr == "append":
                    if isinstance(n.func.value, ast.Name):
                        own[n.func.value.id] = own.get(n.func.value.id, 0) + 1
                    else:
                        bad.add("append to " + ast.unparse(n.func.value))
        for nm, c in own.items():
            if nm not in wr and used.get(nm, 0) != c:
                bad.add(f"{nm} is read inside the loop that fills it")
        done = set(target)

        def scan(stmts, done):
            for st in stmts:
                if isinstance(st, (ast.If,)):
                    check(st.test, done)
                    d1, d2 = set(done), set(done)
                    scan(st.body, d1)
                    scan(st.orelse, d2)
                    done |= d1 & d2
                    continue
                if isinstance(st, ast.For):
                    check(st.iter, done)
                    d = set(done) | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
                    scan(st.body, d)
                    continue
                if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id not in done:
                    bad.add(f"{st.target.id} accumulates over the loop")
                check(st, done)
                done |= {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

        def check(node, done):
            inner = {m.id for c in ast.walk(node) if isinstance(c, ast.comprehension) for m in ast.walk(c.target) if isinstance(m, ast.Name)}
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in wr and n.id not in done and n.id not in inner:
                    bad.add(f"{n.id} is carried between iterations")
        scan(loop.body, done)
    return bad


class Executed:
    """Collects the package functions executed inside a with block."""
    def __enter__(s):
        s.codes = set()
        root = os.path.join(REPO, "pyqlaw") + os.sep
        s.old = sys.getprofile()

        def prof(frame, ev, arg):
            if ev == "call" and frame.f_code.co_filename.startswith(root):
                s.codes.add(frame.f_code)
        sys.setprofile(prof)
        return s

    def __exit__(s, *a):
        sys.setprofile(s.old)

    def carried(s, skip=("__init__", "set_problem", "<module>")):
        bad = set()
        trees = {}
        for c in s.codes:
            if c.co_name in skip or c.co_name.startswith("<"):
                continue
            t = trees.setdefault(c.co_filename, None) or ast.parse(open(c.co_filename).read())
            trees[c.co_filename] = t
            for n in ast.walk(t):
                if isinstance(n, ast.FunctionDef) and n.name == c.co_name and (n.lineno == c.co_firstlineno or any(d.lineno == c.co_firstlineno for d in n.decorator_list)):
                    bad |= {f"{n.name}: {x}" for x in carried(n)}
        return bad
