"""Unbounded loops: cut points, generalised loop states, inferred relational invariants.

Every `while` loop of the transformed functions becomes

    head(locals)                  -- cut point
    if not cond: exit
    body

The first iteration is executed from the actual entry state ("base"); every later one from a generalised state
("step") in which each location that any iteration changes is an arbitrary value constrained only by the loop
invariant.  A path ends when it comes back to the cut point ("cut") or when the function returns.  The set of changed
locations is a fixpoint computed over the paths, so nothing outside it can change (frame condition).
"""
import ast
import types
import numpy as _np
from . import terms as T
from .terms import Node, BNode, Unsupported, lift
from . import engine


class LoopCut(BaseException):
    def __init__(s, locs):
        s.locs = locs


class SymList(list):
    """A list of arbitrary length >= 1 of which only the last element is known; grows by append."""

    def __init__(s, name, last, n):
        list.__init__(s)
        s.name, s.last0, s.n0 = name, last, n
        s.tail = []

    def append(s, x): s.tail.append(x)
    def extend(s, xs): s.tail.extend(list(xs))

    def __iadd__(s, xs):
        s.tail.extend(list(xs))
        return s

    def __add__(s, xs):
        r = SymList(s.name, s.last0, s.n0)
        r.tail = s.tail + list(xs)
        return r

    def copy(s):
        r = SymList(s.name, s.last0, s.n0)
        r.tail = list(s.tail)
        return r

    def __getitem__(s, k):
        if isinstance(k, int) and k < 0:
            if -k <= len(s.tail):
                return s.tail[k]
            if -k == len(s.tail) + 1:
                return s.last0
        raise Unsupported(f"access to an old entry of {s.name}")

    def __setitem__(s, k, v):
        if isinstance(k, int) and k < 0 and -k <= len(s.tail):
            s.tail[k] = v
            return
        if isinstance(k, int) and k == -1 - len(s.tail):
            s.last0 = v
            return
        raise Unsupported(f"change of an old entry of {s.name}")

    def __pyvc_len__(s):
        return s.n0 + len(s.tail)

    def __len__(s):
        raise Unsupported(f"length of {s.name}")

    def __iter__(s):
        raise Unsupported(f"iteration over {s.name}")

    def __bool__(s):
        return True

    def __eq__(s, o):
        return s is o

    def pop(s, *a):
        raise Unsupported(f"pop of {s.name}")
    insert = remove = clear = reverse = sort = index = count = pop
    __contains__ = __delitem__ = pop
    __hash__ = object.__hash__


class Driver:
    """Per-path controller of the cut points."""
    cur = None

    def __init__(s, gen=None):
        s.gen = gen              # None: base run; callable(locals) -> generalised locals
        s.heads = 0
        s.head_locals = None
        s.active = None
        s.on_head = None

    def loop(s, ident):
        return Cut(s, ident)


class Cut:
    def __init__(s, drv, ident):
        s.d, s.ident, s.n = drv, ident, 0

    def head(s, locs):
        d = s.d
        if d.active is None:
            d.active = s.ident
        if d.active != s.ident:
            raise Unsupported("more than one unbounded loop")
        s.n += 1
        d.heads += 1
        locs = {k: v for k, v in locs.items() if "__pyvc" not in k}
        if d.heads == 1:
            if d.gen is None:
                d.head_locals = locs
                if d.on_head:
                    d.on_head(locs)
                return {}
            g = d.gen(locs)
            d.head_locals = g
            if d.on_head:
                d.on_head(g)
            return g
        raise LoopCut(locs)


class _Stores(ast.NodeVisitor):
    def __init__(s):
        s.names = set()

    def visit_Name(s, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            s.names.add(n.id)

    def visit_FunctionDef(s, n):
        s.names.add(n.name)

    def visit_Lambda(s, n): pass
    def visit_ListComp(s, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                s.names.add(x.target.id)
    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp


class CutTransform(ast.NodeTransformer):
    """Rewrites while loops (and for loops over itertools.count) inside functions whose name is not excluded."""

    def __init__(s, only=None):
        s.only = only
        s.k = 0
        s.infn = 0
        s.found = []
        s.names = set()

    def visit_FunctionDef(s, n):
        if s.only is not None and n.name not in s.only:
            return n
        st = _Stores()
        for b in n.body:
            st.visit(b)
        a = n.args
        st.names |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        old, s.names = s.names, st.names
        s.infn += 1
        s.generic_visit(n)
        s.infn -= 1
        s.names = old
        return n

    def _mk(s, node, test, body, orelse, pre=()):
        st = _Stores()
        for b in list(pre) + list(body):
            st.visit(b)
        for x in ast.walk(test):
            if isinstance(x, ast.NamedExpr):
                st.names.add(x.target.id)
        names = sorted((st.names | s.names) - {"self"})
        s.k += 1
        L = f"__pyvc_L{s.k}"
        H = f"__pyvc_h{s.k}"
        s.found.append((s.k, node.lineno))
        src = [f"{L} = __pyvc_driver__().loop({s.k})"]
        enter = ast.parse("\n".join(src)).body
        head = ast.parse(f"{H} = {L}.head(dict(locals()))").body
        for nm in names:
            head += ast.parse(f"if '{nm}' in {H}: {nm} = {H}['{nm}']").body
        brk = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=list(orelse) + [ast.Break()], orelse=[])
        loop = ast.While(test=ast.Constant(True), body=head + [brk] + list(pre) + list(body), orelse=[])
        return enter + [loop]

    def visit_While(s, n):
        s.generic_visit(n)
        if not s.infn:
            return n
        return s._mk(n, n.test, n.body, n.orelse)

    def visit_For(s, n):
        s.generic_visit(n)
        if not s.infn:
            return n
        it = n.iter
        if isinstance(it, ast.Call) and ((isinstance(it.func, ast.Attribute) and it.func.attr == "count") or
                                         (isinstance(it.func, ast.Name) and it.func.id == "count")) \
                and isinstance(n.target, ast.Name) and len(it.args) <= 1 and not it.keywords:
            start = it.args[0] if it.args else ast.Constant(0)
            init = ast.Assign(targets=[ast.Name(n.target.id, ast.Store())],
                              value=ast.BinOp(start, ast.Sub(), ast.Constant(1)), lineno=n.lineno)
            inc = ast.AugAssign(target=ast.Name(n.target.id, ast.Store()), op=ast.Add(), value=ast.Constant(1))
            return [init] + s._mk(n, ast.Constant(True), n.body, [], pre=[inc])
        return n


def cut_transform(only=None):
    def tr(tree):
        t = CutTransform(only)
        return t.visit(tree)
    return tr


def driver():
    if Driver.cur is None:
        raise Unsupported("unbounded loop outside of a driver")
    return Driver.cur


# ------------------------------------------------------------------ state graph
def is_container(v):
    if isinstance(v, (Node, str, bytes, type, types.FunctionType, types.MethodType, types.ModuleType, types.BuiltinFunctionType)):
        return False
    if isinstance(v, (_np.ndarray, list, tuple, dict, types.SimpleNamespace)):
        return True
    return getattr(type(v), "__module__", "").startswith("pyqlaw_sym") and hasattr(v, "__dict__")


def is_number(v):
    return (isinstance(v, Node) and not isinstance(v, BNode)) or \
        (isinstance(v, (int, float, _np.floating, _np.integer)) and not isinstance(v, bool))


def is_boolean(v):
    return isinstance(v, (bool, BNode, _np.bool_))


def children(v, path, grown):
    """[(path, child)] of a container; a list in `grown` shows its last element only."""
    if isinstance(v, _np.ndarray):
        return [(f"{path}[{','.join(map(str, i))}]", v[i]) for i in _np.ndindex(*v.shape)]
    if isinstance(v, SymList):
        return [(f"{path}[-1]", v[-1])]
    if isinstance(v, (list, tuple)):
        if path in grown:
            return [(f"{path}[-1]", v[-1])] if len(v) else []
        return [(f"{path}[{i}]", x) for i, x in enumerate(v)]
    if isinstance(v, dict):
        return [(f"{path}.{k}" if path else str(k), x) for k, x in v.items()]
    return [(f"{path}.{k}", x) for k, x in vars(v).items()]


def leaves(roots, grown=()):
    """path -> leaf value; second visits of the same mutable object become ('alias', first path)."""
    out, memo, lens = {}, {}, {}

    def walk(v, path):
        if is_container(v):
            if not isinstance(v, tuple):
                if id(v) in memo:
                    out[path] = ("alias", memo[id(v)])
                    return
                memo[id(v)] = path
            if isinstance(v, (list, tuple)) and not isinstance(v, SymList):
                lens[path] = len(v)
            if isinstance(v, SymList):
                lens[path] = "sym"
            if isinstance(v, _np.ndarray):
                lens[path] = v.shape
            for p, c in children(v, path, grown):
                walk(c, p)
        else:
            out[path] = v
    walk(dict(roots), "")
    return out, lens


def kind(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "alias":
        return v
    if is_boolean(v):
        return "bool"
    if is_number(v):
        return "num"
    return ("const", v if isinstance(v, (str, bytes, type(None))) else id(v) if not callable(v) else getattr(v, "__qualname__", "fn"))


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b if isinstance(a, tuple) and isinstance(b, tuple) else False
    if is_number(a) and is_number(b):
        return lift(a) is lift(b)
    if is_boolean(a) and is_boolean(b):
        return T._b(a) is T._b(b)
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return a.__func__ is b.__func__
    return a is b or (isinstance(a, (str, bytes)) and a == b)


def generalise(roots, changed, grown, rep, boolval, lenvar, live=None):
    """Deep copy of a state with the changed leaves replaced by rep(path) / boolval(path) and grown lists by SymLists.

    live: instances of the package reachable from the entry state, updated in place (callers hold references to them)."""
    memo = {}
    live = live or {}

    def gen(v, path):
        if not is_container(v):
            if path in changed:
                if is_boolean(v):
                    return boolval(path)
                if is_number(v):
                    return rep(path)
                raise Unsupported(f"loop-carried value of type {type(v).__name__} at {path}")
            return v
        if not isinstance(v, tuple) and id(v) in memo:
            return memo[id(v)]
        if isinstance(v, _np.ndarray):
            out = _np.empty(v.shape, dtype=object)
            memo[id(v)] = out
            for i in _np.ndindex(*v.shape):
                out[i] = gen(v[i], f"{path}[{','.join(map(str, i))}]")
            return out
        if isinstance(v, (list, SymList)) and path in grown:
            out = SymList(path, None, lenvar(path))
            memo[id(v)] = out
            out.last0 = gen(v[-1], f"{path}[-1]")
            return out
        if isinstance(v, list):
            out = []
            memo[id(v)] = out
            out.extend(gen(x, f"{path}[{i}]") for i, x in enumerate(v))
            return out
        if isinstance(v, tuple):
            return tuple(gen(x, f"{path}[{i}]") for i, x in enumerate(v))
        if isinstance(v, dict):
            out = {}
            memo[id(v)] = out
            for k, x in v.items():
                out[k] = gen(x, f"{path}.{k}" if path else str(k))
            return out
        out = live.get(path)
        if out is None or type(out) is not type(v):
            out = object.__new__(type(v))
        memo[id(v)] = out
        for k in list(vars(out)):
            if k not in vars(v):
                del out.__dict__[k]
        for k, x in list(vars(v).items()):
            nx = gen(x, f"{path}.{k}")
            if isinstance(nx, types.MethodType) and id(nx.__self__) in memo:
                nx = types.MethodType(nx.__func__, memo[id(nx.__self__)])
            out.__dict__[k] = nx
        return out
    return gen(dict(roots), "")
