"""C15: effectivity thresholds."""
import ast
import inspect
import textwrap
import types
from pyvc import loader
from .common import *
from .spec import *
from .solver import Cfg, World, flat, SETTINGS
from .solverchecks import solver_units, ASSUMPTIONS as BASE
from . import trace

ASSUMPTIONS = BASE + [
    "evaluate_osculating_qdot is verified for a symbolic grid size by executing its loop on two generic grid points; a syntactic check establishes that "
    "the loop carries nothing but the list it appends to; the extremum of that list is the one built-in max/min with key return",
]


class Idx:
    """Generic positions of a sampled axis and the elements there."""
    def __init__(s, elems, idx, n, lo, log):
        s.elems, s.idx, s.n, s.lo, s.log = elems, idx, n, lo, log        # elements elem(j) for j = idx, j in lo..N+n-1

    def __iter__(s):
        if any(a is not s for a in s.log):
            raise Unsupported("several axes are iterated")
        s.log.append(s)
        return iter(s.elems)

    def __len__(s):
        raise Unsupported("length of a symbolic axis")

    def __getitem__(s, k):
        if isinstance(k, slice) and k.step is None:
            if k.start in (None, 0, 1) and k.stop in (None, -1):
                return Idx(s.elems, s.idx, s.n - (1 if k.stop == -1 else 0), s.lo + (k.start or 0), s.log)
        raise Unsupported("indexing of a symbolic axis")


class Count:
    """The symbolic grid size N plus a constant."""
    def __init__(s, c=0, log=None):
        s.c, s.log = c, log

    def __add__(s, k):
        if not isinstance(k, int):
            raise Unsupported("arithmetic on the grid size")
        return Count(s.c + k, s.log)
    __radd__ = __add__

    def __sub__(s, k):
        return s + (-k)

    def __pyvc_linspace__(s, a, b, endpoint):
        N = var("N", pos=True)
        js = [var("j1"), var("j2")]
        d = N + s.c - (1 if endpoint else 0)
        return Idx([a + (b - a) * j / d for j in js], js, s.c, 0, s.log)


def loop_carried(fn):
    """Names a loop body reads before writing although it writes them."""
    tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    bad = set()
    for loop in ast.walk(tree):
        if not isinstance(loop, ast.For):
            continue
        target = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        wr = set()
        for n in ast.walk(ast.Module(body=loop.body, type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                wr.add(n.id)
            if isinstance(n, (ast.AugAssign, ast.Break, ast.Continue, ast.While, ast.Global, ast.Nonlocal, ast.NamedExpr)):
                bad.add(type(n).__name__)
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if not (isinstance(n.value, ast.Name) and n.value.id in wr):
                    bad.add("store to " + ast.unparse(n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "insert", "remove", "extend", "clear", "setdefault"):
                bad.add(n.func.attr)
        done = set(target)
        for st in loop.body:
            reads = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            bad |= (reads & wr) - done
            done |= {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return bad


class Ext:
    """Extremum of a list over all grid points."""
    def __init__(s, big, key, elem, idx):
        s.big, s.key, s.elem, s.idx = big, key, elem, idx


def u_grid(kind):
    def run(u):
        w = World(Cfg(kind=kind))
        v = w.inputs()
        log = []
        ext = []

        def mk(big, orig):
            def f(*a, key=None, **k):
                if len(a) == 1 and isinstance(a[0], (list, tuple)) and log:
                    idx = log[-1].idx
                    if len(a[0]) != 2 or k:
                        raise Unsupported("extremum of another list")
                    x0, x1 = [lift(x) for x in a[0]]
                    y = T.substitute([x0], {idx[0].uid: idx[1]})[0]
                    if y is not x1:
                        raise Unsupported("an element of the list depends on an earlier grid point")
                    e = Ext(big, None if key is None else lift(key(x0)), x0, idx[0])
                    ext.append(e)
                    return e
                return orig(*a, key=key, **k)
            return f
        w.mod.__dict__["max"], w.mod.__dict__["min"] = mk(True, loader.shim_max), mk(False, loader.shim_min)

        def call():
            log.clear()
            q = w.construct(v, stale=False)
            q.anomaly_grid_size = Count(0, log)
            acc = var("acc")
            oe = [var(f"x{i}") for i in range(6)]
            r = q.evaluate_osculating_qdot(obj(list(oe)), acc)
            return r, acc, oe
        carried = loop_carried(w.mod.QLaw.evaluate_osculating_qdot)
        if carried:
            raise Unsupported(f"loop of evaluate_osculating_qdot carries {sorted(carried)}")
        ps = u.explore(call, w.pre(v))
        for p in single(u, "evaluate_osculating_qdot", ps):
            (r1, r2), acc, oe = p.result
            if not (isinstance(r1, Ext) and isinstance(r2, Ext)):
                raise Unsupported("result is not an extremum over the grid")
            ax = log[-1]
            j = ax.idx[0]
            N = var("N", pos=True)
            # grid: N points, one period apart in total, containing the current position modulo one turn
            n_pts = ax.n - ax.lo
            u.holds("the revolution is sampled at as many points as configured", n_pts == 0, f"N{n_pts:+d} points")
            x = ax.elems[0]
            u.identity("grid points are evenly spaced over one revolution from the current position", [(x, oe[5] + 2 * T.PI * j / N)])
            # lo in {0,1} and N points: the indices cover all residues modulo N, so the current position (index 0 or N) is included
            u.holds("the current position is sampled", ax.lo in (0, 1) and n_pts == 0, f"first index {ax.lo}")
            want = None
            ev = [e for e in p.events if e.name == "dqdt"]
            u.holds("every grid point is evaluated once", len(ev) == 2, f"{len(ev)} evaluations")
            for e, xx in zip(ev, ax.elems):
                a_ = e.args
                u.holds("rate evaluator of the element set", a_["kind"] == kind)
                u.identity("rate is evaluated at the grid point with the current slow elements", list(zip(flat(a_["oe"]), oe[:5] + [xx])))
                u.identity("rate is evaluated with the thrust acceleration given", [(a_["f"], acc)])
                u.identity("rate is evaluated with the settings in their own roles",
                           [(a_[n], v[n]) for n in SETTINGS + ("mu",)] + list(zip(flat(a_["woe"]), v["woe"])) + list(zip(flat(a_["oeT"])[:5], v["oeT"][:5])))
                if e is ev[0]:
                    want = e.result
            for e, big, nm in ((r1, True, "first result"), (r2, False, "second result")):
                u.holds(f"{nm} is the {'largest' if big else 'smallest'} in magnitude", e.big is big and e.key is not None, f"max={e.big} key={e.key is not None}")
                u.identity(f"{nm} ranges over the rates", [(e.elem, want)])
                if e.key is not None:
                    u.identity(f"{nm} compares magnitudes", [(e.key, T.absn(want))])
    return run


def gen_grid(kind):
    def g(rng, k):
        sc = trace.base(rng, kind)
        trace.f_settings(rng, sc)
        sc["grid"] = rng.choice([2, 3, 4, 5, 7, 16, 40])
        sc["oeT"] = sc["oeT"][:5]
        return {"sc": sc, "acc": rng.choice([-1, 1]) * rng.uniform(.001, .1)}
    return g


def c_grid(kind):
    def chk(x):
        sc, acc = x["sc"], x["acc"]
        q = trace.build(sc)
        trace.setup(q, sc)
        p = trace.Probe(sc)
        trace.Probe.cur = p
        try:
            with np.errstate(all="ignore"):
                r = q.evaluate_osculating_qdot(np.array(sc["oe0"]), acc)
        finally:
            trace.Probe.cur = None
        R = trace.ref_rates(sc, np.array(sc["oe0"]), acc)
        got = sorted(abs(float(z)) for z in r)
        if not (trace.close(got[1], max(R), 1e-7) and trace.close(got[0], min(R), 1e-7)):
            return f"extremes {got}, rates over the revolution {[min(R), max(R)]}"
        return None
    return sampled(gen_grid(kind), chk)


def u_types(u):
    w = World(Cfg())
    v = w.inputs()
    for what, val in (("a string", "0.3"), ("None", None), ("a list", [0.3])):
        for pos in (0, 1):
            def call():
                q = w.construct(v)
                a = [0.0, 0.0]
                a[pos] = val
                try:
                    q.solve(*a)
                except (ValueError, TypeError):
                    return "rejected"
                except engine.Infeasible:
                    raise
                return "accepted"
            ps = u.explore(call, w.pre(v) + [eq(v["tf_max"], ZERO)])
            u.holds(f"{'eta_a' if pos == 0 else 'eta_r'} given as {what} is rejected", bool(ps) and all(p.result == "rejected" for p in ps))


def c_types():
    def chk(x):
        sc = x["sc"]
        q = trace.build(sc)
        trace.setup(q, sc)
        a = [0.0, 0.0]
        a[x["pos"]] = {"s": "0.3", "n": None, "l": [0.3]}[x["val"]]
        try:
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                q.solve(*a)
        except (ValueError, TypeError):
            return None
        return f"{'eta_a' if x['pos'] == 0 else 'eta_r'}={a[x['pos']]!r} is accepted"

    def g(rng, k):
        sc = trace.base(rng, "mee_with_a")
        sc["tf_max"] = 0.5
        return {"sc": sc, "pos": k % 2, "val": "snl"[(k // 2) % 3]}
    return sampled(g, chk)


def units():
    us = solver_units("C15")
    for kind in ("keplerian", "mee_with_a"):
        us.append(Unit(f"evaluate_osculating_qdot {kind}", u_grid(kind), c_grid(kind), func="QLaw.evaluate_osculating_qdot", samples=10, samples_bad=60, alarm=True, weight=3))
    us.append(Unit("threshold types", u_types, c_types(), func="QLaw.solve", samples=6, samples_bad=6, alarm=True))
    return us
