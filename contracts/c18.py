"""C18: exports and Cartesian histories."""
import contextlib
import inspect
import io
import json
import os
import tempfile
import types
from .common import *
from .spec import *
from .solver import Cfg, World, flat
from . import trace, uniform
from .uniform import Hist, N

ASSUMPTIONS = [
    "numpy, json and copy.deepcopy behave as documented; scipy's interp1d is a function of the abscissae, ordinates, kind and evaluation time (its accuracy is not examined)",
    "histories of arbitrary length: executed on entries that are all arbitrary, with every dependence on the length refused (contracts/uniform.py)",
    "elements are those of an elliptic orbit; kep2sv and mee_with_a2sv by contract (C06), other conversions are executed",
]


def history(w, kind, v, q=None, tag="", same=()):
    """A solved object with histories of length n and arbitrary entries (those of kinds in same keep their names)."""
    q = w.construct(v, stale=False) if q is None else q
    def var(n, **k):
        return T.var(n if n[0] in same else tag + n, **k)
    names = ("a", "e", "i", "raan", "aop", "ta") if kind == "keplerian" else ("a", "f", "g", "h", "k", "L")
    at = {"a": {"pos": True}, "e": {"unit": True}}
    st = [[var(f"{n}_{k}", **at.get(n, {})) for n in names] for k in range(N)]
    d = dict(t=[ZERO] + [var(f"t_{k}") for k in range(1, N)], x=st, m=[var(f"m_{k}", pos=True) for k in range(N)],
             u=[[var(f"{n}_{k}") for n in ("alpha", "beta", "throttle")] for k in range(N - 1)])
    q.times, q.states, q.masses = Hist(d["t"]), Hist([obj(list(x)) for x in st]), Hist(d["m"])
    q.battery = Hist([var(f"b_{k}") for k in range(N)])
    q.controls = Hist([list(c) for c in d["u"]])
    q.etas = Hist([[var(f"va_{k}"), var(f"vr_{k}")] for k in range(N - 1)])
    q.etas_bounds = Hist([[var(f"ea_{k}"), var(f"er_{k}")] for k in range(N - 1)])
    q.Qs, q.dQdts = Hist([var(f"Q_{k}") for k in range(N - 1)]), Hist([var(f"dQ_{k}") for k in range(N - 1)])
    q.converge, q.exitcode = True, 1
    d["pre"] = []
    return q, d


class Disk:
    """open() and json of the module under verification."""
    def __init__(s, mod):
        s.files, s.dumped = [], []

        class File:
            def __init__(f, path, mode):
                f.path, f.mode, f.content = path, mode, []
                s.files.append(f)

            def write(f, x):
                f.content.append(x)
            def flush(f): pass
            def close(f): pass
            def __enter__(f): return f
            def __exit__(f, *a): return False

        class Text:
            def __init__(t, data):
                t.data = data

        def op(path, mode="r", *a, **k):
            return File(path, mode)

        def dump(o, f, *a, **k):
            s.opts(k)
            f.write(Text(s.plain(o)))

        def dumps(o, *a, **k):
            s.opts(k)
            return Text(s.plain(o))
        s.Text = Text
        real = mod.__dict__["json"]
        mod.__dict__["json"] = types.SimpleNamespace(dump=dump, dumps=dumps, JSONEncoder=real.JSONEncoder)
        mod.__dict__["open"] = op

    def opts(s, k):
        if k.get("default") or k.get("skipkeys"):
            raise Unsupported("json options")

    def plain(s, o):
        if isinstance(o, dict):
            return {k: s.plain(x) for k, x in o.items()}
        if isinstance(o, (list, tuple)):
            return [s.plain(x) for x in o]
        if isinstance(o, np.ndarray):
            return s.plain(o.tolist())
        return o


def rows(x):
    if isinstance(x, np.ndarray):
        return [list(r) if isinstance(r, np.ndarray) else r for r in x]
    return [list(r) if isinstance(r, (list, tuple, np.ndarray)) else r for r in x]


def uniformity(u, ex):
    why = sorted(ex.carried()) + uniform.NON_UNIFORM
    if why:
        u.unsupported.append("bounded (histories of length 8): " + "; ".join(why)[:400])
    else:
        u.holds("every entry is treated alike, whatever the length of the history", True)


def per_entry(u, what, pairs_of, n, kind, cons=()):
    """One identity obligation for generic entries (all entries are arbitrary)."""
    ok = []
    for k in range(n):
        ok += pairs_of(k)
    u.identity(what, ok, cons=list(cons))


def dom(kind, st):
    out = []
    for x in st:
        if kind == "keplerian":
            out += [lt(ZERO, 1 - x[1] * x[1]), lt(ZERO, 1 + x[1] * T.cos(x[5]))]
        else:
            out += [lt(ZERO, 1 - x[1] * x[1] - x[2] * x[2]), lt(ZERO, 1 + x[1] * T.cos(x[5]) + x[2] * T.sin(x[5]))]
    return out


def to_mee(kind, x):
    if kind == "keplerian":
        return kep_to_mee(SYM, x)
    return [x[0] * (1 - x[1] * x[1] - x[2] * x[2])] + list(x[1:])


def to_rv(kind, x, mu):
    if kind == "keplerian":
        return kep_to_rv(SYM, x, mu)
    return mee_to_rv(SYM, to_mee(kind, x), mu)


class SvWorld(World):
    """Callee contract of kep2sv and mee_with_a2sv (C06): the Cartesian state of the elements."""
    def stub(s):
        super().stub()
        els = s.pkg.load("_elements")
        for nm, kind in (("kep2sv", "keplerian"), ("mee_with_a2sv", "mee_with_a")):
            b = inspect.signature(getattr(els, nm))

            def sv(*a, _b=b, _k=kind, **k):
                x, mu = list(_b.bind(*a, **k).arguments.values())
                x = flat(x)
                if len(x) != 6:
                    raise ValueError("expected 6 elements")
                return obj(to_rv(_k, x, lift(mu)))
            setattr(els, nm, sv)


def world(kind):
    w = SvWorld(Cfg(kind=kind))
    uniform.install(w.pkg)
    uniform.NON_UNIFORM.clear()
    return w


def u_dict(kind, angles, path):
    def run(u):
        w = world(kind)
        v = w.inputs()
        disk = Disk(w.mod)
        units_ = {"LU": 1.5}
        box = {}

        def call():
            disk.files.clear()
            q, d = history(w, kind, v)
            box["d"] = d
            args = [path] + ([units_] if path else [])
            return (q.save_to_dict(*args, save_control_angles=True) if angles else q.save_to_dict(*args)), list(disk.files)
        with uniform.Executed() as ex:
            ps = u.explore(call, w.pre(v))
        for p in single(u, "save_to_dict", ps):
            r, files = p.result
            d = box["d"]
            st = rows(r["states"])
            u.holds("one state for every recorded time", len(st) == N and all(len(x) == 7 for x in st), f"{len(st)} of {N}")
            if len(st) != N:
                continue
            cons = dom(kind, d["x"])
            for k in range(N):
                want = to_mee(kind, d["x"][k])
                got = [lift(x) for x in st[k]]
                sub = [c for c in cons if any(n.op == "v" and n.data[0].endswith(f"_{k}") for n in T.topo([c]))]
                u.identity(f"entry {k} of the states is the equinoctial state and mass" if k in (0, 1, N - 1) else f"entry {k} of the states", list(zip(got[:5] + got[6:], want[:5] + [d["m"][k]]))
                           + cis_eq(got[5], want[5]), cons=sub)
            tm = rows(r["times"])
            u.holds("one time for every recorded time", len(tm) == N)
            u.identity("exported times are the recorded ones", list(zip(tm, d["t"])) + [(lift(r["t0"]), ZERO), (lift(r["tf"]), d["t"][-1])])
            cs = rows(r["controls"])
            wd = 3 if angles else 4
            u.holds("controls padded to one entry per time", len(cs) == N and all(len(c) == wd for c in cs), f"{[len(c) for c in cs]}")
            if len(cs) == N and all(len(c) == wd for c in cs):
                pr = []
                for k in range(N - 1):
                    al, be, th = d["u"][k]
                    want = [al, be, th] if angles else [T.cos(be) * T.sin(al), T.cos(be) * T.cos(al), T.sin(be), th]
                    pr += list(zip([lift(x) for x in cs[k]], want))
                u.identity("exported controls are the applied directions and throttles", pr)
                u.identity("the padding entry coasts", [(lift(cs[-1][-1]), ZERO)])
                if not angles:
                    u.identity("the padding direction is a unit vector", [(sum((lift(x) * lift(x) for x in cs[-1][:3]), ZERO), ONE)])
            if path:
                u.holds("canonical units are exported as given", r.get("canonical_units") == units_)
                ok = len(files) == 1 and files[0].path == path and files[0].mode in ("w", "wt", "w+") and len(files[0].content) == 1 and isinstance(files[0].content[0], disk.Text)
                u.holds("one json document is written to the given file", ok, str([(f.path, f.mode, len(f.content)) for f in files]))
                if ok:
                    u.holds("the file stores the same data", same_data(files[0].content[0].data, disk.plain(r)))
            else:
                u.holds("no file without a path", not files, str([f.path for f in files]))
        uniformity(u, ex)
    return run


def same_data(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_data(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_data(x, y) for x, y in zip(a, b))
    if isinstance(a, T.Node) or isinstance(b, T.Node):
        return lift(a) is lift(b)
    return a == b


class Steps:
    """An arbitrary number of evaluation times, represented by N of them."""


def interp1d(x, y, kind="linear", **k):
    if k:
        raise Unsupported(f"interp1d options {sorted(k)}")
    xs, ys = flat(list(x)), flat(list(y))
    if len(xs) != len(ys):
        raise ValueError("x and y arrays must be equal in length along interpolation axis.")

    def f(t):
        if isinstance(t, np.ndarray):
            out = np.empty(t.shape, dtype=object)
            for i in np.ndindex(*t.shape):
                out[i] = T.uf("interp:" + str(kind), *(xs + ys + [lift(t[i])]))
            return out
        return T.uf("interp:" + str(kind), *(xs + ys + [lift(t)]))
    return f


def u_cart(kind, mode):
    def run(u):
        w = world(kind)
        v = w.inputs()
        box = {}

        w.mod.__dict__["interp1d"] = interp1d
        n = uniform.Rep(N)
        np_ = w.mod.__dict__["np"]
        if mode == "default steps":
            # the number of evaluation times is computed from the duration; N times stand for it
            def lin(a, b, k=50, *r, **kw):
                return np_.linspace(a, b, N if isinstance(k, T.Node) else k, *r, **kw)

            def zeros(shape, *r, **kw):
                if isinstance(shape, tuple):
                    shape = tuple(N if isinstance(x, T.Node) else x for x in shape)
                return np_.zeros(shape, *r, **kw)
            w.mod.__dict__["np"] = Proxy(np_, linspace=lin, zeros=zeros)

        def call():
            q, d = history(w, kind, v)
            box["d"] = d
            if mode == "recorded":
                return q.get_cartesian_history(get_t_evals=True), q.get_cartesian_history()
            k = {} if mode == "default steps" else {"steps": n}
            if mode == "given kind":
                k["kind"] = "cubic"
            return q.get_cartesian_history(interpolate=True, get_t_evals=True, **k), q.get_cartesian_history(interpolate=True, **k)
        with uniform.Executed() as ex:
            ps = u.explore(call, w.pre(v))
        for p in single(u, "get_cartesian_history", ps):
            (c1, te), c2 = p.result
            d = box["d"]
            mu = v["mu"]
            ok = all(isinstance(c, np.ndarray) and c.shape == (6, N) for c in (c1, c2))
            u.holds("one Cartesian state per evaluation time", ok, f"{getattr(c1, 'shape', None)}")
            if not ok:
                continue
            u.holds("asking for the times does not change the history", all(lift(a) is lift(b) for a, b in zip(c1.ravel(), c2.ravel())))
            xs = d["x"]
            if mode != "recorded":
                ts = [d["t"][0] + (d["t"][-1] - d["t"][0]) * T.const(T.Fraction(k, N - 1)) for k in range(N)]
                if te is not None:
                    u.identity("evaluation times are evenly spaced and span the run", list(zip(flat(te), ts)) if len(flat(te)) == N else [(ONE, ZERO)])
                nm = "interp:" + {"given kind": "cubic"}.get(mode, "quadratic")
                ev = flat(te) if te is not None and len(flat(te)) == N else ts
                xs = [[T.uf(nm, *(d["t"] + [x[j] for x in d["x"]] + [ev[k]])) for j in range(6)] for k in range(N)]
                # fresh names for the interpolated elements
                names = ("a", "e", "i", "raan", "aop", "ta") if kind == "keplerian" else ("a", "f", "g", "h", "k", "L")
                at = {"a": {"pos": True}, "e": {"unit": True}}
                fresh = [[var(f"i{n_}_{k}", **at.get(n_, {})) for n_ in names] for k in range(N)]
                m = {xs[k][j].uid: fresh[k][j] for k in range(N) for j in range(6)}
                g = T.substitute([lift(x) for x in c1.ravel()], m)
                left = [x for x in T.topo(g) if x.op == "uf"]
                u.holds("every state is interpolated at its own time from the recorded histories", not left, f"{len(left)} other interpolations")
                if left:
                    continue
                c1 = np.array(g, dtype=object).reshape(6, N)
                xs = fresh
            for k in range(N):
                u.identity(f"state {k} is the Cartesian state of its elements", list(zip([lift(x) for x in c1[:, k]], to_rv(kind, xs[k], mu))), cons=dom(kind, [xs[k]]))
        uniformity(u, ex)
    return run


class Proxy:
    def __init__(s, base, **k):
        s.__dict__.update(k, _base=base)

    def __getattr__(s, n):
        return getattr(s._base, n)


# ------------------------------------------------------------------ the exports are functions of the current record
def u_current(kind, same):
    """Exports of one run, then of another on the same object: the latter are those of a new object holding the second run."""
    def run(u):
        calls = (lambda q: q.save_to_dict(None), lambda q: q.save_to_dict(None, save_control_angles=True), lambda q: q.get_cartesian_history(get_t_evals=True),
                 lambda q: q.get_cartesian_history(interpolate=True, steps=uniform.Rep(N), get_t_evals=True),
                 lambda q: [f(T.var("when")) for f in q.interpolate_states()], lambda q: [f(T.var("when")) for f in q.interpolate_states(kind="cubic")])
        names = ("dictionary", "dictionary with angles", "Cartesian history", "interpolated Cartesian history", "interpolants", "cubic interpolants")

        def leaf(x, out):
            if isinstance(x, dict):
                for k in sorted(x, key=str):
                    out.append(str(k))
                    leaf(x[k], out)
            elif isinstance(x, np.ndarray):
                leaf(list(x.ravel()), out)
            elif isinstance(x, (list, tuple)):
                out.append(len(x))
                for y in x:
                    leaf(y, out)
            else:
                out.append(lift(x) if isinstance(x, (int, float, np.number)) and not isinstance(x, bool) else x)
            return out

        def fresh():
            w = world(kind)
            w.mod.__dict__["interp1d"] = interp1d
            return w, w.inputs()

        def go():
            w, v = fresh()
            q, _ = history(w, kind, v)
            for f in calls:
                f(q)
            history(w, kind, v, q, "second_", same)
            two = [leaf(f(q), []) for f in calls]
            w, v = fresh()
            q, _ = history(w, kind, v, None, "second_", same)
            return two, [leaf(f(q), []) for f in calls]
        with uniform.Executed() as ex:
            w, v = fresh()
            ps = u.explore(go, w.pre(v))
        for p in single(u, "exports", ps):
            for nm, a, b in zip(names, *p.result):
                u.holds(f"{nm}: that of the run just recorded, whatever was exported before", len(a) == len(b) and all(x is y or (not isinstance(x, T.Node) and x == y) for x, y in zip(a, b)),
                        "differs from that of a new object")
        uniformity(u, ex)
    return run


# ------------------------------------------------------------------ on real solves
def gen(rng, k):
    sc = trace.base(rng, "mee_with_a" if k % 2 == 0 else "keplerian")
    for nm in rng.choice([("eta",), ("nan",), ("duty",), ("battery", "back"), ("settings",), ("pert",), ()]):
        trace.FAM[nm](rng, sc)
    sc["steps"] = rng.choice([2, 3, 9, 50, 201])
    sc["short"] = rng.choice([0, 0, 0, 0, 1, 2])
    return sc


def chk(sc):
    if sc["short"]:
        sc = dict(sc, tf_max=abs(sc["t_step"]) * 1.5 if sc["short"] == 1 else 0.0)
    try:
        q, p, args = trace.run(sc)
    except Exception:
        return None
    kind = sc["kind"]
    n = len(q.times)
    try:
        with contextlib.redirect_stdout(io.StringIO()), tempfile.TemporaryDirectory() as dd, np.errstate(all="ignore"):
            f = os.path.join(dd, "out.json")
            r = q.save_to_dict(f, {"LU": 2.0})
            ra = q.save_to_dict(None, save_control_angles=True)
            with open(f) as fh:
                rf = json.load(fh)
            left = os.listdir(dd)
            cart = q.get_cartesian_history()
            ci = ti = cd = ck = tk = fi = fl = None
            from scipy.interpolate import interp1d
            if n > 4:
                ci, ti = q.get_cartesian_history(interpolate=True, steps=sc["steps"], get_t_evals=True)
                cd, td = q.get_cartesian_history(interpolate=True, get_t_evals=True)
                ck, tk = q.get_cartesian_history(interpolate=True, steps=sc["steps"], kind="linear", get_t_evals=True)
                fl = [interp1d(np.array(q.times), np.array([s[j] for s in q.states]), kind="linear") for j in range(6)]
                fi = [interp1d(np.array(q.times), np.array([s[j] for s in q.states]), kind="quadratic") for j in range(6)]
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    if left != ["out.json"]:
        return f"files written: {left}"
    el = lambda x: kep_to_mee(FLT, x) if kind == "keplerian" else [x[0] * (1 - x[1] ** 2 - x[2] ** 2)] + list(x[1:])
    good = lambda x: (x[1] if kind == "keplerian" else math.hypot(x[1], x[2])) < 1 and x[0] > 0 and (kind != "keplerian" or abs(math.cos(x[2] / 2)) > 1e-3)
    rv = lambda x: kep_to_rv(FLT, x, sc["mu"]) if kind == "keplerian" else mee_to_rv(FLT, el(x), sc["mu"])
    for nm, z in (("dictionary", r), ("file", rf), ("dictionary with angles", ra)):
        S, C, tt = [list(map(float, x)) for x in z["states"]], [list(map(float, x)) for x in np.array(z["controls"]).tolist()], list(map(float, z["times"]))
        if len(S) != n or len(C) != n or len(tt) != n:
            return f"{nm}: {len(S)} states, {len(C)} controls, {len(tt)} times for {n} recorded times"
        if not allclose(tt, q.times) or not close(float(z["tf"]), q.times[-1]) or float(z["t0"]) != 0.0:
            return f"{nm}: times differ"
        for k in range(n):
            x = [float(y) for y in q.states[k]]
            if not good(x):
                continue
            w = el(x)
            if not allclose(S[k][:5] + [S[k][6]], w[:5] + [float(q.masses[k])], 1e-7, 1e-8) or not close(math.sin((S[k][5] - w[5]) / 2), 0, atol=1e-7):
                return f"{nm}: state {k} is {S[k]}, recorded state {x} mass {q.masses[k]}"
        for k in range(n - 1):
            al, be, th = [float(y) for y in q.controls[k]]
            w = [al, be, th] if z is ra else [math.cos(be) * math.sin(al), math.cos(be) * math.cos(al), math.sin(be), th]
            if not allclose(C[k], w):
                return f"{nm}: control {k} is {C[k]}, recorded {q.controls[k]}"
        if C[-1][-1] != 0:
            return f"{nm}: the padding entry has throttle {C[-1][-1]}"
    if rf.get("canonical_units") != {"LU": 2.0}:
        return "canonical units are not exported"
    if np.array(cart).shape != (6, n):
        return f"Cartesian history of shape {np.array(cart).shape}"
    for k in range(n):
        x = [float(y) for y in q.states[k]]
        if good(x) and not allclose(cart[:, k], rv(x), 1e-6, 1e-7):
            return f"Cartesian state {k} is {cart[:, k].tolist()}, elements {x}"
    for c, t, st, fs in ((ci, ti, sc["steps"], fi), (cd, None, None, fi), (ck, tk, sc["steps"], fl)):
        if c is None:
            continue
        m = c.shape[1]
        if st is not None and m != st:
            return f"{m} interpolated states for {st} steps"
        if m < 2:
            continue
        ts = np.linspace(q.times[0], q.times[-1], m)
        if t is not None and not allclose(t, ts):
            return "evaluation times are not evenly spaced over the run"
        for k in list(range(m))[:: max(1, m // 60)]:
            x = [float(g(min(max(ts[k], min(q.times)), max(q.times)))) for g in fs]
            if good(x) and not allclose(c[:, k], rv(x), 1e-5, 1e-6):
                return f"interpolated state {k} is {c[:, k].tolist()}, interpolated elements {x}"
    return None


def units():
    us = []
    con = sampled(gen, chk)
    for kind in ("keplerian", "mee_with_a"):
        for angles in (False, True):
            for path in (None, "out.json"):
                us.append(Unit(f"save_to_dict {kind}{' angles' if angles else ''}{' file' if path else ''}", u_dict(kind, angles, path), con, func="QLaw.save_to_dict",
                               samples=0, samples_bad=60, alarm=True))
        for mode in ("recorded", "given steps", "given kind", "default steps"):
            us.append(Unit(f"get_cartesian_history {kind} {mode}", u_cart(kind, mode), con, func="QLaw.get_cartesian_history", samples=0, samples_bad=60, alarm=True, weight=2))
    us.append(Unit("exports of real solves", None, con, func="QLaw.save_to_dict", samples=24, weight=3))
    return us
