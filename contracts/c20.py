"""C20: settings reach the law under their own names; invalid ones are refused."""
import contextlib
import io
from .common import *
from .solver import Cfg, World, flat, SETTINGS
from .solverchecks import solver_units, ASSUMPTIONS as BASE
from . import trace

ASSUMPTIONS = BASE + ["assert statements are executed (python is not run with -O)",
                      "element-set and integrator names: any string that compares unequal to every string the code compares it with, and a list of near misses"]

REFUSE = (AssertionError, ValueError, TypeError, KeyError)


class Seq:
    """A sequence of symbolic length."""
    def __init__(s, name):
        s.name, s.n = name, var("len_" + name, integer=True, nonneg=True)

    def __pyvc_len__(s):
        return s.n

    def _known(s):
        for k in range(0, 12):
            if T.eq(s.n, lift(k)):
                return k
        raise Unsupported("use of a sequence of unbounded length")

    def __iter__(s):
        return iter([var(f"{s.name}{i}") for i in range(s._known())])

    def __getitem__(s, k):
        return [var(f"{s.name}{i}") for i in range(s._known())][k]

    def __pyvc_array__(s):
        return obj(list(s))

    def copy(s):
        return s


class Other(str):
    """Any string that differs from those it is compared with."""
    def __eq__(s, o):
        return s is o

    def __ne__(s, o):
        return s is not o
    __hash__ = None


def outcome(u, what, call, pre, refused, accepted=None):
    """Refused whenever `refused`; accepted whenever `accepted` (default: the complement)."""
    try:
        ps = u.explore(call, pre)
    except Unsupported:
        raise
    if not ps:
        raise Unsupported("no path")
    accepted = bnot(refused) if accepted is None else accepted
    for k, p in enumerate(ps):
        if p.exc is not None and not isinstance(p.exc, REFUSE):
            u.holds(f"{what}: refused cleanly [path {k}]", False, f"{type(p.exc).__name__}: {p.exc}")
        elif p.exc is not None:
            u.prove(f"{what}: only invalid values are refused [path {k}]", p.pc, bnot(accepted))
        else:
            u.prove(f"{what}: invalid values are never accepted [path {k}]", p.pc, bnot(refused))


def u_ctor(u):
    w = World(Cfg())
    Q = w.mod.QLaw
    mu, rf = var("mu"), var("relaxed_tol_factor")
    outcome(u, "gravitational parameter", lambda: Q(mu=mu), [], le(mu, ZERO))
    outcome(u, "relaxation factor", lambda: Q(relaxed_tol_factor=rf), [], lt(rf, ONE))
    outcome(u, "relaxation factor with given tolerances", lambda: Q(relaxed_tol_factor=rf, tol_oe=obj([var(f"tol{j}", pos=True) for j in range(5)])), [], lt(rf, ONE))
    tol = Seq("tol")
    for k in ("keplerian", "mee_with_a"):
        outcome(u, f"number of tolerances ({k})", lambda: Q(tol_oe=tol, elements_type=k), [], bnot(eq(tol.n, lift(5))))
    for nm in ("keplerian", "mee_with_a"):
        for it in ("rk4", "rkf45"):
            outcome(u, f"{nm} with {it} is available", lambda: Q(elements_type=nm, integrator=it), [], T.FALSE)
    for arg in ("elements_type", "integrator"):
        for bad in [Other("?"), "", None, 1] + list(NEAR[arg]):
            outcome(u, f"unknown {arg} {'(any other string)' if isinstance(bad, Other) else repr(bad)}", lambda: Q(**{arg: bad}), [], T.TRUE, T.FALSE)


NEAR = {"elements_type": ("kep", "Keplerian", "mee", "mee_with_", "with_a", "equinoctial", "keplerian,", "cartesian", "e"),
        "integrator": ("rk", "rk45", "RK4", "rkf4", "rk4 ", "euler", "dop853", "4", "f45")}


def u_setter(u):
    w = World(Cfg())
    Q = w.mod.QLaw
    mu = var("mu")

    def kept(attr, value):
        def call():
            q = Q(mu=1.5)
            old = getattr(q, attr)
            try:
                setattr(q, attr, value)
            except REFUSE:
                now = getattr(q, attr)
                if now is not old and not (isinstance(now, T.Node) or now == old):
                    raise RuntimeError(f"a refused {attr} is kept")
                if isinstance(now, T.Node):
                    raise RuntimeError(f"a refused {attr} is kept")
                raise
            return getattr(q, attr)
        return call
    outcome(u, "assigned gravitational parameter", kept("mu", mu), [], le(mu, ZERO))
    for arg in ("elements_type", "integrator"):
        for bad in (Other("?"), "", NEAR[arg][0], NEAR[arg][1]):
            outcome(u, f"assigned unknown {arg} {'(any other string)' if isinstance(bad, Other) else repr(bad)}", kept(arg, bad), [], T.TRUE, T.FALSE)
    for p in single(u, "assigned gravitational parameter", u.explore(kept("mu", mu), [lt(ZERO, mu)])):
        u.identity("the assigned gravitational parameter is used", [(p.result, mu)])


def u_problem(kind):
    def run(u):
        w = World(Cfg(kind=kind))
        Q = w.mod.QLaw
        ok = lambda n, k: obj([var(f"{n}{i}") for i in range(k)])
        mm = var("mass_min")
        base = lambda: dict(oe0=ok("x", 6), oeT=ok("y", 5), mass0=var("m0", pos=True), tmax=var("tmax", pos=True), mdot=var("mdot", nonneg=True))

        def setp(**k):
            def call():
                q = Q(elements_type=kind)
                d = base()
                d.update(k)
                q.set_problem(d.pop("oe0"), d.pop("oeT"), d.pop("mass0"), d.pop("tmax"), d.pop("mdot"), **d)
                return q
            return call
        s = Seq("s")
        outcome(u, "number of initial elements", setp(oe0=s), [], bnot(eq(s.n, lift(6))))
        outcome(u, "number of target elements", setp(oeT=s), [], band(bnot(eq(s.n, lift(5))), bnot(eq(s.n, lift(6)))), eq(s.n, lift(5)))
        outcome(u, "number of weights", setp(woe=s), [], bnot(eq(s.n, lift(5))))
        outcome(u, "minimum mass", setp(mass_min=mm), [], lt(mm, T.lift(1e-2)), lt(T.lift(1e-2), mm))
        outcome(u, "valid problem", setp(), [], T.FALSE)

        def early(args):
            def call():
                q = Q(elements_type=kind)
                q.solve(*args)
            return call
        for args in ((), (0.0, 0.0), (0.3, 0.2)):
            ps = u.explore(early(args), [])
            u.holds(f"solving before a problem is set is refused {args}", bool(ps) and all(isinstance(p.exc, REFUSE + (AttributeError, RuntimeError)) for p in ps),
                    str([p.exc for p in ps])[:200])

        # a refused problem does not make the object ready
        def half(**k):
            def call():
                try:
                    setp(**k)()
                except REFUSE:
                    pass
                q = Q(elements_type=kind)
                d = base()
                d.update(k)
                try:
                    q.set_problem(d.pop("oe0"), d.pop("oeT"), d.pop("mass0"), d.pop("tmax"), d.pop("mdot"), **d)
                except REFUSE:
                    pass
                q.solve()
            return call
        for nm, k in (("initial elements", dict(oe0=ok("x", 5))), ("target", dict(oeT=ok("y", 4))), ("weights", dict(woe=ok("z", 4))), ("minimum mass", dict(mass_min=1e-3))):
            ps = u.explore(half(**k), [])
            u.holds(f"solving after only a refused problem ({nm}) is refused", bool(ps) and all(isinstance(p.exc, REFUSE + (AttributeError, RuntimeError)) for p in ps),
                    str([p.exc for p in ps])[:200])
    return run


# ------------------------------------------------------------------ the same on the real class
def g_reject(rng, k):
    kinds = ["keplerian", "mee_with_a"]
    return {"case": CASES[k % len(CASES)], "kind": rng.choice(kinds), "r": rng.random(), "n": rng.choice([0, 1, 2, 3, 4, 6, 7, 8, 10]),
            "name": rng.choice(["", "kep", "Keplerian", "mee", "rk", "rk45", "RK4", "euler", "q"]), "ok": rng.random() < 0.4}


CASES = ("mu", "mu_set", "rf", "tol", "kind", "kind_set", "integ", "integ_set", "oe0", "oeT", "woe", "mm", "early", "half")


def chk_reject(x):
    Q = realmod("_qlaw").QLaw
    c, ok, kind = x["case"], x["ok"], x["kind"]
    bad = None

    def problem(q, **k):
        d = dict(oe0=np.array([1.2, .1, .2, .1, .1, .3]), oeT=np.array([1.5, .1, .2, .1, .1]), mass0=1.0, tmax=.01, mdot=.001)
        d.update(k)
        q.set_problem(d.pop("oe0"), d.pop("oeT"), d.pop("mass0"), d.pop("tmax"), d.pop("mdot"), **d)
        return q
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if c == "mu":
                v = x["r"] + 1e-6 if ok else -x["r"] if x["n"] else 0.0
                bad = f"mu={v}"
                Q(mu=v)
            elif c == "mu_set":
                q = Q(elements_type=kind)
                v = x["r"] + 1e-6 if ok else -x["r"] if x["n"] else 0.0
                bad = f"q.mu={v}"
                q.mu = v
            elif c == "rf":
                v = 1 + x["r"] * 3 if ok else x["r"]
                bad = f"relaxed_tol_factor={v}"
                Q(relaxed_tol_factor=v)
            elif c == "tol":
                n = 5 if ok else x["n"]
                bad = f"{n} tolerances"
                Q(tol_oe=[1e-3] * n, elements_type=kind)
            elif c in ("kind", "kind_set"):
                v = kind if ok else x["name"]
                bad = f"elements_type={v!r}"
                if c == "kind":
                    Q(elements_type=v)
                else:
                    Q().elements_type = v
            elif c in ("integ", "integ_set"):
                v = ("rk4" if x["n"] % 2 else "rkf45") if ok else x["name"]
                bad = f"integrator={v!r}"
                if c == "integ":
                    Q(integrator=v)
                else:
                    Q().integrator = v
            elif c in ("oe0", "oeT", "woe"):
                n = (6 if c == "oe0" else 5) if ok else x["n"]
                if not ok and ((c == "oe0" and n == 6) or (c == "oeT" and n == 6)):
                    n = 9
                bad = f"{c} of length {n}"
                problem(Q(elements_type=kind), **{c: np.full(n, .3) if x["r"] < .5 else [.3] * n})
            elif c == "mm":
                v = 1e-2 + x["r"] if ok else 1e-2 * x["r"] * .999 - (1 if x["n"] == 0 else 0)
                bad = f"mass_min={v}"
                problem(Q(elements_type=kind), mass_min=v)
            elif c == "early":
                ok = False
                bad = "solve before set_problem"
                Q(elements_type=kind).solve(*([] if x["r"] < .5 else [.1, .1]))
            elif c == "half":
                ok = False
                bad = "solve after a refused problem only"
                q = Q(elements_type=kind)
                try:
                    problem(q, **[dict(oe0=[1.0] * 5), dict(oeT=[1.0] * 4), dict(woe=[1.0] * 4), dict(mass_min=1e-3)][x["n"] % 4])
                except REFUSE:
                    pass
                q.solve()
    except REFUSE + (AttributeError, RuntimeError) as e:
        return f"{bad} is refused: {e}" if ok else None
    return None if ok else f"{bad} is accepted"


def units():
    us = solver_units("C20")
    conc = sampled(g_reject, chk_reject)
    for nm, f in (("constructor", u_ctor), ("setters", u_setter), ("set_problem keplerian", u_problem("keplerian")), ("set_problem mee_with_a", u_problem("mee_with_a"))):
        us.append(Unit("refusals: " + nm, f, conc, func="QLaw.set_problem" if "problem" in nm else "QLaw.__init__", samples=3 * len(CASES), samples_bad=20 * len(CASES), alarm=True, weight=2))
    return us
