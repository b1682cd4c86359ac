"""The callees of solve are functions of their arguments.

Every contract treats a callee as a function of what it is given.  Here each callee is executed on arguments A, then on B, then
on A again in one copy of the package, and on B alone in another copy: the results agree term by term, and the arguments come
back as they went in, on every path and for all values.  B differs from A in all arguments, and then in one argument at a
time, so that a result remembered under part of the arguments is found.
"""
import numpy as np
from pyvc.loader import Package
from pyvc.core import Unit
from pyvc import terms as T
from .common import *
from .spec import *
from .c17 import SymSpice


def flatten(x, out=None):
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        for v in x.ravel():
            flatten(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            flatten(v, out)
    elif isinstance(x, (bool, np.bool_)):
        out.append(bool(x))
    elif isinstance(x, T.Node):
        out.append(x)
    elif isinstance(x, (int, float, np.number)):
        out.append(lift(x))
    else:
        out.append(x)
    return out


def alike(xs, ys):
    return len(xs) == len(ys) and all(a is b or (isinstance(a, bool) and a == b) or (isinstance(a, str) and a == b) for a, b in zip(xs, ys))



class Sym:
    """Arguments as variables."""
    def __init__(s, tag):
        s.tag = tag

    def num(s, nm, **kw):
        return var(f"{s.tag}_{nm}", **kw)

    def vec(s, nm, n):
        return [var(f"{s.tag}_{nm}{i}") for i in range(n)]

    def kep(s):
        return [s.num("a", pos=True), s.num("e", unit=True), s.num("i"), s.num("raan"), s.num("aop"), s.num("ta")]

    def mee(s):
        return [s.num("p", pos=True)] + s.vec("q", 5)


class Num:
    """Arguments as random numbers."""
    def __init__(s, rng):
        s.r = rng

    def num(s, nm, pos=False, unit=False):
        return s.r.uniform(0.05, 0.8) if unit else s.r.uniform(0.3, 3)

    def vec(s, nm, n):
        return [s.r.uniform(0.1, 1.5) for _ in range(n)]

    def kep(s):
        return [s.r.uniform(1, 3), s.r.uniform(0.05, 0.6)] + [s.r.uniform(0.1, 1.5) for _ in range(4)]

    def mee(s):
        return [s.r.uniform(1, 3)] + [s.r.uniform(-0.4, 0.4) for _ in range(4)] + [s.r.uniform(0, 6)]


def given(x):
    """The arguments as the callee receives them."""
    if isinstance(x, list):
        if x and isinstance(x[0], list):
            a = np.empty((len(x), len(x[0])), dtype=object if any(isinstance(v, T.Node) for r in x for v in r) else float)
            for k in np.ndindex(a.shape):
                a[k] = x[k[0]][k[1]]
            return a
        return obj(list(x)) if any(isinstance(v, T.Node) for v in x) else np.array(x, dtype=float)
    return x


class Callee:
    """args(V) -> arguments; invoke(module, object, arguments) -> result; make(module, settings) -> object under test, settings(V) -> those."""
    def __init__(s, label, mod, args, invoke=None, make=None, settings=None, spice=False, each=True, **kw):
        s.label, s.mod, s.args, s.make, s.settings, s.spice, s.each, s.kw = label, mod, args, make, settings, spice, each, kw
        s.invoke = invoke or (lambda m, o, g: getattr(m, label)(*g))

    def variants(s, A, B, settings=None):
        yield "other arguments", B, None
        if len(A) > 1 and s.each:
            for j in range(len(A)):
                if not isinstance(A[j], str):
                    yield f"another argument {j + 1}", [B[k] if k == j else A[k] for k in range(len(A))], None
        if s.make and settings:
            X, Y = settings
            for j in range(len(X)):
                yield f"another object, made with another setting {j + 1}", A, [Y[k] if k == j else X[k] for k in range(len(X))]

    def symbolic(s, u):
        done, bad, n = 0, {}, 0
        X = s.settings(Sym("o")) if s.make else None
        for what, B, Y in s.variants(s.args(Sym("a")), s.args(Sym("b")), (X, s.settings(Sym("p"))) if s.make else None):
            A = s.args(Sym("a"))

            def load():
                m = Package(overrides={"spiceypy": SymSpice()} if s.spice else {}).load(s.mod)
                return m

            def call(m, o, x):
                g = [given(v) for v in x]
                r = flatten(s.invoke(m, o, g))
                return r, alike(flatten(g), flatten([given(v) for v in x]))

            def run():
                m = load()
                o = s.make(m, X) if s.make else None
                a1 = call(m, o, A)
                b1 = call(m, s.make(m, Y) if Y else o, B)
                a2 = call(m, o, A)
                m = load()
                return a1, b1, a2, call(m, s.make(m, Y or X) if s.make else None, B)
            for p in u.explore(run, [], **s.kw):
                n += 1
                if p.exc is not None:
                    if not from_package(p.exc):
                        raise Unsupported(f"{s.label}: {type(p.exc).__name__}: {p.exc}")
                    continue
                done += 1
                a1, b1, a2, b2 = p.result
                for k, ok in (("the same arguments give the same result again", alike(a1[0], a2[0])), ("the result does not depend on an earlier call", alike(b1[0], b2[0])),
                              ("arguments are left alone", a1[1] and b1[1] and a2[1])):
                    if not ok:
                        bad.setdefault(k, f"after a call with {what}")
        for k in ("the same arguments give the same result again", "the result does not depend on an earlier call", "arguments are left alone"):
            u.holds(f"{s.label}: {k} ({n} paths)", k not in bad, bad.get(k, ""))
        u.holds(f"{s.label}: executed", done > 0, "no path completes")
        u.functions.add(f"{s.mod}.{s.label.split(',')[0]}")

    def concrete(s, rng):
        import random
        from .c17 import NumSpice
        seed = rng if isinstance(rng, int) else rng.randrange(10 ** 9)
        r = random.Random(seed)
        m = realmod(s.mod)
        old = getattr(m, "spice", None)
        if s.spice:
            m.spice = NumSpice()
        try:
            A, B, Z = (s.args(Num(r)) for _ in range(3))
            o = s.make(m, s.settings(Num(r))) if s.make else None

            def call(x):
                g = [given(v) for v in x]
                h = [given(v) for v in x]
                y = [float(v) for v in flatten_numbers(s.invoke(m, o, g))]
                if not all(np.array_equal(p, q) for p, q in zip(g, h)):
                    raise Changed
                return y
            for what, V, _ in s.variants(A, B):
                a1, v1, z1, v2, a2 = call(A), call(V), call(Z), call(V), call(A)
                if not (same(a1, a2) and same(v1, v2)):
                    return f"{s.label}: a second call with the same arguments gives {v2}, the first {v1}, after a call with {what} (seed {seed})"
        except Changed:
            return f"{s.label}: an argument was changed (seed {seed})"
        finally:
            if s.spice:
                m.spice = old


class Changed(Exception):
    pass


def same(x, y):
    return len(x) == len(y) and all(a == b or (a != a and b != b) for a, b in zip(x, y))


def flatten_numbers(x):
    if isinstance(x, (list, tuple, np.ndarray)):
        return [v for y in x for v in flatten_numbers(y)]
    return [x]


def eom(V, mk):
    return [V.num("t"), mk(V), V.num("mu", pos=True), V.vec("u", 3), V.vec("ca", 5), V.vec("cb", 5), V.vec("cc", 5), V.vec("d", 3)]


def eom_call(fn):
    return lambda m, o, g: getattr(m, fn)(g[0], g[1], tuple(g[2:]))


def rhs(t, y, p):
    key = flatten_numbers([t, y, p])
    if any(isinstance(v, T.Node) for v in key):
        key = [lift(v) for v in key]
        return obj([T.uf(f"rhs{i}", *key) for i in range(6)])
    return np.array([np.sin(sum((i + k + 1) * v for k, v in enumerate(key))) for i in range(6)])


def control(m, o, g):
    def law(*a):
        key = flatten_numbers(list(a))
        if any(isinstance(v, T.Node) for v in key):
            key = [lift(v) for v in key]
            return [T.uf(f"D{i}", *key) for i in range(3)], [[T.uf(f"psi{c}{j}", *key) for j in range(5)] for c in range(3)], T.uf("Q", *key), [T.uf(f"dq{j}", *key) for j in range(5)]
        f = [float(np.sin(sum((i + k + 1) * v for k, v in enumerate(key)))) for i in range(24)]
        return f[:3], [f[3 + 5 * c:8 + 5 * c] for c in range(3)], f[18], f[19:]
    return list(m.lyapunov_control_angles(law, *g))


def spice_object(m, x):
    et, LU, TU, obs, frame, pa, bodies, k = x
    return m.SpicePerturbations(et, LU, TU, obs_id=obs, frame_qlaw=frame, frame_PA=pa, third_bodies_names=list(bodies), Re_km=k)


def spice_settings(V):
    first = getattr(V, "tag", "o") == "o"
    return [V.num("et"), V.num("LU", pos=True), V.num("TU", pos=True), "399" if first else "301", "J2000" if first else "ECLIPJ2000", "ITRF93" if first else "IAU_EARTH",
            ("301", "10") if first else ("10", "301"), V.num("Re", pos=True)]


def one(mk):
    return lambda V: [mk(V)]


KEP, MEE = (lambda V: V.kep()), (lambda V: V.mee())
ELEMENTS = [Callee(f, "_elements", lambda V, mk=mk: [mk(V), V.num("mu", pos=True)]) for f, mk in (("kep2sv", KEP), ("mee_with_a2sv", MEE))] + \
           [Callee(f, "_elements", one(mk)) for f, mk in (("kep2mee_with_a", KEP), ("mee_with_a2mee", MEE), ("mee_with_a2kep", MEE), ("mee2mee_with_a", MEE), ("kep2mee", KEP),
                                                          ("mee2kep", MEE), ("mee2ea", MEE))] + \
           [Callee("ta2ea", "_elements", lambda V: [V.num("ta"), V.num("e", unit=True)])]
WRAP = [Callee("wrap", "_transformations", lambda V: [V.num("x")])]
TESTS = [Callee(f, "_convergence", lambda V: [V.vec("x", 6), V.vec("T", 5), V.vec("w", 5), V.vec("tol", 5)], each=False, max_paths=4000) for f in ("check_convergence_keplerian", "check_convergence_mee")]
SAFETY = [Callee("elements_safety", "_convergence", lambda V: [V.vec("x", 6), V.vec("lo", 6), V.vec("hi", 6)], max_paths=4000)]
MOTION = [Callee(f, "_eom", lambda V, mk=mk: eom(V, mk), eom_call(f)) for f, mk in (("eom_kep_gauss", KEP), ("eom_mee_gauss", MEE), ("eom_mee_with_a_gauss", MEE))]
STEPS = [Callee(f, "_integrate", lambda V: [V.num("t"), V.num("h"), V.vec("y", 6), V.num("P")], lambda m, o, g, f=f: getattr(m, f)(rhs, *g)) for f in ("rk4", "rkf45")]
CONTROL = [Callee("lyapunov_control_angles", "_lyapunov",
                  lambda V: [V.num("mu"), V.num("f"), V.vec("x", 6), V.vec("T", 5), V.num("rp"), V.num("m"), V.num("n"), V.num("r"), V.num("b"), V.num("k"), V.num("wp"), V.vec("w", 5)], control)]
FORCES = [Callee("perturbation_third_body_battin", "_perturbations", lambda V: [V.vec("r", 3), [10 * v for v in V.vec("s", 3)], V.num("gm")], spice=True),
          Callee("perturbation_SRP", "_perturbations", lambda V: [V.vec("r", 3), V.num("AU"), V.num("k")], spice=True),
          Callee("pxformECI2RTN", "_perturbations", lambda V: [V.vec("r", 3), V.vec("v", 3)], spice=True),
          Callee("perturbation_J2", "_perturbations", lambda V: [V.vec("r", 3), [V.vec(f"A{k}", 3) for k in range(3)], V.num("mu"), V.num("J2"), V.num("Re")], spice=True)] + \
         [Callee(f"SpicePerturbations.get_perturbations_RTN, {el}", "_perturbations", lambda V, mk=mk, el=el: [V.num("t"), mk(V), el],
                 lambda m, o, g: o.get_perturbations_RTN(*g), spice_object, spice_settings, spice=True, max_paths=200, feas_ms=100) for el, mk in (("keplerian", KEP), ("mee_with_a", MEE))]
GROUPS = {"conversions": ELEMENTS, "angle wrapping": WRAP, "convergence tests": TESTS, "safeguard": SAFETY, "equations of motion": MOTION, "integrators": STEPS, "control angles": CONTROL,
          "perturbations": FORCES}


def units(*names):
    out = []
    for n in names or GROUPS:
        cs = GROUPS[n]

        def symbolic(u, cs=cs):
            for c in cs:
                c.symbolic(u)

        def check(x, cs=cs):
            return cs[x[0]].concrete(x[1])
        # the integrators take only compiled right-hand sides: evaluated through solve
        out.append(Unit("results depend on the arguments alone: " + n, symbolic, None if n == "integrators" else sampled(lambda r, k, cs=cs: [k % len(cs), r.randrange(10 ** 9)], check), "callees of QLaw.solve", 2 * len(cs), alarm=True))
    return out
