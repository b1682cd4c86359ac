"""C09: convergence tests and safeguard."""
import math
from fractions import Fraction
from fractions import Fraction
from .common import *
from .spec import *

MOD = "_convergence"
ASSUMPTIONS = ["the angular distance of two angles is the value in [0, pi] with the cosine of their difference",
               "undefined (NaN) elements are represented by the single undefined value of the term language; comparisons with it are false"]


def vecs(n=5):
    oe = [var(f"oe{i}") for i in range(6)]
    oeT = [var(f"oeT{i}") for i in range(5)]
    w = [var(f"w{i}") for i in range(5)]
    tol = [var(f"tol{i}", pos=True) for i in range(5)]
    return oe, oeT, w, tol


def dist(kind, oe, oeT, i):
    d = oeT[i] - oe[i]
    if kind == "keplerian" and i in (3, 4):
        return T.acos(T.cos(d))
    return T.absn(d)


def spec(kind, oe, oeT, w, tol):
    return T.band(*[bor(eq(w[i], ZERO), le(dist(kind, oe, oeT, i), tol[i])) for i in range(5)])


def as_bool(r):
    if isinstance(r, T.BNode):
        return r
    if isinstance(r, (bool, np.bool_)):
        return T.TRUE if r else T.FALSE
    return bnot(eq(lift(r), ZERO))


def u_conv(kind):
    fn = {"keplerian": "check_convergence_keplerian", "mee": "check_convergence_mee"}[kind]

    def run(u):
        M = symmod(MOD)
        oe, oeT, w, tol = vecs()
        ps = u.explore(lambda: as_bool(getattr(M, fn)(seq(oe), seq(oeT), seq(w), seq(tol))), [])
        sp = spec(kind, oe, oeT, w, tol)
        # the angular distance may be written in another way: link the two by its defining facts
        for k, p in enumerate(single(u, fn, ps)):
            u.prove(f"{fn}: success exactly when every weighted element is within tolerance [path {k}]", p.pc, T.iff(p.result, sp))
        u.defined(fn, ps)
        # position (sixth element) is never consulted
        names = {n.data[0] for p in ps for n in T.topo([p.result] + list(p.pc)) if n.op == "v"}
        u.holds(f"{fn}: position on the orbit is not consulted", "oe5" not in names, str(names))
        for i in range(5):
            oe2 = list(oe)
            oe2[i] = T.NAN
            pre = [bnot(eq(w[i], ZERO))]
            qs = u.explore(lambda: as_bool(getattr(M, fn)(seq(oe2), seq(oeT), seq(w), seq(tol))), pre)
            for k, p in enumerate(single(u, fn, qs)):
                u.prove(f"{fn}: undefined element {i} never converges [path {k}]", p.pc, bnot(p.result))
    return run


def f_spec(kind, oe, oeT, w, tol):
    for i in range(5):
        if w[i] == 0:
            continue
        d = abs(oeT[i] - oe[i])
        if kind == "keplerian" and i in (3, 4):
            d = abs(ang(oeT[i] - oe[i]))
        if d != d:
            return False, False
        if abs(d - tol[i]) < 1e-9:
            angle = kind == "keplerian" and i in (3, 4)
            if angle or Fraction(oeT[i]) - Fraction(oe[i]) != Fraction(oeT[i] - oe[i]):
                return None, True           # too close to call in floating point
        if d > tol[i]:
            return False, False
    return True, False


def c_conv(kind):
    fn = {"keplerian": "check_convergence_keplerian", "mee": "check_convergence_mee"}[kind]

    def chk(x):
        M = realmod(MOD)
        oe, oeT, w, tol = x
        a = [np.array(v, dtype=float) for v in (oe, oeT, w, tol)]
        got = bool(getattr(M, fn)(*a))
        want, tie = f_spec(kind, oe, oeT, w, tol)
        if any(list(p) != list(q) and not any(z != z for z in q) for p, q in zip(a, (oe, oeT, w, tol))):
            return f"{fn} changed an argument"
        if not tie and got != want:
            return f"{fn}({x}) returned {got}, expected {want}"
    return chk


def gen_conv(rng, k):
    oeT = [rng.uniform(0.2, 2)] + [rng.uniform(-1, 1) for _ in range(4)]
    tol = [10 ** rng.uniform(-4, -0.5) for _ in range(5)]
    near = [rng.uniform(-0.99, 0.99) * tol[i] for i in range(5)]
    oe = [oeT[i] + near[i] for i in range(5)] + [rng.uniform(-9, 9)]
    if k % 3 == 1:
        i = rng.randrange(5)
        oe[i] = oeT[i] + rng.choice([-1, 1]) * tol[i] * rng.choice([1.5, 20])
    if k % 3 == 2:
        for i in (3, 4):
            oe[i] += rng.choice([0, 2 * math.pi, -2 * math.pi])
    if k % 7 == 5:
        # exact ties and their floating-point neighbours
        i = rng.choice([0, 1, 2, 3, 4])
        tol[i] = rng.choice([0.125, 0.0625, 2.0 ** -20])
        oeT[i] = rng.choice([0.5, 1.25, 0.75])
        oe[i] = oeT[i] + rng.choice([-1, 1]) * tol[i] * rng.choice([1, 1 + 2.0 ** -20, 1 - 2.0 ** -20])
    if k % 11 == 7:
        oe[rng.randrange(5)] = float("nan")
    w = [rng.choice([0.0, 1.0, 2.5, 1.0]) for _ in range(5)]
    return [oe, oeT, w, tol]


def hint_conv(m):
    g = lambda n, d: m.get(n) if m.get(n) is not None else d
    return [[g(f"oe{i}", 0.1) for i in range(6)], [g(f"oeT{i}", 0.1) for i in range(5)], [g(f"w{i}", 1.0) for i in range(5)],
            [max(g(f"tol{i}", 0.1), 1e-12) for i in range(5)]]


# ---------------------------------------------------------------- elements_safety
def u_safe(u):
    M = symmod(MOD)
    oe = [var(f"oe{i}") for i in range(6)]
    for nlo, nhi in ((6, 6), (5, 6), (5, 5)):
        lo = [var(f"lo{i}") for i in range(nlo)]
        hi = [var(f"hi{i}") for i in range(nhi)]
        pre = [le(lo[i], hi[i]) for i in range(5)]

        def f():
            x = seq(oe)
            r = M.elements_safety(x, seq(lo), seq(hi))
            return nodes(r), nodes(x), r is x
        ps = u.explore(f, pre)
        tag = f"bounds of length {nlo}/{nhi}"
        for k, p in enumerate(single(u, "elements_safety", ps)):
            r, x, same = p.result
            u.holds(f"elements_safety: caller's array untouched [{tag}]", all(a is b for a, b in zip(x, oe)) and not same, str(x))
            u.holds(f"elements_safety: six elements returned [{tag}]", len(r) == 6)
            for i in range(5):
                u.prove(f"elements_safety: element {i} within its bounds [{tag}]", p.pc, band(le(lo[i], r[i]), le(r[i], hi[i])))
                u.prove(f"elements_safety: element {i} unchanged when within bounds, at the nearer bound otherwise [{tag}]", p.pc,
                        band(implies(band(le(lo[i], oe[i]), le(oe[i], hi[i])), eq(r[i], oe[i])), implies(lt(oe[i], lo[i]), eq(r[i], lo[i])),
                             implies(lt(hi[i], oe[i]), eq(r[i], hi[i]))))
            u.prove(f"elements_safety: sixth element unchanged [{tag}]", p.pc, eq(r[5], oe[5]))
        u.reachable(f"elements_safety {tag}", pre)
    # infinite bounds
    lo = [var("lo0")] + [T.NINF] * 4
    hi = [var("hi0")] + [T.INF] * 5
    ps = u.explore(lambda: nodes(M.elements_safety(seq(oe), seq(lo), seq(hi))), [le(lo[0], hi[0])])
    for p in single(u, "elements_safety", ps):
        u.prove("elements_safety: infinite bounds leave the elements alone", p.pc, band(*[eq(p.result[i], oe[i]) for i in range(1, 6)]))


def c_safe(x):
    M = realmod(MOD)
    oe, lo, hi = x
    a = np.array(oe)
    L, H = np.array(lo), np.array(hi)
    r = M.elements_safety(a, L, H)
    if list(a) != list(oe) or list(L) != list(lo) or list(H) != list(hi):
        return "elements_safety changed its argument"
    want = [min(max(oe[i], lo[i]), hi[i]) for i in range(5)] + [oe[5]]
    if len(r) != 6 or any(float(p) != q for p, q in zip(r, want)):
        return f"elements_safety({oe}, {lo}, {hi}) = {list(map(float, r))}, expected {want}"


def gen_safe(rng, k):
    n = rng.choice([5, 6])
    lo = [rng.choice([rng.uniform(-1, 0.2), -math.inf if i else 0.05]) for i in range(n)]
    hi = [rng.choice([rng.uniform(0.3, 1), math.inf]) for i in range(n)]
    return [[rng.uniform(-2, 2) for _ in range(6)], lo, hi]


def hint_safe(m):
    g = lambda n, d: m.get(n) if m.get(n) is not None else d
    lo = [g(f"lo{i}", -1.0) for i in range(6)]
    hi = [g(f"hi{i}", 1.0) for i in range(6)]
    if any(a > b for a, b in zip(lo, hi)):
        return None
    return [[g(f"oe{i}", 0.0) for i in range(6)], lo, hi]


def units():
    from . import purity
    return [Unit("check_convergence_keplerian", u_conv("keplerian"), sampled(gen_conv, c_conv("keplerian"), hint_conv), "_convergence.check_convergence_keplerian", 150),
            Unit("check_convergence_mee", u_conv("mee"), sampled(gen_conv, c_conv("mee"), hint_conv), "_convergence.check_convergence_mee", 150),
            Unit("elements_safety", u_safe, sampled(gen_safe, c_safe, hint_safe), "_convergence.elements_safety", 150)] + \
        purity.units("convergence tests", "safeguard")
