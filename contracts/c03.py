"""C03: Q is the documented proximity quotient and a valid Lyapunov candidate."""
import math
from fractions import Fraction
from .common import *
from .spec import *

ASSUMPTIONS = [
    "(x^(1/3))^3 = x for x >= 0, x^n >= 0 for x >= 0 and n > 0, exp > 0 (facts about the real functions)",
    "definedness is shown for the partial operations that remain in Q after constant folding of the executed code",
    "the domain is e > 0 (both sets), sin i > 0 (Keplerian), non-zero acceleration, positive scaling parameters, target semi-major axis and periapsis limit",
]


# ---------------------------------------------------------------- the documented quotient
def rates(M, kind, x, mu, f, b):
    """Maximal rates of the five slow elements over thrust direction and position (docs/source/theory.rst)."""
    a = x[0]
    if kind == "keplerian":
        e, i, om = x[1], x[2], x[4]
        p = a * (1 - e * e)
        h = M.sqrt(mu * p)
        so, co = M.sin(om), M.cos(om)
        t = cubic(M, e)
        c = t["cos"]
        r = p / (1 + e * c)
        adot = 2 * f * M.sqrt(a ** 3 * (1 + e) / (mu * (1 - e)))
        edot = 2 * p * f / h
        idot = p * f / (h * (M.sqrt(1 - e * e * so * so) - e * M.abs(co)))
        rdot = p * f / (h * M.sin(i) * (M.sqrt(1 - e * e * co * co) - e * M.abs(so)))
        oi = f / (e * h) * M.sqrt(p * p * c * c + (p + r) ** 2 * (1 - c * c))
        oo = rdot * M.abs(M.cos(i))
        return [adot, edot, idot, rdot, (oi + b * oo) / (1 + b)]
    ff, g, h, k = x[1:5]
    e = M.sqrt(ff * ff + g * g)
    p = a * (1 - ff * ff - g * g)
    s2 = 1 + h * h + k * k
    w = M.sqrt(p / mu)
    return [2 * f * a * M.sqrt(a / mu) * M.sqrt((1 + e) / (1 - e)), 2 * f * w, 2 * f * w,
            f * w * s2 / (2 * (M.sqrt(1 - g * g) + ff)), f * w * s2 / (2 * (M.sqrt(1 - ff * ff) + g))]


THIRD = T.const(Fraction(1, 3))


def cubic(M, e):
    """cos of the true anomaly of the fastest in-plane rotation of the periapsis."""
    sym = M is SYM
    q = (1 - e * e) / (2 * e ** 3)
    u = M.sqrt(q * q + (lift(Fraction(1, 27)) if sym else 1 / 27))
    t1, t2 = M.pow(q + u, THIRD if sym else 1 / 3), M.pow(u - q, THIRD if sym else 1 / 3)
    return {"q": q, "u": u, "t1": t1, "t2": t2, "y": t1 - t2, "cos": t1 - t2 - 1 / e}


def errors(M, kind, x, xt):
    d = [x[j] - xt[j] for j in range(5)]
    if kind == "keplerian":
        for j in (3, 4):
            d[j] = M.atan2(M.sin(d[j]), M.cos(d[j]))
    return d


def parts(M, kind, v):
    """Penalty factor, scalings, errors and rates."""
    x, xt = v["oe"], v["oeT"]
    e = x[1] if kind == "keplerian" else M.sqrt(x[1] * x[1] + x[2] * x[2])
    rp = x[0] * (1 - e)
    P = 1 + v["wp"] * M.exp(v["k_petro"] * (1 - rp / v["rpmin"]))
    S = [M.pow(1 + M.pow(M.abs(x[0] - xt[0]) / (v["m_petro"] * xt[0]), v["n_petro"]), 1 / v["r_petro"])] + [lift(1) if M is SYM else 1.0] * 4
    return P, S, errors(M, kind, x, xt), rates(M, kind, x, v["mu"], v["f"], v["b_petro"])


def quotient(M, kind, v):
    P, S, d, o = parts(M, kind, v)
    return P * sum((v["woe"][j] * S[j] * (d[j] / o[j]) ** 2 for j in range(5)), lift(0) if M is SYM else 0.0)


# ---------------------------------------------------------------- positivity of the building blocks
def blocks(kind, v):
    """Positive terms of which every partial operand is a monomial."""
    x, mu = v["oe"], v["mu"]
    out = [x[0], mu, v["f"] * v["f"], v["oeT"][0], v["m_petro"], v["rpmin"], v["r_petro"]]
    S = T
    if kind == "keplerian":
        e, i, om = x[1], x[2], x[4]
        t = cubic(SYM, e)
        p = x[0] * (1 - e * e)
        r = p / (1 + e * t["cos"])
        so, co = T.sin(om), T.cos(om)
        rad = (p * p * t["cos"] * t["cos"] + (p + r) ** 2 * (1 - t["cos"] * t["cos"]))
        o = rates(SYM, kind, x, mu, ONE, v["b_petro"])
        out += [e, 1 - e, 1 + e, T.sin(i), T.sqrt(1 - e * e * so * so) - e * T.absn(co), T.sqrt(1 - e * e * co * co) - e * T.absn(so),
                1 - e * e * so * so, 1 - e * e * co * co, t["q"] * t["q"] + lift(Fraction(1, 27)), t["q"] + t["u"], t["y"], rad, o[4], 1 + v["b_petro"]]
    else:
        f, g, h, k = x[1:5]
        e = T.sqrt(f * f + g * g)
        out += [e, 1 - e, 1 + e, 1 + h * h + k * k, T.sqrt(1 - g * g) + f, T.sqrt(1 - f * f) + g, 1 - g * g, 1 - f * f]
    return out


def u_lemmas(u):
    """Positivity of the building blocks."""
    A = lambda n, **k: var("l_" + n, **k)
    e, s, c, W = A("e", unit=True), A("s"), A("c"), A("W", nonneg=True)
    for nm, x, y in (("omega", s, c), ("omega (other axis)", c, s)):
        pre = [eq(s * s + c * c, ONE), eq(W * W, 1 - e * e * x * x)]
        u.prove(f"1 - e^2 sin^2 > 0 [{nm}]", [eq(s * s + c * c, ONE)], lt(ZERO, 1 - e * e * x * x))
        av = A("av", nonneg=True)
        u.prove(f"sqrt(1 - e^2 sin^2) > e |cos| [{nm}]", pre + [eq(av * av, y * y)], lt(e * av, W))
    f, g = A("f"), A("g")
    u.prove("sqrt(1 - g^2) + f > 0 when f^2 + g^2 < 1", [lt(f * f + g * g, ONE), eq(W * W, 1 - g * g)], lt(ZERO, W + f))
    u.prove("1 - g^2 > 0 when f^2 + g^2 < 1", [lt(f * f + g * g, ONE)], lt(ZERO, 1 - g * g))
    u.prove("sqrt(f^2 + g^2) < 1 when f^2 + g^2 < 1", [lt(f * f + g * g, ONE), eq(W * W, f * f + g * g)], lt(W, ONE))
    # the cubic
    q, r, t1, t2, x, y = A("q", pos=True), A("r", nonneg=True), A("t1", nonneg=True), A("t2", nonneg=True), A("x"), A("y")
    u.prove("sqrt(q^2 + 1/27) > q", [eq(r * r, q * q + lift(Fraction(1, 27)))], lt(q, r))
    u.identity("q = (x^3 - x)/2 for x = 1/e", [((1 - e * e) / (2 * e ** 3), ((1 / e) ** 3 - 1 / e) / 2)])
    z = A("z", nonneg=True)
    u.identity("(t1 t2)^3 = 1/27", [((r + q) * (r - q) - lift(Fraction(1, 27)), r * r - (q * q + lift(Fraction(1, 27))))])
    u.prove("z^3 = 1/27 gives z = 1/3", [eq(z * z * z, lift(Fraction(1, 27)))], eq(z, lift(Fraction(1, 3))))
    u.identity("(t1 - t2)^3 = t1^3 - t2^3 - 3 t1 t2 (t1 - t2)", [((t1 - t2) ** 3, t1 ** 3 - t2 ** 3 - 3 * t1 * t2 * (t1 - t2))])
    cub = [lt(ONE, x), eq(y * y * y + y, x * x * x - x)]
    # monotonicity of y^3 + y: difference = (y - z)(y^2 + y z + z^2 + 1)
    w = A("w")
    u.identity("y^3 + y - w^3 - w = (y - w)(y^2 + y w + w^2 + 1)", [(y ** 3 + y - w ** 3 - w, (y - w) * (y * y + y * w + w * w + 1))])
    u.prove("y^2 + y w + w^2 + 1 > 0", [], lt(ZERO, y * y + y * w + w * w + 1))
    k, d = A("k", pos=True), A("d")
    u.prove("a product with a positive factor has the sign of the other factor", [lt(ZERO, d * k)], lt(ZERO, d))
    u.prove("x^3 - x - ((x-1)^3 + (x-1)) > 0 for x > 1", [lt(ONE, x)], lt(ZERO, (x ** 3 - x) - ((x - 1) ** 3 + x - 1)))
    u.prove("(x+1)^3 + (x+1) - (x^3 - x) > 0 for x > 1", [lt(ONE, x)], lt(ZERO, ((x + 1) ** 3 + x + 1) - (x ** 3 - x)))
    u.prove("x - 1 < y < x + 1 gives |cos| < 1 and y > 0", [lt(ONE, x), lt(x - 1, y), lt(y, x + 1)],
            band(lt(-ONE, y - x), lt(y - x, ONE), lt(ZERO, y)))
    p, rr, co = A("p", pos=True), A("rr", pos=True), A("cc")
    u.prove("in-plane rotation rate is positive", [lt(-ONE, co), lt(co, ONE)], lt(ZERO, p * p * co * co + (p + rr) * (p + rr) * (1 - co * co)))
    oi, oo, b = A("oi", pos=True), A("oo", nonneg=True), A("b", nonneg=True)
    u.prove("combined rotation rate is positive", [], lt(ZERO, oi + b * oo))
    u.functions.add("lemma")


def u_candidate(u):
    """Sign and zero set of the documented quotient."""
    A = lambda n, **k: var("m_" + n, **k)
    P, E = A("P"), A("E", pos=True)
    wp = A("wp", nonneg=True)
    u.prove("penalty factor is at least one", [eq(P, 1 + wp * E)], le(ONE, P))
    z, n = A("z", nonneg=True), A("pw", nonneg=True)
    u.prove("scaling base is at least one", [], le(ONE, 1 + n))
    w = [A(f"w{j}", nonneg=True) for j in range(5)]
    S = [A(f"S{j}", pos=True) for j in range(5)]
    d = [A(f"d{j}") for j in range(5)]
    o = [A(f"o{j}") for j in range(5)]
    q = [A(f"q{j}") for j in range(5)]          # terms w S (d/o)^2
    for_ = [A("rat")]
    u.prove("each term is non-negative", [], le(ZERO, w[0] * S[0] * for_[0] * for_[0]))
    u.prove("a term vanishes exactly when its weight or its error does",
            [bnot(eq(o[0], ZERO)), eq(for_[0] * o[0], d[0])],
            band(implies(bor(eq(w[0], ZERO), eq(d[0], ZERO)), eq(w[0] * S[0] * for_[0] * for_[0], ZERO)),
                 implies(eq(w[0] * S[0] * for_[0] * for_[0], ZERO), bor(eq(w[0], ZERO), eq(d[0], ZERO)))))
    nn = [le(ZERO, x) for x in q] + [le(ONE, P)]
    tot = q[0] + q[1] + q[2] + q[3] + q[4]
    u.prove("the quotient is non-negative", nn, le(ZERO, P * tot))
    u.prove("the quotient vanishes exactly when every term does", nn,
            band(implies(eq(P * tot, ZERO), band(*[eq(x, ZERO) for x in q])), implies(band(*[eq(x, ZERO) for x in q]), eq(P * tot, ZERO))))
    x, y = A("cx"), A("sy")
    at = T.atan2(y, x)
    u.prove("an angular error vanishes exactly on whole turns (sin = 0, cos = 1)", [eq(x * x + y * y, ONE)],
            band(implies(eq(at, ZERO), band(eq(y, ZERO), eq(x, ONE))), implies(band(eq(y, ZERO), eq(x, ONE)), eq(at, ZERO))))
    u.functions.add("lemma")


def u_quotient(kind, cse):
    def run(u):
        control = law(kind, cse)[0]
        v = lawvars(kind)
        dom = lawdom(kind, v)
        tag = f"{kind}, cse={cse}"
        ps = u.explore(lambda: control(*lawargs(v)), dom)
        for p in single(u, "control", ps):
            cons = dom + list(p.pc)
            q = lift(p.result[2])
            u.identity(f"Q = documented quotient [{tag}]", [(q, quotient(SYM, kind, v))], cons, domain=lawenv(kind))
            # independence of targets with zero weight
            for j in range(5):
                a, = T.substitute([q], {v["woe"][j].uid: ZERO})
                b, = T.substitute([a], {v["oeT"][j].uid: v["oeT"][j] + var("shift")})
                c, = T.substitute([a], {v["oe"][j].uid: v["oe"][j] + var("shift")})
                u.identity(f"with a zero weight Q does not depend on target element {j} [{tag}]", [(a, b)], cons, domain=lawenv(kind))
                if (kind, j) == ("keplerian", 3):
                    u.identity(f"with a zero weight Q does not depend on the node [{tag}]", [(a, c)], cons, domain=lawenv(kind))
            w2, = T.substitute([q], {v["oe"][5].uid: v["oe"][5] + var("shift")})
            u.identity(f"Q does not depend on the position [{tag}]", [(q, w2)], cons, domain=lawenv(kind))
            if kind == "keplerian":
                for j in (3, 4):
                    w3, = T.substitute([q], {v["oe"][j].uid: v["oe"][j] + 2 * PI})
                    u.identity(f"angular error {j} is taken modulo one turn [{tag}]", [(q, w3)], cons, domain=lawenv(kind))
            finite(u, tag, kind, v, q, dom)
        u.reachable(tag, dom)
        u.functions.update([f"_symbolic.symbolic_qlaw_{kind}"])
    return run


def finite(u, tag, kind, v, q, dom):
    """Every partial operation of Q is defined, by factoring into the positive building blocks."""
    B = blocks(kind, v)
    pos = [lt(ZERO, b) for b in B]
    mono = monomial_prover(B, lawenv(kind), dom)
    seen = set()
    for n in T.topo([q]):
        goals = []
        if n.op == "/":
            goals = [("divisor is not zero", bnot(eq(ZERO, n.args[1])))]
        elif n.op == "sqrt":
            goals = [("radicand is not negative", le(ZERO, n.args[0]))]
        elif n.op == "rpow":
            goals = [("base is not negative", le(ZERO, n.args[0]))]
            ex = n.args[1]
            if not (ex.op == "c" and ex.data > 0) and ex is not v["n_petro"]:
                goals = [("base is positive", lt(ZERO, n.args[0]))]
        elif n.op in ("log",):
            goals = [("argument is positive", lt(ZERO, n.args[0]))]
        elif n.op in ("acos", "asin"):
            goals = [("argument within [-1, 1]", band(le(-ONE, n.args[0]), le(n.args[0], ONE)))]
        for what, g in goals:
            if g is T.TRUE or g.uid in seen:
                continue
            seen.add(g.uid)
            st, be, m = smt.prove(dom + [bnot(eq(v["f"], ZERO))], g, 250, use_cvc5=False)
            ok = st == "proved"
            if not ok:
                ok, be = mono(what, g, [])
            if ok:
                u._add(f"Q finite: {what} [{tag}]", u.func, "definedness", "proved", be, 0.0)
                continue
            facts = list(dom)
            x = n.args[0]
            if n.op == "rpow" and x.op == "+":
                # 1 + (non-negative power)
                facts += [le(ZERO, a) for a in x.args if a.op == "rpow"]
            if n.op == "rpow" and x.op == "/":
                facts += [le(ZERO, x.args[0]), lt(ZERO, x.args[1])]
                u.prove(f"Q finite: divisor of the base is positive [{tag}]", dom, lt(ZERO, x.args[1]))
            st, be, m = smt.prove(facts, g, 4000)
            u._add(f"Q finite: {what} [{tag}]", u.func, "definedness", "proved" if st == "proved" else "unknown", be, 0.0, "" if st == "proved" else T.show(g, 4)[:300])


# ---------------------------------------------------------------- concrete evaluation
def c_q(kind, cse):
    def chk(x):
        control = reallaw(kind, cse)[0]
        if x["f"] == 0 or x["oe"][1] <= 0 and kind == "keplerian":
            return None
        with np.errstate(all="ignore"):
            q = float(control(*fargs(x))[2])
            want = quotient(FLT, kind, {"mu": x["mu"], "f": x["f"], "oe": x["oe"], "oeT": x["oeT"], "woe": x["woe"], **{n: x[n] for n in ARGN}})
        if not math.isfinite(want):
            return None
        if not math.isfinite(q):
            return f"Q is {q} (documented quotient {want}) at {x}"
        if not close(q, want, 1e-6, 1e-14):
            return f"Q is {q}, the documented quotient is {want} at {x}"
        if q < 0:
            return f"Q is negative: {q} at {x}"
        on = all(x["woe"][j] == 0 or x["oe"][j] == x["oeT"][j] for j in range(5))
        if on and q != 0:
            return f"Q is {q} although every positively weighted element is on target at {x}"
        D = errors(FLT, kind, x["oe"], x["oeT"])
        if any(x["woe"][j] > 1e-3 and abs(D[j]) > 1e-3 for j in range(5)) and not q > 0:
            return f"Q is {q} off target at {x}"
        for j in range(5):
            if x["woe"][j] == 0:
                y = dict(x, oeT=[t + (0.37 if i == j else 0) for i, t in enumerate(x["oeT"])])
                with np.errstate(all="ignore"):
                    q2 = float(control(*fargs(y))[2])
                if q2 != q and not (close(q2, q, 1e-12, 0)):
                    return f"Q changes from {q} to {q2} with target element {j}, whose weight is zero, at {x}"
    return chk


def gen_q(kind):
    g0 = genlaw(kind)

    def g(rng, k=0):
        x = g0(rng, k)
        m = k % 6
        if m == 1:
            x["oeT"] = list(x["oe"][:5])
        elif m == 2:
            j = rng.randrange(5)
            x["oeT"][j] = x["oe"][j]
        elif m == 3 and kind == "keplerian":
            j = rng.choice((3, 4))
            x["oeT"][j] = x["oe"][j] + 2 * math.pi * rng.choice((-2, -1, 1, 2)) + rng.uniform(-.3, .3)
        elif m == 4:
            x["oe"][0] = x["oeT"][0] * rng.uniform(.2, .99)
            x["n_petro"] = rng.choice((3.0, 2.5, 4.0))
        elif m == 5:
            x["woe"] = [w if rng.random() < .5 else 0.0 for w in x["woe"]]
        return x
    return g


def units():
    R = [Unit("positivity lemmas", u_lemmas, None, "lemma"), Unit("Lyapunov candidate lemmas", u_candidate, None, "lemma")]
    for kind in ("keplerian", "mee_with_a"):
        law(kind, True), law(kind, False)
        for cse in (True, False):
            R.append(Unit(f"{kind}, cse={cse}", u_quotient(kind, cse), sampled(gen_q(kind), c_q(kind, cse), hintlaw(kind)), f"_symbolic.symbolic_qlaw_{kind}", 60))
    return R
