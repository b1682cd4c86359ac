"""C08: the integrators are Runge-Kutta methods of their stated order."""
import math
from fractions import Fraction
from .common import *
from .spec import *

MOD = "_integrate"
ASSUMPTIONS = ["the right-hand side is an uninterpreted function; the step is checked for state dimensions 1 and 6 (elementwise code)"]


# ---------------------------------------------------------------- order conditions (Butcher), exact or float
def conditions(A, b, c, order):
    s = len(b)
    R = range(s)
    v1 = [1] * s

    def ap(x):
        return [sum(A[i][j] * x[j] for j in R) for i in R]

    def pw(x, y):
        return [p * q for p, q in zip(x, y)]

    def bd(x):
        return sum(b[i] * x[i] for i in R)
    c2, c3, c4 = pw(c, c), pw(pw(c, c), c), pw(pw(c, c), pw(c, c))
    out = [("sum b", bd(v1), 1)]
    if order >= 2:
        out.append(("b.c", bd(c), Fraction(1, 2)))
    if order >= 3:
        out += [("b.c^2", bd(c2), Fraction(1, 3)), ("b.Ac", bd(ap(c)), Fraction(1, 6))]
    if order >= 4:
        out += [("b.c^3", bd(c3), Fraction(1, 4)), ("b.cAc", bd(pw(c, ap(c))), Fraction(1, 8)), ("b.Ac^2", bd(ap(c2)), Fraction(1, 12)),
                ("b.AAc", bd(ap(ap(c))), Fraction(1, 24))]
    if order >= 5:
        out += [("b.c^4", bd(c4), Fraction(1, 5)), ("b.c^2Ac", bd(pw(c2, ap(c))), Fraction(1, 10)), ("b.(Ac)^2", bd(pw(ap(c), ap(c))), Fraction(1, 20)),
                ("b.cAc^2", bd(pw(c, ap(c2))), Fraction(1, 15)), ("b.Ac^3", bd(ap(c3)), Fraction(1, 20)), ("b.cAAc", bd(pw(c, ap(ap(c)))), Fraction(1, 30)),
                ("b.A(cAc)", bd(ap(pw(c, ap(c)))), Fraction(1, 40)), ("b.AAc^2", bd(ap(ap(c2))), Fraction(1, 60)), ("b.AAAc", bd(ap(ap(ap(c)))), Fraction(1, 120))]
    return out


def rational(t):
    t = lift(t)
    return t.data if t.op == "c" else None


def u_step(fn, n):
    def run(u):
        M = symmod(MOD)
        t, h, tol = var("t"), var("h"), var("tol", pos=True)
        y = [var(f"y{i}") for i in range(n)]
        P = object()
        calls = []

        def rhs(tt, yy, pp):
            j = len(calls)
            calls.append((lift(tt), nodes(yy), pp))
            return seq([var(f"k{j}_{i}") for i in range(n)])

        def f():
            calls.clear()
            Y = seq(y)
            if fn == "rk4":
                r, hn = M.rk4(rhs, t, h, Y, P), None
            else:
                r, hn = M.rkf45(rhs, t, h, Y, P, tol)
            return nodes(r), hn, nodes(Y), list(calls)
        ps = u.explore(f, [bnot(eq(h, ZERO))])
        null, e2 = [], None
        u.defined(f"{fn}: defined for every right-hand side", [p for p in ps if p.exc is None])
        for p in single(u, fn, ps):
            r, hn, yafter, cl = p.result
            s = len(cl)
            u.holds(f"{fn}: input state untouched", all(a is b for a, b in zip(yafter, y)), str(yafter))
            u.holds(f"{fn}: parameters passed through to every stage", all(c[2] is P for c in cl))
            A = [[Fraction(0)] * s for _ in range(s)]
            C, B = [], []
            good = True
            for k, (tt, yy, _) in enumerate(cl):
                C.append(rational(T.diff(tt, h)))
                for j in range(s):
                    d = T.diff(yy[0], var(f"k{j}_0")) / h
                    q = probe(d)
                    A[k][j] = q
            for j in range(s):
                B.append(probe(T.diff(r[0], var(f"k{j}_0")) / h))
            if any(x is None for x in C + B + [x for row in A for x in row]):
                u.holds(f"{fn}: the step is linear in its stages with constant coefficients", False)
                continue
            K = [[var(f"k{j}_{i}") for i in range(n)] for j in range(s)]
            u.identity(f"{fn}: stage times are t + c_i h", [(tt, t + h * T.const(C[k])) for k, (tt, _, _) in enumerate(cl)])
            u.identity(f"{fn}: stage states are y + h sum a_ij k_j", [(yy[i], y[i] + h * sum((T.const(A[k][j]) * K[j][i] for j in range(s)), ZERO))
                                                                    for k, (_, yy, _) in enumerate(cl) for i in range(n)])
            u.holds(f"{fn}: explicit method (stages only use earlier ones)", all(A[k][j] == 0 for k in range(s) for j in range(k, s)))
            u.holds(f"{fn}: c_i = sum_j a_ij", all(C[k] == sum(A[k]) for k in range(s)), f"c={C} A={A}")
            u.identity(f"{fn}: result is y + h sum b_i k_i", [(r[i], y[i] + h * sum((T.const(B[j]) * K[j][i] for j in range(s)), ZERO)) for i in range(n)])
            for nm, got, want in conditions(A, B, C, 4):
                u.holds(f"{fn}: order condition {nm}", got == want, f"{got} != {want}", pc=p.pc)
            if fn == "rkf45" and not any(x.op == "v" and x.data[0][0] == "k" for x in T.topo([lift(hn)])):
                null.append((p, lift(hn)))          # a path that does not use the estimate
            elif fn == "rkf45":
                e = self_embedded(u, A, B, C, K, hn, h, tol, n)
                e2 = e if e2 is None else e2
        for p, hn in null:
            zero = [c.args[0] if c.args[1] is ZERO else c.args[1] for c in literals(p.pc) if c.op == "eq" and any(x is ZERO for x in c.args)]
            ok = e2 is not None and any(ident_scaled(x * x, e2) for x in zero)
            u.holds("rkf45: the suggestion ignores the estimate only where it is zero", ok, str(p.pc)[:300])
            if hn.op in ("inf", "ninf"):
                u.prove("rkf45: a null estimate suggests no shorter step, in the same direction", p.pc, lt(ZERO, h) if hn.op == "inf" else lt(h, ZERO))
            else:
                u.prove("rkf45: a null estimate suggests no shorter step, in the same direction", p.pc, le(h * h, hn * h))
    return run


def literals(pc):
    out, st = [], list(pc)
    while st:
        c = st.pop()
        if c.op == "and":
            st.extend(c.args)
        else:
            out.append(c)
    return out


def ident_scaled(a, b):
    """a = constant * b"""
    import random
    rng = random.Random(5)
    env = {x.data[0]: rng.uniform(0.3, 1.7) for x in T.topo([a, b]) if x.op == "v"}
    try:
        va, vb = (float(v) for v in T.evalf([a, b], env))
        q = Fraction(va / vb).limit_denominator(10000)
    except (ZeroDivisionError, ValueError, OverflowError):
        return False
    return q > 0 and fp.decide([(a, T.const(q) * b)], [], n=4)[0] is True


def probe(d):
    """Value of a term that must be a rational constant."""
    d = lift(d)
    if d.op == "c":
        return d.data
    import random
    rng = random.Random(3)
    vals = []
    for _ in range(3):
        env = {n.data[0]: Fraction(rng.randint(2, 40), rng.randint(1, 9)) for n in T.topo([d]) if n.op == "v"}
        try:
            vals.append(T.evalf([d], {k: float(v) for k, v in env.items()})[0])
        except Exception:
            return None
    if max(vals) - min(vals) > 1e-9:
        return None
    q = Fraction(vals[0]).limit_denominator(200000)
    return q if fp.decide([(d, T.const(q))], [], n=4)[0] is True else None


def embed_scale(A, B, C, e):
    """s with b + s e of order five, or None."""
    base, dirn = conditions(A, B, C, 5), conditions(A, e, C, 5)
    s = None
    for (n, g, w), (_, d, _) in zip(base, dirn):
        if d != 0:
            s = (w - g) / d
            break
    if s is None:
        return None
    b5 = [x + s * y for x, y in zip(B, e)]
    return s if all(abs(g - w) < Fraction(1, 10 ** 9) for _, g, w in conditions(A, b5, C, 5)) else None


def self_embedded(u, A, B, C, K, hn, h, tol, n):
    s = len(B)
    # h_next = c h (tol/||err||)^(1/4)  <=>  ||err||^2 / c^8 = tol^2 (h/h_next)^8, a quadratic form in the stages
    one = {}
    for j in range(s):
        for i in range(1, n):
            one[K[j][i].uid] = ZERO
    hn0 = T.substitute([lift(hn)], one)[0]
    import random
    rng = random.Random(11)

    def form(ks):
        env = {f"k{j}_0": ks[j] for j in range(s)}
        env.update(h=0.7, tol=1e-3, t=0.0)
        env.update({f"y{i}": 0.3 for i in range(n)})
        try:
            v = float(T.evalf([hn0], env)[0])
        except (ZeroDivisionError, ValueError, OverflowError):
            return 0.0
        return (1e-3) ** 2 * (0.7 / v) ** 8 / 0.49 if v == v and abs(v) != math.inf else 0.0
    # exponents: check scaling in tol and err, then recover e_j up to a common factor from values
    sq = [math.sqrt(form([1.0 if i == j else 0.0 for i in range(s)])) for j in range(s)]
    ref = max(range(s), key=lambda j: sq[j])
    e = []
    for j in range(s):
        if j == ref:
            e.append(sq[j])
            continue
        v = math.sqrt(form([1.0 if i in (j, ref) else 0.0 for i in range(s)]))
        e.append(sq[j] if abs(v - (sq[ref] + sq[j])) < abs(v - abs(sq[ref] - sq[j])) else -sq[j])
    # fit the scale: b + sc*e has order five
    base, dirn = conditions(A, [float(b) for b in B], C, 5), conditions(A, e, C, 5)
    k = max(range(len(base)), key=lambda q: abs(dirn[q][1]) if q >= 8 else 0)
    if abs(dirn[k][1]) < 1e-14:
        u.holds("rkf45: suggested step is driven by an order-five estimate", False, "error estimate vanishes")
        return
    sc = (float(base[k][2]) - base[k][1]) / dirn[k][1]
    # exact difference weights: rationalise with the smallest denominators that satisfy the conditions exactly
    b5 = [B[j] + Fraction(sc * e[j]).limit_denominator(300000) for j in range(s)]
    for nm, got, want in conditions(A, b5, C, 5):
        u.holds(f"rkf45: embedded estimate, order condition {nm}", got == want, f"{got} != {want}")
    d = [b5[j] - B[j] for j in range(s)]
    err = [h * sum((T.const(d[j]) * K[j][i] for j in range(s)), ZERO) for i in range(n)]
    e2 = sum((x * x for x in err), ZERO)
    # factor c with c^4 = |sc|^{...}: recovered numerically, certified by the identity
    c = abs(sc) ** 0.25
    cq = Fraction(c).limit_denominator(10000)
    u.holds("rkf45: safety factor within (0, 1]", 0 < cq <= 1, str(cq))
    want = h * T.const(cq) * T.power(tol / T.sqrt(e2), T.const(Fraction(1, 4)))
    u.identity("rkf45: suggested step is c h (tol/||z - y||)^(1/4)", [(lift(hn), want)],
               [lt(ZERO, e2), lt(ZERO, tol), lt(ZERO, T.sqrt(e2))])
    return e2


# ---------------------------------------------------------------- concrete
def py(f):
    return getattr(f, "py_func", f)


def c_step(x):
    M = realmod(MOD)
    fn, t, h, y0, tol = x
    f = py(getattr(M, fn))
    y = np.array(y0)
    calls = []

    def drive(ks):
        calls.clear()

        def rhs(tt, yy, pp):
            j = len(calls)
            calls.append((float(tt), np.array(yy, dtype=float), pp))
            return ks[min(j, len(ks) - 1)].copy()
        return f(rhs, t, h, y, P, *([tol] if fn == "rkf45" else []))
    P = ("p", 1.0)
    base = float(y0[0])
    drive([np.zeros(len(y0))])
    s = len(calls)
    ks = [np.zeros(s) for _ in range(s)]
    y = np.full(s, base)
    for j in range(s):
        ks[j][j] = 1.0
    r = drive(ks)
    hn = None
    if fn == "rkf45":
        r, hn = r
    if list(y) != [base] * s:
        return f"{fn} changed the state it was given"
    if any(c[2] is not P for c in calls):
        return f"{fn} did not pass the parameters through"
    B = [float(v) / h for v in (np.array(r) - base)]
    A = [[float(v) / h for v in (c[1] - base)] for c in calls]
    C = [(c[0] - t) / h for c in calls]
    for k in range(s):
        if abs(C[k] - sum(A[k])) > 1e-7:
            return f"{fn}: stage {k} evaluated at time t + {C[k]} h but state weights sum to {sum(A[k])}"
        if any(abs(A[k][j]) > 1e-12 for j in range(k, s)):
            return f"{fn}: stage {k} uses a stage not yet known"
    for nm, got, want in conditions(A, B, C, 4):
        if abs(got - float(want)) > 1e-6:
            return f"{fn}: order condition {nm} is {got}, not {float(want)}"
    if fn == "rkf45" and not float(hn) * h > 0:
        return f"rkf45 suggests the step {float(hn)} after {h}"
    if fn == "rkf45":
        # recover the error weights from suggested steps: y-independent, one-dimensional stages
        def err(k):
            y_ = np.array([base])
            n = [0]

            def rhs(tt, yy, pp):
                v = k[min(n[0], s - 1)]
                n[0] += 1
                return np.array([v])
            o = f(rhs, t, h, y_, P, tol)
            return (h * 0.84 / float(o[1])) ** 4 * tol / abs(h)
        with np.errstate(all="ignore"):
            g = [err([1.0 if i == j else 0.0 for i in range(s)]) for j in range(s)]
            ref = max(range(s), key=lambda j: g[j])
            e = []
            for j in range(s):
                if j == ref:
                    e.append(g[j])
                    continue
                v = err([1.0 if i in (j, ref) else 0.0 for i in range(s)])
                e.append(g[j] if abs(v - g[ref] - g[j]) < abs(v - abs(g[ref] - g[j])) else -g[j])
        ok = False
        for sg in (1, -1):
            b5 = [b + sg * q for b, q in zip(B, e)]
            if all(abs(got - float(want)) < 1e-6 for _, got, want in conditions(A, b5, C, 5)):
                ok = True
        if not ok:
            return f"rkf45: the estimate behind the suggested step is not of order five (error weights {e})"
        def suggest(scale):
            y_ = np.array([0.0])
            n = [0]

            def rhs(tt, yy, pp):
                n[0] += 1
                return np.array([scale if n[0] == ref + 1 else 0.0])
            return float(f(rhs, t, h, y_, P, tol)[1])
        with np.errstate(all="ignore"):
            for sc in (1e-9, 1e-4, 1e4):
                a, b = suggest(1.0), suggest(sc)
                if abs(b * sc ** 0.25 - a) > 1e-3 * abs(a):
                    return f"rkf45: an estimate {sc} times as large changes the suggestion from {a} to {b}"
            z = f(lambda tt, yy, pp: np.zeros(1), t, h, np.array([base]), P, tol)
            if z[0][0] != base or not z[1] / h >= 1:
                return f"rkf45: with an exact step (right-hand side zero) it returns {z}"
    return None


def c_compiled(x):
    """The compiled integrators agree with the formula on a real problem (coarse: order of convergence)."""
    M = realmod(MOD)
    import numba

    @numba.njit
    def rhs(t, y, p):
        return np.array([p[0] * y[1] + t, -p[0] * y[0] * y[1]])
    fn, t, h, tol = x
    f = getattr(M, fn)
    y = np.array([0.4, 0.7])

    def go(h):
        r = f(rhs, t, h, y, (1.3, 0.0))
        return r[0] if fn == "rkf45" else r

    def fine(h, n=64):
        z = y.copy()
        tt = t
        p = 1.3
        for _ in range(n):
            d = h / n
            g = lambda s, w: np.array([p * w[1] + s, -p * w[0] * w[1]])
            a = g(tt, z); b = g(tt + d / 2, z + d / 2 * a); c = g(tt + d / 2, z + d / 2 * b); e = g(tt + d, z + d * c)
            z = z + d / 6 * (a + 2 * b + 2 * c + e)
            tt += d
        return z
    e1, e2 = np.abs(go(h) - fine(h)).max(), np.abs(go(h / 2) - fine(h / 2)).max()
    if list(y) != [0.4, 0.7]:
        return f"{fn} changed its input state"
    r, r2 = (f(rhs, t, h, y, (1.3, 0.0)), py(f)(rhs.py_func, t, h, y, (1.3, 0.0)))
    r, r2 = ((r[0], *r[1:]), (r2[0], *r2[1:])) if fn == "rkf45" else ((r,), (r2,))
    if not all(np.allclose(a, b, rtol=1e-6, atol=1e-12) for a, b in zip(r, r2)):
        return f"{fn}: compiled code returns {r}, its source {r2}"
    if e1 > 1e-9 and e2 > e1 / 6:        # asymptotically 1/32
        return f"{fn}: local error {e1} at h={h} and {e2} at h/2"

    @numba.njit
    def still(t, y, p):
        return np.zeros(2)
    r = f(still, t, h, y, (1.3, 0.0))
    if fn == "rkf45":
        if not r[1] / h >= 1:
            return f"rkf45 at rest suggests the step {r[1]} after {h}"
        r = r[0]
    if list(r) != [0.4, 0.7]:
        return f"{fn} moves a state at rest to {list(r)}"


def gen(fn):
    return lambda rng, k: [fn, rng.uniform(-3, 3), rng.choice([-1, 1]) * (rng.uniform(0.01, 0.6) if k % 2 else 10 ** rng.uniform(-6, 1.5)), [rng.uniform(-1, 1) for _ in range(6)],
                           10 ** rng.uniform(-8, -2)]


def hint(fn):
    def mk(m):
        g = lambda n, d: m[n] if m.get(n) is not None else d
        if g("h", 0.0) == 0:
            return None
        return [fn, g("t", 0.3), g("h", 0.1), [g(f"y{i}", 0.25) for i in range(6)], abs(g("tol", 1e-6)) or 1e-6]
    return mk


def units():
    from . import purity
    R = []
    for fn in ("rk4", "rkf45"):
        for n in (1, 6):
            R.append(Unit(f"{fn}, dimension {n}", u_step(fn, n), sampled(gen(fn), c_step, hint(fn)), "_integrate." + fn, 12))
        R.append(Unit(f"{fn}, compiled", None, sampled(lambda rng, k, fn=fn: [fn, rng.uniform(-1, 1), rng.choice([-1, 1]) * 0.15, 1e-6], c_compiled),
                      "_integrate." + fn, 4))
    return R + purity.units("integrators")
