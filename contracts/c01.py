"""C01: thrust is applied along the steepest descent of Q."""
import math
from .common import *
from .spec import *
from . import solverchecks, trace

ASSUMPTIONS = [
    "IEEE overflow/underflow of the norm of the raw direction is not modelled",
    "the raw direction is the influence matrix transposed times the gradient (C02), the influence matrix is Gauss's (C04)",
]
MOD = "_lyapunov"
NAMES = ("rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp")


def world():
    """A control law that is an arbitrary function satisfying the contract of C02: raw direction = psi^T dqdoe."""
    psi = [[var(f"psi{c}{j}") for j in range(5)] for c in range(3)]
    dq = [var(f"dq{j}") for j in range(5)]
    D = [sum((psi[c][j] * dq[j] for j in range(5)), ZERO) for c in range(3)]
    return psi, dq, D


def steer(M, al, be):
    return [M.cos(be) * M.sin(al), M.cos(be) * M.cos(al), M.sin(be)]


def u_angles(case):
    """case: which components of the raw direction are assumed to vanish."""
    def run(u):
        Ly = symmod(MOD)
        psi, dq, D = world()
        if case == "generic":
            raw = [var(f"D{c}") for c in range(3)]
        elif case == "out of plane":
            raw = [ZERO, ZERO, var("D2")]
        elif case == "in plane":
            raw = [var("D0"), var("D1"), ZERO]
        elif case == "transverse":
            raw = [ZERO, var("D1"), ZERO]
        else:
            raw = [var("D0"), ZERO, ZERO]
        v = lawvars("mee_with_a")
        q = var("Q")
        calls = []

        def fun(*a):
            calls.append(a)
            return [list(raw), [list(c) for c in psi], q, list(dq)]
        n2 = dot(raw, raw)
        h2 = raw[0] * raw[0] + raw[1] * raw[1]
        pre = [lt(ZERO, n2)]
        if h2 is not ZERO:
            pre.append(lt(ZERO, h2))
        # raw direction = psi^T dq, used to eliminate the gradient from the reported rate: handled as an identity below
        ps = u.explore(lambda: Ly.lyapunov_control_angles(fun, *lawargs(v)), pre)
        norm = T.sqrt(n2)
        dom = lambda r: {}
        for p in single(u, f"lyapunov_control_angles [{case}]", ps):
            al, be, un, psi_r, q_r, rate = p.result
            w = steer(SYM, lift(al), lift(be))
            u.identity(f"thrust direction = -D/|D| [{case}]", [(w[c] * norm, -raw[c]) for c in range(3)], p.pc)
            u.identity(f"returned unit vector = D/|D| up to the documented sign [{case}]", [(nodes(un)[c] * norm, raw[c]) for c in range(3)], p.pc)
            if case == "generic":
                u.identity(f"Q is the law's, influence matrix is the law's [{case}]",
                           [(lift(q_r), q)] + [(lift(psi_r[c][j]), psi[c][j]) for c in range(3) for j in range(5)], p.pc)
                # with D replaced by psi^T dq
                sub = {raw[c].uid: D[c] for c in range(3)}
                r2, m2 = T.substitute([lift(rate), n2], sub)
                pcD = T.substitute(list(p.pc), sub)
                u.identity(f"reported rate = acceleration times |D| [{case}]", [(r2, v["f"] * T.sqrt(m2))], [lt(ZERO, m2)] + pcD)
                uf = nodes(un)
                along = sum((dq[j] * psi[c][j] * v["f"] * w[c] for c in range(3) for j in range(5)), ZERO)
                a2, = T.substitute([along], sub)
                u.identity(f"rate of Q along the thrust = -acceleration times |D| [{case}]", [(a2, -v["f"] * T.sqrt(m2))],
                           [lt(ZERO, m2), lt(ZERO, dot(D[:2] + [ZERO], D[:2] + [ZERO]))] + pcD)
        u.defined(f"lyapunov_control_angles [{case}]", ps)
        u.reachable(case, pre)
        want = lawargs(v)
        ok = len(calls) > 0 and all(len(a) == len(want) for a in calls)
        u.holds(f"law called with its own arguments [{case}]", ok and all(_same(x, y) for a in calls for x, y in zip(a, want)),
                "an argument of the control law is passed in another role")
        u.functions |= {"_lyapunov.lyapunov_control_angles", "_lyapunov._u_to_thrust_angles"}
    return run


def _same(x, y):
    if isinstance(x, (list, tuple, np.ndarray)) or isinstance(y, (list, tuple, np.ndarray)):
        a, b = nodes(x), nodes(y)
        return len(a) == len(b) and all(p is q for p, q in zip(a, b))
    return lift(x) is lift(y)


def u_steepest(u):
    """Cauchy-Schwarz: no unit direction changes Q faster downhill than -D/|D|; with f > 0 the rate is negative."""
    D = [var(f"D{c}") for c in range(3)]
    w = [var(f"w{c}") for c in range(3)]
    c = cross(w, D)
    u.identity("|D|^2 |w|^2 - (D.w)^2 = |w x D|^2", [(dot(D, D) * dot(w, w) - dot(D, w) * dot(D, w), dot(c, c))])
    n, s, x = var("n"), var("s"), var("x")
    u.prove("n = |D| > 0, n^2 - s^2 = x >= 0: s >= -n for the change s along any unit direction",
            [lt(ZERO, n), le(ZERO, x), eq(n * n - s * s, x)], le(-n, s))
    f = var("f", pos=True)
    u.prove("forward thrust never raises Q", [lt(ZERO, n)], lt(-f * n, ZERO))
    u.functions.add("lemma")


def u_even(kind):
    """The law's dependence on the acceleration and on whole turns, used as the callee contract inside QLaw.solve."""
    def run(u):
        control, psi_f, dq_f, dqdt_f = law(kind, True)
        v = lawvars(kind)
        dom = lawdom(kind, v)
        for nm, w in (("sign of the acceleration", dict(v, f=-v["f"])), ("whole turns of the position", dict(v, oe=v["oe"][:5] + [v["oe"][5] + 2 * PI]))):
            ps = u.explore(lambda: (control(*lawargs(v)), control(*lawargs(w)), dqdt_f(*lawargs(v)), dqdt_f(*lawargs(w))), dom)
            for p in single(u, nm, ps):
                a, b, ra, rb = p.result
                u.identity(f"raw direction, Q and influence matrix do not depend on the {nm} [{kind}]",
                           list(zip(nodes(a[0]), nodes(b[0]))) + [(lift(a[2]), lift(b[2]))] +
                           [(lift(a[1][c][j]), lift(b[1][c][j])) for c in range(3) for j in range(5)], dom, domain=lawenv(kind))
        u.functions.add(f"_symbolic.symbolic_qlaw_{kind}")
    return run


# ---------------------------------------------------------------- concrete evaluation
def gen_raw(rng, k):
    mode = k % 8
    z = 10 ** (rng.uniform(-14, 8) if k % 16 >= 8 else 0)
    D = [z * rng.gauss(0, 1) * 10 ** (rng.uniform(-4, 4) if z == 1 else rng.uniform(-1, 1)) for _ in range(3)]
    if mode == 1:
        D = [0.0, 0.0, D[2]]
    if mode == 2:
        D = [D[0], D[1], 0.0]
    if mode == 3:
        D = [0.0, D[1], 0.0]
    if mode == 4:
        D = [D[0], 0.0, 0.0]
    if mode == 5:
        D = [-0.0, 0.0, D[2]]
    # psi and dq realising D: three gradient components with an identity block, two more random columns compensated
    dq = [rng.uniform(0.2, 2) * rng.choice([-1, 1]) for _ in range(5)]
    z = min(z, 1.0)
    psi = [[z * rng.uniform(-1, 1) if j != c else 0.0 for j in range(5)] for c in range(3)]
    for c in range(3):
        psi[c][c] = (D[c] - sum(psi[c][j] * dq[j] for j in range(5) if j != c)) / dq[c]
    return {"D": D, "psi": psi, "dq": dq, "Q": rng.uniform(0, 3) * (1 if k % 3 else rng.choice([0.0, 10 ** rng.uniform(-12, 3)])), "f": rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 0)}


def c_raw(x):
    Ly = realmod(MOD)
    seen = []

    def fun(*a):
        seen.append(a)
        return [list(x["D"]), [list(c) for c in x["psi"]], x["Q"], list(x["dq"])]
    args = [1.7, x["f"], np.arange(6.) + 1, np.arange(5.) + 11, 0.31, 3.1, 4.1, 2.1, 0.011, 1.3, 0.9, np.arange(5.) + 21]
    try:
        al, be, un, psi, q, rate = Ly.lyapunov_control_angles(fun, *args)
    except Exception as e:
        return f"{type(e).__name__}: {e} for raw direction {x['D']}"
    for a in seen:
        if len(a) != 12 or any(not np.array_equal(np.asarray(p), np.asarray(w)) for p, w in zip(a, args)):
            return f"law called with {a}, expected {args}"
    n = math.sqrt(sum(t * t for t in x["D"]))
    w = steer(FLT, float(al), float(be))
    if not allclose(w, [-t / n for t in x["D"]], 1e-9, 1e-9):
        return f"raw direction {x['D']}: thrust along {w}"
    if not allclose([float(t) for t in un], [t / n for t in x["D"]], 1e-9, 1e-12):
        return f"raw direction {x['D']}: unit vector {list(un)}"
    if float(q) != x["Q"] or not np.array_equal(np.array(psi, dtype=float), np.array(x["psi"])):
        return "Q or the influence matrix was changed"
    scale = sum(abs(p * d) for c in x["psi"] for p, d in zip(c, x["dq"]))
    if abs(float(rate) - x["f"] * n) > 1e-9 * abs(x["f"]) * (n + scale):
        return f"raw direction {x['D']}, acceleration {x['f']}: rate {rate}, expected {x['f'] * n}"


def c_law(kind):
    """End to end with the generated law: thrusting along the angles changes Q at the reported rate."""
    def chk(x):
        Ly = realmod(MOD)
        control = reallaw(kind, True)[0]
        A = fargs(x)
        D, psi, q, dq = control(*A)
        D = np.array([float(t) for t in D])
        n = float(np.linalg.norm(D))
        if not n > 1e-9 or n != n:
            return None
        al, be, un, psi2, q2, rate = Ly.lyapunov_control_angles(control, *A)
        w = np.array(steer(FLT, float(al), float(be)))
        if not np.allclose(w, -D / n, atol=1e-8):
            return f"raw direction {D.tolist()}: thrust along {w.tolist()} at {x}"
        P = np.array([[float(t) for t in c] for c in psi])
        actual = float(x["f"] * (w @ (P @ np.array([float(t) for t in dq]))))
        if not close(actual, -x["f"] * n, 1e-6, 1e-10):
            return f"thrust changes Q at {actual}, steepest is {-x['f'] * n} at {x}"
        if not close(float(rate), x["f"] * n, 1e-6, 1e-10):
            return f"reported rate {rate}, expected {x['f'] * n} at {x}"
    return chk


def hint_raw(m):
    import random
    x = gen_raw(random.Random(3), 0)
    D = [m.get(f"D{c}") for c in range(3)]
    if all(d is None for d in D) and m.get("dq0") is not None:
        g = lambda n: m.get(n) or 0.0
        x["dq"] = [g(f"dq{j}") for j in range(5)]
        x["psi"] = [[g(f"psi{c}{j}") for j in range(5)] for c in range(3)]
        x["D"] = [sum(p * d for p, d in zip(c, x["dq"])) for c in x["psi"]]
        x["Q"] = m["Q"] if m.get("Q") is not None else x["Q"]
        x["f"] = m.get("acc") or x["f"]
        return x if any(x["D"]) else None
    D = [0.0 if d is None else d for d in D]
    if not any(D):
        return None
    for c in range(3):
        x["psi"][c][c] = (D[c] - sum(x["psi"][c][j] * x["dq"][j] for j in range(5) if j != c)) / x["dq"][c]
    x["D"] = D
    x["Q"] = m["Q"] if m.get("Q") is not None else x["Q"]
    x["f"] = m.get("acc") or x["f"]
    return x


def units():
    from . import purity
    R = []
    for case in ("generic", "out of plane", "in plane", "transverse", "radial"):
        R.append(Unit(f"steering angles, {case}", u_angles(case), sampled(gen_raw, c_raw, hint_raw), MOD + ".lyapunov_control_angles"))
    R.append(Unit("steepest descent", u_steepest, None, "lemma"))
    for kind in ("keplerian", "mee_with_a"):
        law(kind, True)
        R.append(Unit(f"law contract used by the solver, {kind}", u_even(kind), sampled(genlaw(kind), c_law(kind), hintlaw(kind)), f"_symbolic.symbolic_qlaw_{kind}", 30))
    return R + purity.units("control angles") + solverchecks.solver_units("C01")
