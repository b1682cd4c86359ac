"""C02: the generated gradient is the exact gradient of Q in every generated evaluator."""
import math
from .common import *
from .spec import *

ASSUMPTIONS = [
    "points where Q itself has a kink (Keplerian: sin(omega) = 0, cos(omega) = 0 or cos(i) = 0) are outside the claim: no gradient exists there",
    "an angular error of exactly half a turn is outside the claim (the error jumps there)",
]


def dominant(kind, v):
    d = lawdom(kind, v)
    return d


def u_grad(kind, cse):
    def run(u):
        control, psi_f, dq_f, dqdt_f = law(kind, cse)
        v = lawvars(kind)
        dom = dominant(kind, v)
        tag = f"{kind}, cse={cse}"
        ps = u.explore(lambda: control(*lawargs(v)), dom)
        for p in single(u, "control", ps):
            cons = dom + list(p.pc)
            D, psi, q, dq = p.result
            D, dq, q = nodes(D), nodes(dq), lift(q)
            u.holds(f"five gradient components, three directions [{tag}]", len(dq) == 5 and len(D) == 3 and len(psi) == 3 and all(len(c) == 5 for c in psi))
            for j in range(5):
                u.identity(f"returned gradient component {j} = dQ/d(element {j}) [{tag}]", [(dq[j], T.diff(q, v["oe"][j]))], cons, domain=lawenv(kind))
            psi = [[lift(x) for x in c] for c in psi]
            raw = [sum((psi[c][j] * dq[j] for j in range(5)), ZERO) for c in range(3)]
            u.identity(f"raw direction = influence matrix transposed times gradient [{tag}]", list(zip(D, raw)), cons, domain=lawenv(kind))
            q2 = u.explore(lambda: (psi_f(*lawargs(v)), dq_f(*lawargs(v)), dqdt_f(*lawargs(v))), dom)
            for r in single(u, "evaluators", q2):
                cons = cons + list(r.pc)
                P2, d2, rate = r.result
                u.identity(f"influence-matrix evaluator agrees [{tag}]", [(psi[c][j], lift(P2[c][j])) for c in range(3) for j in range(5)], cons, domain=lawenv(kind))
                u.identity(f"gradient evaluator agrees [{tag}]", list(zip(dq, nodes(d2))), cons, domain=lawenv(kind))
                n2 = dot(raw, raw)
                u.identity(f"rate evaluator = acceleration times |raw direction| [{tag}]", [(lift(rate), v["f"] * T.sqrt(n2))],
                           cons + [lt(ZERO, n2)], domain=lawenv(kind))
        u.reachable(tag, dom)
        u.functions.update([f"_symbolic.symbolic_qlaw_{kind}"])
    return run


def u_cse(kind):
    def run(u):
        v = lawvars(kind)
        dom = dominant(kind, v)
        ps = u.explore(lambda: (law(kind, True)[0](*lawargs(v)), law(kind, False)[0](*lawargs(v))), dom)
        for p in single(u, "control", ps):
            cons = dom + list(p.pc)
            a, b = p.result
            u.identity(f"Q with and without common subexpressions agree [{kind}]", [(lift(a[2]), lift(b[2]))], cons, domain=lawenv(kind))
            u.identity(f"influence matrix with and without common subexpressions agree [{kind}]",
                       [(lift(a[1][c][j]), lift(b[1][c][j])) for c in range(3) for j in range(5)], cons, domain=lawenv(kind))
    return run


def c_law(kind, cse):
    def chk(x):
        control, psi_f, dq_f, dqdt_f = reallaw(kind, cse)
        A = fargs(x)
        D, psi, q, dq = control(*A)
        D, dq = [float(t) for t in D], [float(t) for t in dq]
        P = np.array([[float(t) for t in c] for c in psi])
        if any(t != t for t in D + dq + [float(q)]):
            return f"undefined control at {x}"
        raw = P @ np.array(dq)
        if not np.allclose(raw, D, rtol=1e-6, atol=1e-9 * (1 + np.abs(raw).max())):
            return f"raw direction {D}, influence matrix transposed times gradient is {raw.tolist()} at {x}"
        P2 = np.array([[float(t) for t in c] for c in psi_f(*A)])
        if not np.allclose(P, P2, rtol=1e-7, atol=1e-9):
            return f"influence matrices differ at {x}"
        if not np.allclose(dq, [float(t) for t in dq_f(*A)], rtol=1e-6, atol=1e-9 * (1 + max(map(abs, dq)))):
            return f"gradient evaluators differ at {x}"
        n = float(np.linalg.norm(raw))
        if n > 1e-12 and not close(float(dqdt_f(*A)), x["f"] * n, 1e-5, 1e-10):
            return f"rate evaluator gives {float(dqdt_f(*A))}, expected {x['f'] * n} at {x}"
        oe = np.array(x["oe"])
        for j in range(5):
            e = []
            for hh in (2e-6, 4e-6):
                s = hh * max(1.0, abs(oe[j]))
                qs = []
                for k in (-2, -1, 1, 2):
                    y = oe.copy()
                    y[j] += k * s
                    z = dict(x, oe=list(y))
                    qs.append(float(control(*fargs(z))[2]))
                e.append((8 * (qs[2] - qs[1]) - (qs[3] - qs[0])) / (12 * s))
            tol = 1e-4 * (1 + abs(e[0]) + abs(float(q)))
            if abs(e[0] - e[1]) > tol:       # kink nearby
                continue
            if abs(dq[j] - e[0]) > 10 * tol:
                return f"gradient component {j} is {dq[j]}, difference quotient of Q is {e[0]} at {x}"
        a = reallaw(kind, not cse)[0](*A)
        if not close(float(a[2]), float(q), 1e-6, 1e-12):
            return f"Q differs with and without cse at {x}"
    return chk


def units():
    R = []
    for kind in ("keplerian", "mee_with_a"):
        law(kind, True), law(kind, False)
        for cse in (True, False):
            R.append(Unit(f"{kind}, cse={cse}", u_grad(kind, cse), sampled(genlaw(kind), c_law(kind, cse), hintlaw(kind)), f"_symbolic.symbolic_qlaw_{kind}", 30))
        R.append(Unit(f"{kind}, cse on/off", u_cse(kind), None, f"_symbolic.symbolic_qlaw_{kind}"))
    return R
