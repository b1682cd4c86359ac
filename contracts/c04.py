"""C04: equations of motion reproduce Newtonian motion with RTN acceleration."""
import math
from .common import *
from .spec import *
from . import c05

MOD = "_eom"
ASSUMPTIONS = ["the element-to-Cartesian maps are those of the specification (contracts of C05 and C06)"]
ACC = [var("uR"), var("uT"), var("uN")]
PTB = [var("pR"), var("pT"), var("pN")]


def newton(M, rv, mu, acc):
    rn = M.sqrt(dot(rv[:3], rv[:3]))
    R, Tt, N = rtn_axes(M, rv)
    return list(rv[3:]) + [-mu * rv[j] / rn ** 3 + acc[0] * R[j] + acc[1] * Tt[j] + acc[2] * N[j] for j in range(3)]


def push(rv, oe, doe):
    return [sum((T.diff(x, v) * d for v, d in zip(oe, doe)), ZERO) for x in rv]


def law_psi(kind, v):
    control = law(kind)[0]
    r = control(*lawargs(v))
    return r[1]


def u_eom(kind):
    def run(u):
        M = symmod(MOD)
        v = lawvars("keplerian" if kind == "keplerian" else "mee_with_a")
        oe, mu = list(v["oe"]), v["mu"]
        tau = var("t")
        if kind == "keplerian":
            dom = lawdom("keplerian", v)
            rv = kep_to_rv(SYM, oe, mu)
            fn = M.eom_kep_gauss
        elif kind == "mee_with_a":
            dom = lawdom("mee_with_a", v)
            p = oe[0] * (1 - oe[1] ** 2 - oe[2] ** 2)
            rv = mee_to_rv(SYM, [p] + oe[1:], mu)
            fn = M.eom_mee_with_a_gauss
        else:
            oe[0] = var("p", pos=True)
            w = 1 + oe[1] * T.cos(oe[5]) + oe[2] * T.sin(oe[5])
            dom = [lt(ZERO, oe[0]), lt(ZERO, mu), lt(ZERO, w), lt(ZERO, 1 - oe[1] ** 2 - oe[2] ** 2)]
            rv = mee_to_rv(SYM, oe, mu)
            fn = M.eom_mee_gauss
        want = newton(SYM, rv, mu, [a + b for a, b in zip(ACC, PTB)])
        e2 = dot(rv[:3], rv[:3])
        hints = []

        def f():
            if kind == "mee":
                psi = [[ZERO] * 5] * 3
            else:
                psi = law_psi(kind, v)
            x, U, P = seq(oe), seq(ACC), seq(PTB)
            r = nodes(fn(tau, x, (mu, U, psi[0], psi[1], psi[2], P)))
            return r, nodes(x), nodes(U), nodes(P)
        ps = u.explore(f, dom)
        ident_paths(u, f"{fn.__name__}: element rates pushed to Cartesian = velocity and gravity plus control plus perturbation", ps,
                    lambda r: list(zip(push(rv, oe, r[0]), want)), cons=dom, domain=lawenv("keplerian" if kind == "keplerian" else "mee_with_a"))
        for p in single(u, fn.__name__, ps):
            u.holds(f"{fn.__name__}: arguments untouched", all(a is b for a, b in zip(p.result[1] + p.result[2] + p.result[3], oe + ACC + PTB)))
        if kind == "mee":
            names = {n.data[0] for p in ps for n in T.topo(p.result[0]) if n.op == "v"}
            u.defined(fn.__name__, ps, extra=[lt(ZERO, w)])
        else:
            # the influence matrix itself is checked for definedness with the law (C03)
            e = v["oe"][1] if kind == "keplerian" else T.sqrt(v["oe"][1] ** 2 + v["oe"][2] ** 2)
            eom_only = [q for q in ps]
            x = seq(oe)
            dummy = [[var(f"psi{c}{r}") for r in range(5)] for c in range(3)]
            qs = u.explore(lambda: nodes(fn(tau, x, (mu, seq(ACC), dummy[0], dummy[1], dummy[2], seq(PTB)))), dom)
            if kind == "keplerian":
                bs = [oe[0], mu, e, 1 - e, 1 + e, 1 + e * T.cos(oe[5]), T.sin(oe[2])]
            else:
                bs = [oe[0], mu, 1 - e, 1 + e, 1 + oe[1] * T.cos(oe[5]) + oe[2] * T.sin(oe[5])]
            u.defined(fn.__name__, qs, basis=monomial_prover(bs, lawenv(kind), dom))
        u.reachable(fn.__name__, dom)
    return run


def c_eom(kind):
    def chk(x):
        M = realmod(MOD)
        oe = np.array(x["oe"])
        mu = x["mu"]
        if kind == "keplerian":
            psi = reallaw("keplerian")[0](*fargs(x))[1]
            f, m = M.eom_kep_gauss, lambda o: kep_to_rv(FLT, [float(q) for q in o], mu)
        elif kind == "mee_with_a":
            psi = reallaw("mee_with_a")[0](*fargs(x))[1]
            f = M.eom_mee_with_a_gauss

            def m(o):
                o = [float(q) for q in o]
                return mee_to_rv(FLT, [o[0] * (1 - o[1] ** 2 - o[2] ** 2)] + o[1:], mu)
        else:
            psi = [[0.0] * 5] * 3
            f, m = M.eom_mee_gauss, lambda o: mee_to_rv(FLT, [float(q) for q in o], mu)
        U, P = np.array(x["u"]), np.array(x["ptb"])
        doe = np.array(getattr(f, "py_func", f)(0.3, oe.copy(), (mu, U, psi[0], psi[1], psi[2], P)))
        if kind != "mee":
            d2 = np.array(f(0.3, oe.copy(), (mu, U, psi[0], psi[1], psi[2], P)))
            if not np.allclose(doe, d2, rtol=1e-9, atol=1e-12):
                return "compiled and interpreted equations of motion differ"
        h = 1e-5
        s = np.maximum(1.0, np.abs(oe)) * h
        J = np.zeros((6, 6))
        for j in range(6):
            a, b, a2, b2 = oe.copy(), oe.copy(), oe.copy(), oe.copy()
            a[j] += s[j]; b[j] -= s[j]; a2[j] += 2 * s[j]; b2[j] -= 2 * s[j]
            J[:, j] = (8 * (np.array(m(a)) - np.array(m(b))) - (np.array(m(a2)) - np.array(m(b2)))) / (12 * s[j])
        got = J @ doe
        want = np.array(newton(FLT, [float(q) for q in m(oe)], mu, list(U + P)))
        if not np.allclose(got, want, rtol=1e-5, atol=1e-5 * (1 + np.abs(want).max())):
            return f"d(r,v)/dt = {got.tolist()} but Newton gives {want.tolist()} at {x}"
    return chk


def gen(kind):
    g = genlaw("keplerian" if kind == "keplerian" else "mee_with_a", kinks=True)

    def run(rng, k):
        x = g(rng, k)
        if kind == "keplerian":
            x["oe"][1] = rng.uniform(0.1, 0.7)
        x["u"] = [rng.uniform(-1, 1) for _ in range(3)]
        x["ptb"] = [rng.uniform(-1, 1) for _ in range(3)]
        return x
    return run


def units():
    from . import purity
    R = []
    for kind in ("keplerian", "mee_with_a", "mee"):
        R.append(Unit({"keplerian": "eom_kep_gauss", "mee_with_a": "eom_mee_with_a_gauss", "mee": "eom_mee_gauss"}[kind], u_eom(kind),
                      sampled(gen(kind), c_eom(kind)), "_eom.eom_" + {"keplerian": "kep", "mee_with_a": "mee_with_a", "mee": "mee"}[kind] + "_gauss", 40))
    return R + purity.units("equations of motion")
