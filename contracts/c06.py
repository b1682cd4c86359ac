"""C06: Cartesian conversions."""
import math
from .common import *
from .spec import *
from . import c05, uniform
from .c05 import kepvars, kepdom, gen_kep, from_model, KN

ASSUMPTIONS = c05.ASSUMPTIONS + [
    "orbits with |n||e| < 1e-12 (n = z x h) take get_omega's near-equatorial branch; that sliver is outside the claim",
]
MOD = "_elements"
MU = var("mu", pos=True)


def gdom(k):
    """Generic elliptic orbit: 0 < e < 1, 0 < i < pi, with the derived facts used as hints."""
    a, e, i = k[:3]
    return [lt(ZERO, MU), lt(ZERO, a), lt(ZERO, e), lt(ZERO, 1 - e), lt(ZERO, 1 + e), lt(ZERO, T.sin(i)), lt(ZERO, 1 + e * T.cos(k[5])),
            lt(ZERO, 1 - e * e)]


def dom_env(rng):
    return {"a": rng.uniform(0.5, 3), "e": rng.uniform(0.05, 0.9), "i": rng.uniform(0.1, 3.0), "raan": rng.uniform(-3, 3),
            "aop": rng.uniform(-3, 3), "ta": rng.uniform(-3, 3), "mu": rng.uniform(0.5, 2)}


def inv_pairs(rv, k):
    """Angular momentum, eccentricity vector, energy, position of the orbit defined by the elements."""
    a, e, i, ra, om, ta = k
    P, Q, W = perifocal_axes(SYM, i, ra, om)
    p = a * (1 - e * e)
    hn = T.sqrt(MU * p)
    r, v = rv[:3], rv[3:]
    h = cross(r, v)
    rn = p / (1 + e * T.cos(ta))
    vh = cross(v, h)
    out = [(h[j], hn * W[j]) for j in range(3)]
    out += [(vh[j] / MU - r[j] / rn, e * P[j]) for j in range(3)]
    out += [(dot(v, v) / 2 - MU / rn, -MU / (2 * a)), (dot(r, r), rn * rn)]
    out += [(dot(r, P), rn * T.cos(ta)), (dot(r, Q), rn * T.sin(ta)), (dot(r, W), ZERO)]
    return out


def u_kep2sv(u):
    E = symmod(MOD)
    for k, dom, name in c05.cases():
        d = dom + [lt(ZERO, MU), lt(ZERO, 1 - k[1] * k[1]), lt(ZERO, 1 + k[1] * T.cos(k[5]))]
        ps = u.explore(lambda: nodes(E.kep2sv(seq(k), MU)), d)
        ident_paths(u, f"kep2sv: angular momentum, eccentricity vector, energy, position; {name}", ps, lambda r: inv_pairs(r, k), cons=d,
                    domain=dom_env)
        u.defined(f"kep2sv {name}", ps)
        u.reachable(f"kep2sv {name}", d)


def c_kep2sv(x):
    E = realmod(MOD)
    r = [float(v) for v in E.kep2sv(np.array(x[:6]), x[6])]
    s = kep_to_rv(FLT, x[:6], x[6])
    if not allclose(r, s, 1e-8, 1e-9):
        return f"kep2sv({x}) = {r}; the orbit's state is {s}"


def gen_kepmu(rng, k):
    return gen_kep(rng, k) + [rng.choice([1.0, rng.uniform(0.2, 3.0)])]


def gen_generic(rng, k):
    x = gen_kepmu(rng, k)
    x[1] = rng.uniform(0.01, 0.95)
    x[2] = rng.uniform(0.05, 3.0)
    if k % 7 == 3:
        x[4] = rng.choice([0.0, math.pi, -math.pi / 2])
    if k % 7 == 4:
        x[3] = rng.choice([0.0, math.pi])
    if k % 7 == 5:
        x[5] = rng.choice([0.0, math.pi, -math.pi, 2 * math.pi])
    if k % 7 == 6:
        x[2] = rng.choice([math.pi / 2, 1e-3])
    return x


def hint_mu(model):
    x = from_model(KN)(model)
    if x is None:
        return None
    m = model.get("mu")
    return x + [m if m and m > 0 else 1.0]


GETTERS = {
    "get_semiMajorAxis": (True, lambda r, k: [(r, k[0])]),
    "get_inclination": (False, lambda r, k: cis_eq(r, k[2])),
    "get_raan": (False, lambda r, k: cis_eq(r, k[3])),
    "get_omega": (True, lambda r, k: cis_eq(r, k[4])),
    "get_trueanom": (True, lambda r, k: cis_eq(r, k[5])),
    "get_period": (True, lambda r, k: [(r, 2 * T.PI * T.sqrt(k[0] ** 3 / MU))]),
}


def state_of(k):
    return kep_to_rv(SYM, k, MU)


def hints(k):
    c = T.cos(k[4])
    ci = T.cos(k[2])
    return [lt(ZERO, 1 - ci), lt(ZERO, 1 + ci), lt(ZERO, 1 - c), lt(ZERO, 1 + c)]


def special(k):
    """Measure-zero cases the strict hints leave out."""
    out = [(k, gdom(k) + hints(k), "generic")]
    for v, n in ((ZERO, "aop = 0"), (T.PI, "aop = pi")):
        q = k[:4] + [v] + k[5:]
        out.append((q, gdom(q) + hints(k)[:2], n))
    return out


def near_equatorial(p):
    """The path took get_omega's branch for |n||e| < 1e-12."""
    for c in p.pc:
        if c.op == "not" and c.args[0].op == "le" and c.args[0].args[0].op == "c" and 0 < c.args[0].args[0].data < Fraction(1, 10 ** 9):
            return True
        if c.op == "lt" and c.args[1].op == "c" and 0 < c.args[1].data < Fraction(1, 10 ** 9):
            return True
    return False


from fractions import Fraction


def u_getter(fn):
    def run(u):
        E = symmod(MOD)
        withmu, mk = GETTERS[fn]
        for k, dom, name in special(kepvars()):
            rv = state_of(k)
            f = getattr(E, fn)
            ps = u.explore((lambda: f(seq(rv), MU)) if withmu else (lambda: f(seq(rv))), dom[:8], feas_ms=150)
            ps = [p for p in ps if not near_equatorial(p)]
            bs = [k[0], MU, k[1], 1 - k[1], 1 + k[1], 1 + k[1] * T.cos(k[5]), T.sin(k[2])]
            ident_paths(u, f"{fn}(state of the orbit) = element; {name}", ps, lambda r: mk(r, k), cons=dom, domain=dom_env, basis=bs)
            u.defined(f"{fn} {name}", ps, basis=monomial_prover(bs, dom_env, dom))
        u.reachable(fn, gdom(kepvars()))
    return run


def c_getter(fn):
    def chk(x):
        E = realmod(MOD)
        rv = np.array(kep_to_rv(FLT, x[:6], x[6]))
        withmu, _ = GETTERS[fn]
        r = float(getattr(E, fn)(rv, x[6]) if withmu else getattr(E, fn)(rv))
        want = {"get_semiMajorAxis": x[0], "get_inclination": x[2], "get_raan": x[3], "get_omega": x[4], "get_trueanom": x[5],
                "get_period": 2 * math.pi * math.sqrt(x[0] ** 3 / x[6])}[fn]
        if fn in ("get_semiMajorAxis", "get_period"):
            ok = close(r, want, 1e-6, 1e-9)
        else:
            ok = abs(ang(r - want)) < 2e-5 if r == r else False
        if not ok:
            return f"{fn} of the state of {x} is {r}, expected {want}"
    return chk


def u_ecc(u):
    E = symmod(MOD)
    for k, dom, name in special(kepvars()):
        rv = state_of(k)
        ps = u.explore(lambda: nodes(E.get_eccentricity(seq(rv), MU)), dom[:8], feas_ms=150)
        P, Q, W = perifocal_axes(SYM, k[2], k[3], k[4])
        ident_paths(u, f"get_eccentricity = e * periapsis direction; {name}", ps, lambda r: [(r[j], k[1] * P[j]) for j in range(3)],
                    cons=dom, domain=dom_env)


def c_ecc(x):
    E = realmod(MOD)
    rv = np.array(kep_to_rv(FLT, x[:6], x[6]))
    r = [float(v) for v in E.get_eccentricity(rv, x[6])]
    P, Q, W = perifocal_axes(FLT, x[2], x[3], x[4])
    if not allclose(r, [x[1] * c for c in P], 1e-7, 1e-7):
        return f"get_eccentricity of {x} is {r}, expected {[x[1] * c for c in P]}"


def u_sv2kep(u):
    E = symmod(MOD)
    for k, dom, name in special(kepvars()):
        rv = state_of(k)
        ps = u.explore(lambda: nodes(E.sv2kep(seq(rv), MU)), dom[:8], feas_ms=150)
        ps = [p for p in ps if not near_equatorial(p)]
        ident_paths(u, f"sv2kep inverts the element-to-state map; {name}", ps,
                    lambda r: [(r[0], k[0]), (r[1], k[1])] + [q for j in range(2, 6) for q in cis_eq(r[j], k[j])], cons=dom, domain=dom_env)


def c_sv2kep(x):
    E = realmod(MOD)
    rv = E.kep2sv(np.array(x[:6]), x[6])
    r = [float(v) for v in E.sv2kep(rv, x[6])]
    if not (close(r[0], x[0], 1e-6, 1e-9) and abs(r[1] - x[1]) < 1e-6 and all(v == v and abs(ang(v - w)) < 5e-5 for v, w in zip(r[2:], x[2:6]))):
        return f"sv2kep(kep2sv({x})) = {r}"
    rv2 = [float(v) for v in E.kep2sv(np.array(r), x[6])]
    if not allclose(rv2, [float(v) for v in rv], 1e-4, 1e-4):
        return f"kep2sv(sv2kep(.)) of {x} gives {rv2}"


def u_sv2kep_eq(u):
    """Equatorial and circular orbits: extraction stays defined; equatorial orbits keep periapsis direction and position."""
    E = symmod(MOD)
    a, e, i, ra, om, ta = kepvars()
    k = [a, e, ZERO, ra, om, ta]
    dom = [lt(ZERO, MU), lt(ZERO, a), lt(ZERO, e), lt(ZERO, 1 - e), lt(ZERO, 1 + e), lt(ZERO, 1 + e * T.cos(ta)), lt(ZERO, 1 - e * e)]
    rv = state_of(k)
    bs = [a, MU, e, 1 - e, 1 + e, 1 + e * T.cos(ta)]
    ps = u.explore(lambda: nodes(E.sv2kep(seq(rv), MU)), dom, feas_ms=150)
    ident_paths(u, "sv2kep of an equatorial orbit", ps, lambda r: [(r[0], a), (r[1], e), (T.cos(r[2]), ONE), (T.sin(r[2]), ZERO)] +
                cis_eq(r[3] + r[4], ra + om) + cis_eq(r[5], ta), cons=dom, domain=dom_env, basis=bs)
    u.defined("sv2kep of an equatorial orbit", ps, basis=monomial_prover(bs, dom_env, dom))
    k = [a, ZERO, i, ra, om, ta]
    dom = [lt(ZERO, MU), lt(ZERO, a), lt(ZERO, T.sin(i))]
    rv = state_of(k)
    ps = u.explore(lambda: nodes(E.sv2kep(seq(rv), MU)), dom, feas_ms=150)
    ident_paths(u, "sv2kep of a circular orbit", ps, lambda r: [(r[0], a), (r[1], ZERO)] + cis_eq(r[2], i) + cis_eq(r[3], ra), cons=dom,
                domain=dom_env, basis=[a, MU, T.sin(i)])
    u.defined("sv2kep of a circular orbit", ps, basis=monomial_prover([a, MU, T.sin(i)], dom_env, dom))


def c_sv2kep_eq(x):
    E = realmod(MOD)
    y = list(x)
    if y[1] != 0.0:
        y[2] = 0.0
    rv = np.array(kep_to_rv(FLT, y[:6], y[6]))
    r = [float(v) for v in E.sv2kep(rv, y[6])]
    if any(v != v for v in r):
        return f"sv2kep of the state of {y} contains nan: {r}"
    if not (close(r[0], y[0], 1e-6) and abs(r[1] - y[1]) < 1e-6 and abs(r[2] - y[2]) < 1e-5):
        return f"sv2kep of the state of {y} is {r}"
    if y[2] == 0.0 and y[1] > 0.01 and (abs(ang(r[3] + r[4] - y[3] - y[4])) > 1e-5 or abs(ang(r[5] - y[5])) > 1e-5):
        return f"sv2kep of the equatorial state of {y} is {r}"


def gen_edge(rng, k):
    x = gen_generic(rng, k)
    if k % 2:
        x[1] = 0.0
    else:
        x[2] = 0.0
    return x


def u_a2sv(u):
    E = symmod(MOD)
    for m, dom, name in c05.meecases("a"):
        e2, t2 = lift(m[1]) ** 2 + lift(m[2]) ** 2, lift(m[3]) ** 2 + lift(m[4]) ** 2
        w = 1 + m[1] * T.cos(m[5]) + m[2] * T.sin(m[5])
        d = dom + [lt(ZERO, MU), lt(ZERO, 1 - e2), lt(ZERO, w), lt(ZERO, 1 + t2)]
        spec = mee_to_rv(SYM, [m[0] * (1 - e2)] + m[1:], MU)
        ps = u.explore(lambda: nodes(E.mee_with_a2sv(seq(m), MU)), d, feas_ms=150)
        ident_paths(u, f"mee_with_a2sv = equinoctial state; {name}", ps, lambda r: list(zip(r, spec)), cons=d)
        u.reachable(f"mee_with_a2sv {name}", d[:3])
        u.defined(f"mee_with_a2sv {name}", ps, basis=monomial_prover([lift(m[0]), MU, 1 - e2, w, 1 + t2], lambda r: {
            "f": r.uniform(-.5, .5), "g": r.uniform(-.5, .5), "h": r.uniform(-1, 1), "k": r.uniform(-1, 1), "L": r.uniform(-3, 3)}, d))


def c_a2sv(x):
    E = realmod(MOD)
    m = kep_to_mee(FLT, x[:6])
    s = mee_to_rv(FLT, m, x[6])
    r = [float(v) for v in E.mee_with_a2sv(np.array([x[0]] + m[1:]), x[6])]
    if not allclose(r, s, 1e-7, 1e-8):
        return f"mee_with_a2sv of {[x[0]] + m[1:]} is {r}, the state is {s}"


def u_specs(u):
    """The two specification maps describe the same state (consistency of the specification)."""
    for k, dom, name in c05.cases():
        m = kep_to_mee(SYM, k)
        c = T.cos(k[2] / 2)
        d = dom + [lt(ZERO, MU), lt(ZERO, 1 - k[1] * k[1]), lt(ZERO, 1 + k[1] * T.cos(k[5]))]
        u.identity(f"specification: kep_to_rv = mee_to_rv after kep_to_mee; {name}", list(zip(kep_to_rv(SYM, k, MU), mee_to_rv(SYM, m, MU))), d)


def u_orbit(n):
    def run(u):
        k = kepvars()
        d = gdom(k)
        cons = d[:4] + d[5:6] + d[7:]
        # any number of columns: the grid of anomalies is arbitrary
        E = uniform.fresh(MOD)
        why, done = None, False
        try:
            cnt = uniform.Count("ta")
            with uniform.Executed() as ex:
                ps = u.explore(lambda: (cnt.grids.clear(), nodes(E.get_orbit_coordinates(seq(k), MU, cnt)), list(cnt.grids))[1:], d, feas_ms=150, max_paths=200)
            why = uniform.verdict(ex)
            if not why and all(p.exc is None and len(p.result[1]) == 1 and len(p.result[0]) == 6 * uniform.N for p in ps):
                def mk(r):
                    a, b, end, g = r[1][0]
                    out = [(b - a, 2 * T.PI), (ONE if end is True else ZERO, ONE)]
                    for j in range(uniform.N):
                        out += list(zip([r[0][i * uniform.N + j] for i in range(6)], kep_to_rv(SYM, k[:5] + [g[j]], MU)))
                    return out
                u.holds("get_orbit_coordinates: every column is treated alike, whatever their number", True)
                ident_paths(u, "get_orbit_coordinates: the states at evenly spaced true anomalies over one revolution, for any number of them", ps, mk, cons=cons)
                done = True
        except Unsupported as e:
            why = [str(e)]
        if done:
            return
        u.unsupported.append(f"bounded ({n} columns): " + "; ".join(why or ["the grid of anomalies is not one linspace"])[:300])
        E = symmod(MOD)
        ps = u.explore(lambda: E.get_orbit_coordinates(seq(k), MU, n), d, feas_ms=150, max_paths=200)

        def mkn(r):
            out = []
            for j in range(n):
                ta = 2 * T.PI * T.const(Fraction(j, n - 1))
                out += list(zip([r[i, j] for i in range(6)], kep_to_rv(SYM, k[:5] + [ta], MU)))
            return out
        ident_paths(u, f"get_orbit_coordinates: {n} states at evenly spaced true anomalies over one revolution (bounded: steps={n})", ps, mkn, cons=cons)
    return run


def c_orbit(x):
    E = realmod(MOD)
    n = int(x[7])
    c = E.get_orbit_coordinates(np.array(x[:6]), x[6], n)
    if c.shape != (6, n):
        return f"shape {c.shape}"
    P, Q, W = perifocal_axes(FLT, x[2], x[3], x[4])
    p = x[0] * (1 - x[1] ** 2)
    hv = [math.sqrt(x[6] * p) * w for w in W]
    tot, prev = 0.0, None
    for j in range(n):
        r, v = [float(t) for t in c[:3, j]], [float(t) for t in c[3:, j]]
        if not allclose(cross(r, v), hv, 1e-6, 1e-7):
            return f"column {j} of get_orbit_coordinates({x}) has another angular momentum"
        rn = math.sqrt(dot(r, r))
        if not close(dot(v, v) / 2 - x[6] / rn, -x[6] / (2 * x[0]), 1e-6, 1e-7):
            return f"column {j} of get_orbit_coordinates({x}) has another energy"
        vh = cross(v, cross(r, v))
        if not allclose([vh[q] / x[6] - r[q] / rn for q in range(3)], [x[1] * t for t in P], 1e-6, 1e-6):
            return f"column {j} of get_orbit_coordinates({x}) has another eccentricity vector"
        th = math.atan2(dot(r, Q), dot(r, P))
        if prev is not None:
            tot += (th - prev) % (2 * math.pi)
        prev = th
    if n >= 4 and abs(tot - 2 * math.pi) > 1e-6:
        return f"get_orbit_coordinates({x}) spans {tot} rad"


def units():
    R = [Unit("kep2sv", u_kep2sv, sampled(gen_kepmu, c_kep2sv, hint_mu), "_elements.kep2sv", 60),
         Unit("specification", u_specs, None, "specification")]
    for fn in GETTERS:
        R.append(Unit(fn, u_getter(fn), sampled(gen_generic, c_getter(fn), hint_mu), "_elements." + fn, 60))
    R.append(Unit("get_eccentricity", u_ecc, sampled(gen_generic, c_ecc, hint_mu), "_elements.get_eccentricity", 60))
    R.append(Unit("sv2kep", u_sv2kep, sampled(gen_generic, c_sv2kep, hint_mu), "_elements.sv2kep", 60))
    R.append(Unit("sv2kep, circular or equatorial", u_sv2kep_eq, sampled(gen_edge, c_sv2kep_eq), "_elements.sv2kep", 60))
    R.append(Unit("mee_with_a2sv", u_a2sv, sampled(gen_kepmu, c_a2sv, hint_mu), "_elements.mee_with_a2sv", 60))
    R.append(Unit("get_orbit_coordinates", u_orbit(5), sampled(lambda r, k: gen_kepmu(r, k) + [r.choice([4, 5, 11, 50, 200])], c_orbit),
                  "_elements.get_orbit_coordinates", 40))
    return R
