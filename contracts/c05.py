"""C05: element-set conversions are mutually inverse."""
import math
from .common import *
from .spec import *

ASSUMPTIONS = ["inclination in [0, pi) is read as cos(i/2) > 0 and sin(i/2) >= 0 (trigonometric fact)"]
MOD = "_elements"


def kepvars():
    return [var("a", pos=True), var("e", nonneg=True), var("i"), var("raan"), var("aop"), var("ta")]


def kepdom(k):
    return [lt(ZERO, k[0]), lt(k[1], ONE), le(ZERO, k[1]), lt(ZERO, T.cos(k[2] / 2)), le(ZERO, T.sin(k[2] / 2))]


def cases():
    k = kepvars()
    gen = (k, kepdom(k) + [lt(ZERO, k[1]), lt(ZERO, T.sin(k[2] / 2))], "generic")
    c = [k[0], ZERO] + k[2:]
    circ = (c, kepdom(c)[:1] + kepdom(k)[3:] + [lt(ZERO, T.sin(k[2] / 2))], "circular")
    q = [k[0], k[1], ZERO] + k[3:]
    equa = (q, kepdom(k)[:3] + [lt(ZERO, k[1])], "equatorial")
    b = [k[0], ZERO, ZERO] + k[3:]
    both = (b, kepdom(k)[:1], "circular equatorial")
    return [gen, circ, equa, both]


def same_orbit(x, y):
    """Two Keplerian sets name the same orbit and position (all six numbers where defined, true longitude otherwise)."""
    out = [(x[0], y[0]), (x[1], y[1])] + cis_eq(x[2], y[2])
    circ = lift(x[1]) is ZERO
    equa = lift(x[2]) is ZERO
    if not equa:
        out += cis_eq(x[3], y[3])
        out += cis_eq(x[4] + x[5], y[4] + y[5])
    else:
        out += cis_eq(x[3] + x[4] + x[5], y[3] + y[4] + y[5])
    if not circ:
        out += cis_eq(x[5], y[5])
        if not equa:
            out += cis_eq(x[4], y[4])
        else:
            out += cis_eq(x[3] + x[4], y[3] + y[4])
    return out


def f_same_orbit(x, y, tol=1e-7):
    """Concrete counterpart: same Cartesian state."""
    m = [float(v) for v in y]
    if any(v != v for v in m):
        return f"nan in {m}"
    A, B = kep_to_rv(FLT, [float(v) for v in x], 1.0), kep_to_rv(FLT, m, 1.0)
    if not allclose(A, B, 1e-6, 1e-7 * (1 + abs(x[0]))):
        return f"orbit {list(map(float, x))} came back as {m}"
    if not (close(x[0], y[0]) and abs(x[1] - y[1]) < 1e-7 and abs(x[2] - y[2]) < 1e-6):
        return f"elements {list(map(float, x))} came back as {m}"
    return None


def gen_kep(rng, k):
    e = 0.0 if k % 5 == 1 else rng.choice([rng.uniform(0.001, 0.95), rng.uniform(0.01, 0.5)])
    i = 0.0 if k % 5 == 2 else rng.choice([rng.uniform(0.01, 3.0), rng.uniform(0.01, 1.5)])
    if k % 10 == 3:
        e, i = 0.0, 0.0
    s = rng.choice([1.0, 4.0])
    return [rng.uniform(0.3, 20), e, i] + [rng.uniform(-math.pi, math.pi) * s for _ in range(3)]


def gen_mee(rng, k):
    k_ = gen_kep(rng, k)
    m = kep_to_mee(FLT, k_)
    return m


def from_model(names):
    def h(model):
        if any(n not in model or model[n] is None for n in names):
            xs = [model.get(n) for n in names]
            xs = [0.3 if x is None else x for x in xs]
        else:
            xs = [model[n] for n in names]
        if not (xs[0] > 0 and 0 <= xs[1] < 1):
            return None
        return xs
    return h


KN = ["a", "e", "i", "raan", "aop", "ta"]


def u_kep2mee(u):
    E = symmod(MOD)
    k = kepvars()
    for fn, first in (("kep2mee", 0), ("kep2mee_with_a", 1)):
        ps = u.explore(lambda: nodes(getattr(E, fn)(seq(k))), kepdom(k))
        spec = kep_to_mee(SYM, k)
        if first:
            spec[0] = k[0]
        ident_paths(u, f"{fn} = definition of the equinoctial elements", ps,
                    lambda r: [(r[j], spec[j]) for j in range(5)] + cis_eq(r[5], spec[5]), cons=kepdom(k))
        u.defined(fn, ps)
        u.reachable(fn, kepdom(k))
        u.functions.add(fn)


def c_kep2mee(x):
    E = realmod(MOD)
    s = kep_to_mee(FLT, x)
    for fn in ("kep2mee", "kep2mee_with_a"):
        r = [float(v) for v in getattr(E, fn)(np.array(x))]
        t = list(s)
        if fn == "kep2mee_with_a":
            t[0] = x[0]
        if not allclose(r[:5], t[:5]) or abs(ang(r[5] - t[5])) > 1e-8:
            return f"{fn}({x}) = {r}, definition gives {t}"


def u_roundtrip(chain, label):
    def run(u):
        E = symmod(MOD)
        for k, dom, name in cases():
            def f():
                v = seq(k)
                for g in chain:
                    v = getattr(E, g)(v)
                return nodes(v)
            ps = u.explore(f, dom)
            ident_paths(u, f"{label}: same orbit and position, {name}", ps, lambda r: same_orbit(k, r), cons=dom)
            u.defined(f"{label} {name}", ps)
            u.reachable(f"{label} {name}", dom)
        u.functions.update(chain)
    return run


def c_roundtrip(chain):
    def chk(x):
        E = realmod(MOD)
        v = np.array(x)
        for g in chain:
            v = getattr(E, g)(v)
        return f_same_orbit(x, v)
    return chk


def meevars(first="p"):
    return [var(first, pos=True), var("f"), var("g"), var("h"), var("k"), var("L")]


def meedom(m):
    e2 = m[1] ** 2 + m[2] ** 2
    return [lt(ZERO, m[0]), lt(e2, ONE), lt(ZERO, 1 - e2)]


def meecases(first):
    m = meevars(first)
    e2, t2 = m[1] ** 2 + m[2] ** 2, m[3] ** 2 + m[4] ** 2
    pos = [lt(ZERO, e2), lt(ZERO, T.sqrt(e2)), lt(ZERO, 1 + T.sqrt(e2)), lt(ZERO, 1 - T.sqrt(e2))]
    pt = [lt(ZERO, t2), lt(ZERO, 1 + t2)]
    return [
        (m, meedom(m) + pos + pt, "generic"),
        (m[:1] + [ZERO, ZERO] + m[3:], [lt(ZERO, m[0])] + pt, "circular"),
        (m[:3] + [ZERO, ZERO] + m[5:], meedom(m) + pos, "equatorial"),
        (m[:1] + [ZERO] * 4 + m[5:], [lt(ZERO, m[0])], "circular equatorial"),
    ]


def u_mee_roundtrip(chain, first, label):
    def run(u):
        E = symmod(MOD)
        for m, dom, name in meecases(first):
            def f():
                v = seq(m)
                for g in chain:
                    v = getattr(E, g)(v)
                return nodes(v)
            ps = u.explore(f, dom)
            ident_paths(u, f"{label}: identity, {name}", ps,
                        lambda r: [(r[j], m[j]) for j in range(5)] + cis_eq(r[5], m[5]), cons=dom)
            t2, e2 = lift(m[3]) ** 2 + lift(m[4]) ** 2, lift(m[1]) ** 2 + lift(m[2]) ** 2
            u.defined(f"{label} {name}", ps, basis=monomial_prover([1 + t2], lambda r: {}, dom))
            u.reachable(f"{label} {name}", dom)
        u.functions.update(chain)
    return run


def c_mee_roundtrip(chain, first):
    def chk(x):
        E = realmod(MOD)
        v = np.array(x)
        for g in chain:
            v = getattr(E, g)(v)
        r = [float(z) for z in v]
        if not allclose(r[:5], x[:5], 1e-7, 1e-8) or not abs(ang(r[5] - x[5])) < 1e-6:
            return f"{' then '.join(chain)} maps {x} to {r}"
    return chk


def u_composite(u):
    E = symmod(MOD)
    for m, dom, name in meecases("a"):
        ps = u.explore(lambda: nodes(E.mee_with_a2kep(seq(m))) + nodes(E.mee2kep(E.mee_with_a2mee(seq(m)))), dom)
        ident_paths(u, f"mee_with_a2kep = mee2kep after mee_with_a2mee, {name}", ps,
                    lambda r: [(r[j], r[6 + j]) for j in range(2)] + [q for j in range(2, 6) for q in cis_eq(r[j], r[6 + j])], cons=dom)
    for k, dom, name in cases():
        ps = u.explore(lambda: nodes(E.kep2mee_with_a(seq(k))) + nodes(E.mee2mee_with_a(E.kep2mee(seq(k)))), dom)
        ident_paths(u, f"kep2mee_with_a = mee2mee_with_a after kep2mee, {name}", ps,
                    lambda r: [(r[j], r[6 + j]) for j in range(5)] + cis_eq(r[5], r[11]), cons=dom)
    u.functions.update(["mee_with_a2kep", "kep2mee_with_a"])


def c_composite(x):
    E = realmod(MOD)
    m = E.kep2mee_with_a(np.array(x))
    n = E.mee2mee_with_a(E.kep2mee(np.array(x)))
    if not allclose(m[:5], n[:5], 1e-7, 1e-8) or abs(ang(m[5] - n[5])) > 1e-7:
        return f"kep2mee_with_a({x}) = {list(m)} but mee2mee_with_a(kep2mee()) = {list(n)}"
    a, b = E.mee_with_a2kep(m), E.mee2kep(E.mee_with_a2mee(m))
    return f_same_orbit([float(v) for v in a], b)


def no_write(fn):
    """The argument array is left untouched (real code)."""
    def chk(x):
        E = realmod(MOD)
        a = np.array(x)
        getattr(E, fn)(a)
        if list(a) != list(x):
            return f"{fn} changed its argument"
    return chk


def units():
    from . import purity
    R = []
    R.append(Unit("kep2mee, kep2mee_with_a", u_kep2mee, sampled(gen_kep, c_kep2mee, from_model(KN)), "_elements.kep2mee", 60))
    for ch, lab in ((("kep2mee", "mee2kep"), "Keplerian-MEE-Keplerian"),
                    (("kep2mee_with_a", "mee_with_a2kep"), "Keplerian-SMA/MEE-Keplerian")):
        R.append(Unit(lab, u_roundtrip(ch, lab), sampled(gen_kep, c_roundtrip(ch), from_model(KN)), "_elements." + ch[1], 60))
    for ch, first, lab in ((("mee2kep", "kep2mee"), "p", "MEE-Keplerian-MEE"),
                           (("mee_with_a2kep", "kep2mee_with_a"), "a", "SMA/MEE-Keplerian-SMA/MEE"),
                           (("mee2mee_with_a", "mee_with_a2mee"), "p", "MEE-SMA/MEE-MEE"),
                           (("mee_with_a2mee", "mee2mee_with_a"), "a", "SMA/MEE-MEE-SMA/MEE")):
        R.append(Unit(lab, u_mee_roundtrip(ch, first, lab), sampled(gen_mee, c_mee_roundtrip(ch, first)), "_elements." + ch[0], 60))
    R.append(Unit("composites", u_composite, sampled(gen_kep, c_composite, from_model(KN)), "_elements.mee_with_a2kep", 40))
    return R + purity.units("conversions")
