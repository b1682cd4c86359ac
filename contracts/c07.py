"""C07: true anomaly -> eccentric anomaly."""
import math
from .common import *
from .spec import *
from . import c05

MOD = "_elements"
ASSUMPTIONS = ["at true anomaly = pi (mod 2 pi) the tangent is a pole; floating point passes it at 1.6e16 and returns pi to rounding"]


def geo(E, e, ta):
    """cos E = (e + cos ta)/(1 + e cos ta), sin E = sqrt(1-e^2) sin ta/(1 + e cos ta): equivalent to r = a(1 - e cos E), same side."""
    w = 1 + e * T.cos(ta)
    return [(T.cos(E), (e + T.cos(ta)) / w), (T.sin(E), T.sqrt(1 - e * e) * T.sin(ta) / w),
            ((1 - e * e) / w, 1 - e * T.cos(E))]


def u_ta2ea(u):
    M = symmod(MOD)
    e, ta = var("e"), var("ta")
    for ee, dom, name in ((e, [lt(ZERO, 1 - e), lt(ZERO, 1 + e), le(ZERO, e)], "elliptic"), (ZERO, [], "circular")):
        d = dom + [lt(ZERO, 1 + ee * T.cos(ta)), lt(ZERO, 1 - ee * ee)] if dom else []
        for sgn, half in ((1, "cos(ta/2) > 0"), (-1, "cos(ta/2) < 0")):
            c = T.cos(ta / 2)
            d2 = d + [lt(ZERO, c) if sgn > 0 else lt(c, ZERO)]
            ps = u.explore(lambda: lift(M.ta2ea(ta, ee)), dom + d2[-1:])
            ident_paths(u, f"ta2ea names the same point; {name}, {half}", ps, lambda r: geo(r, ee, ta), cons=d2,
                        domain=lambda r: {"e": r.uniform(0.01, 0.95), "ta": r.uniform(-6, 6)})
            u.defined(f"ta2ea {name} {half}", ps, extra=[bnot(eq(c, ZERO))])
            u.reachable(f"ta2ea {name} {half}", dom + d2[-1:])


def u_mee2ea(u):
    M = symmod(MOD)
    for m, dom, name in c05.meecases("p")[:2]:
        e2 = lift(m[1]) ** 2 + lift(m[2]) ** 2
        e = T.sqrt(e2)
        lon = T.atan2(m[2], m[1]) if e2 is not ZERO else ZERO
        ta = m[5] - lon
        # 1 + f cos L + g sin L is the geometric meaning of 1 + e cos ta
        w = 1 + m[1] * T.cos(m[5]) + m[2] * T.sin(m[5])
        d = dom + [lt(ZERO, w), lt(ZERO, 1 - e2)]
        for sgn in (1, -1):
            c = T.cos(ta / 2)
            d2 = d + [lt(ZERO, sgn * c)]
            ps = u.explore(lambda: lift(M.mee2ea(seq(m))), dom + d2[-1:])

            def mk(E):
                if e2 is ZERO:
                    return [(T.cos(E), T.cos(m[5])), (T.sin(E), T.sin(m[5]))]
                r_a = (1 - e2) / w
                s = (m[1] * T.sin(m[5]) - m[2] * T.cos(m[5])) / e       # sin of the true anomaly
                return [(r_a, 1 - e * T.cos(E)), (T.sin(E), T.sqrt(1 - e2) * s / w)]
            ident_paths(u, f"mee2ea names the same point; {name}, {'+' if sgn > 0 else '-'}", ps, mk, cons=d2,
                        domain=lambda r: {"f": r.uniform(-.6, .6), "g": r.uniform(-.6, .6), "L": r.uniform(-6, 6)})
            u.defined(f"mee2ea {name} {sgn}", ps, extra=[bnot(eq(c, ZERO))])


def chk(E, a, e, ta):
    w = 1 + e * math.cos(ta)
    c, s = (e + math.cos(ta)) / w, math.sqrt(1 - e * e) * math.sin(ta) / w
    if not (abs(math.cos(E) - c) < 1e-7 and abs(math.sin(E) - s) < 1e-7):
        return f"eccentric anomaly {E} for e={e}, ta={ta}: cos/sin should be {c}, {s}"


def c_ta2ea(x):
    return chk(float(realmod(MOD).ta2ea(x[5], x[1])), x[0], x[1], x[5])


def c_mee2ea(x):
    m = kep_to_mee(FLT, x)
    return chk(float(realmod(MOD).mee2ea(np.array(m))), x[0], x[1], x[5] if x[1] > 0 else m[5] - math.atan2(m[2], m[1]))


def gen(rng, k):
    x = c05.gen_kep(rng, k)
    x[5] = [rng.uniform(-12, 12), rng.uniform(-math.pi, math.pi), 0.0, math.pi, -math.pi, 3 * math.pi, math.pi / 2, 2 * math.pi][k % 8]
    return x


def hint(m):
    if m.get("e") is None or m.get("ta") is None or not 0 <= m["e"] < 1:
        return None
    return [1.0, m["e"], 0.3, 0.2, 0.5, m["ta"]]


def hint2(m):
    f, g, L = m.get("f"), m.get("g"), m.get("L")
    if f is None or g is None or f * f + g * g >= 1:
        return None
    w = math.atan2(g, f)
    return [1.0, math.hypot(f, g), 0.3, 0.0, w, (L or 0.0) - w]


def units():
    return [Unit("ta2ea", u_ta2ea, sampled(gen, c_ta2ea, hint), "_elements.ta2ea", 120),
            Unit("mee2ea", u_mee2ea, sampled(gen, c_mee2ea, hint2), "_elements.mee2ea", 120)]
