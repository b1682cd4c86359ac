"""C21: wrapping, rotations, plot geometry."""
import math
from fractions import Fraction
from .common import *
from .spec import *
from . import uniform

ASSUMPTIONS = ["surface points are checked for every value of the two grid angles and every grid size: executed on grids whose entries are arbitrary, "
               "with every dependence on the number of points refused (contracts/uniform.py)"]


def u_wrap(u):
    M = symmod("_transformations")
    a = var("alpha")
    ps = u.explore(lambda: lift(M.wrap(a)), [])
    for k, p in enumerate(single(u, "wrap", ps)):
        r = p.result
        u.prove(f"wrap: result in [-pi, pi) [path {k}]", p.pc, band(le(-T.PI, r), lt(r, T.PI)))
        x = (a - r) / (2 * T.PI)
        fl = [n for n in T.topo([r]) if n.op == "floor"]
        goal = bor(*[eq(x, s * f) for f in fl for s in (1, -1)], eq(x, ZERO))
        u.prove(f"wrap: differs from the argument by whole turns [path {k}]", p.pc, goal)
    u.defined("wrap", ps)


def c_wrap(x):
    M = realmod("_transformations")
    for r in (float(M.wrap(x[0])), float(M.wrap(np.array([x[0], 0.1]))[0])):
        if not (-math.pi <= r < math.pi + 1e-9) or abs(math.sin(r) - math.sin(x[0])) > 1e-7 or abs(math.cos(r) - math.cos(x[0])) > 1e-7:
            return f"wrap({x[0]}) = {r}"


AX = {"rotmat1": 0, "rotmat2": 1, "rotmat3": 2}


def u_rot(fn):
    def run(u):
        M = symmod("_transformations")
        a, b = var("phi"), var("chi")
        f = getattr(M, fn)
        ax = AX[fn]
        j, k = (ax + 1) % 3, (ax + 2) % 3

        def go():
            A, B, AB = obj(f(a)), obj(f(b)), obj(f(a + b))
            return A, np_shim.dot(A, A.T), np_shim.dot(A, B), AB
        ps = u.explore(go, [])
        I = [[ONE if p == q else ZERO for q in range(3)] for p in range(3)]

        def mk(res):
            A, AAt, AB, C = res
            out = [(AAt[p, q], I[p][q]) for p in range(3) for q in range(3)]
            det = sum((A[0, p] * (A[1, (p + 1) % 3] * A[2, (p + 2) % 3] - A[1, (p + 2) % 3] * A[2, (p + 1) % 3]) for p in range(3)), ZERO)
            out += [(det, ONE)]
            out += [(A[p, ax], I[p][ax]) for p in range(3)]
            # frame rotation by the angle: the old second axis seen in the new frame
            out += [(A[j, j], T.cos(a)), (A[j, k], T.sin(a)), (A[k, j], -T.sin(a)), (A[k, k], T.cos(a))]
            out += [(AB[p, q], C[p, q]) for p in range(3) for q in range(3)]
            return out
        ident_paths(u, f"{fn}: proper rotation about its axis by the angle, composing additively", ps, mk)
        u.defined(fn, ps)
    return run


def c_rot(fn):
    ax = AX[fn]
    j, k = (ax + 1) % 3, (ax + 2) % 3

    def chk(x):
        f = getattr(realmod("_transformations"), fn)
        A = np.array(f(x[0]))
        W = np.zeros((3, 3))
        W[ax, ax] = 1
        W[j, j] = W[k, k] = math.cos(x[0])
        W[j, k], W[k, j] = math.sin(x[0]), -math.sin(x[0])
        if np.abs(A - W).max() > 1e-9:
            return f"{fn}({x[0]}) = {A.tolist()}"
        if np.abs(A @ f(x[1]) - f(x[0] + x[1])).max() > 1e-9:
            return f"{fn} does not compose additively at {x}"
    return chk


def generalise(roots):
    """Replace the constant angles of a grid by arbitrary ones (proves more than is needed)."""
    m = {}
    for n in T.topo(roots):
        if n.op in ("sin", "cos"):
            a = n.args[0]
            if any(x.op == "pi" for x in T.topo([a])) and not any(x.op == "v" for x in T.topo([a])):
                m[a.uid] = var(f"grid{a.uid}")
    return T.substitute(roots, m)


def u_surface(which):
    def run(u):
        c = [var("cx"), var("cy"), var("cz")]
        rr = [var("rx", pos=True), var("ry", pos=True), var("rz", pos=True)]

        def prove(cases, explore):
            for tag, f, rad in cases:
                for cc, cen, nm in ((c, c, "given centre"), (None, [ZERO] * 3, "default centre")):
                    ps = explore(lambda: f(list(cc) if cc is not None else None))
                    for p in single(u, which, ps):
                        X, Y, Z = [obj(q) for q in p.result]
                        u.holds(f"{which} {tag} {nm}: coordinate arrays have one shape", X.shape == Y.shape == Z.shape and X.size > 1, str((X.shape, Y.shape, Z.shape)))
                        pts = [lift(v) for i in np.ndindex(*X.shape) for v in (X[i], Y[i], Z[i])]
                        pts = generalise(pts)
                        pairs = []
                        for q in range(0, len(pts), 3):
                            s = sum((((pts[q + d] - cen[d]) / rad[d]) ** 2 for d in range(3)), ZERO)
                            pairs.append((s, ONE))
                        u.identity(f"{which} {tag} {nm}: every point lies on the surface", pairs, [lt(ZERO, r) for r in rad])
        M = symmod("_plot_helper")
        if which == "sphere":
            prove([("grid of the code", lambda cc: M.get_sphere_coordinates(rr[0], cc), [rr[0]] * 3)], lambda f: u.explore(f, []))
            return
        # any number of points per direction: the grid angles are arbitrary
        E = uniform.fresh("_plot_helper")
        why = None
        try:
            with uniform.Executed() as ex:
                u.explore(lambda: E.get_ellipsoid_coordinates(*rr, list(c), uniform.Count("angle")), [])
            why = uniform.verdict(ex)
        except Unsupported as e:
            why = [str(e)]
        if not why:
            u.holds("ellipsoid: every point is treated alike, whatever the size of the grid", True)
            prove([("any grid size", lambda cc: E.get_ellipsoid_coordinates(*rr, cc, uniform.Count("angle")), rr)], lambda f: u.explore(f, []))
            return
        u.unsupported.append("bounded (3, 4 and 6 points per direction): " + "; ".join(why)[:300])
        prove([(f"n={n} (bounded)", lambda cc, n=n: M.get_ellipsoid_coordinates(*rr, cc, n), rr) for n in (3, 4, 6)], lambda f: u.explore(f, []))
    return run


def c_surface(which):
    def chk(x):
        M = realmod("_plot_helper")
        cen, rad, n = x
        if which == "sphere":
            P = M.get_sphere_coordinates(rad[0], cen)
            rad = [rad[0]] * 3
        else:
            P = M.get_ellipsoid_coordinates(*rad, center=cen, n=n)
        c = cen if cen is not None else [0.0] * 3
        s = sum(((P[d] - c[d]) / rad[d]) ** 2 for d in range(3))
        if s.size < 4 or np.abs(s - 1).max() > 1e-8:
            return f"{which} with centre {cen} and radii {rad}: points off the surface by {np.abs(s - 1).max()}"
        for d in range(3):
            # both extremes of each axis are approached on the grid
            if P[d].max() < c[d] + 0.6 * rad[d] and n > 8 or P[d].min() > c[d] - 0.6 * rad[d] and n > 8:
                return f"{which} does not cover axis {d}"
    return chk


class Ax:
    def __init__(s):
        s.c = {}

    def __getattr__(s, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            if n in ("set", ):
                for q, v in k.items():
                    s.c["set_" + q] = tuple(v)
                return
            s.c[n] = tuple(a[0]) if len(a) == 1 and hasattr(a[0], "__len__") and n.endswith("lim") else a
        return f


def u_axis(u):
    M = symmod("_plot_helper")
    L = {d: [var(f"{d}0"), var(f"{d}1")] for d in "xyz"}
    sc = var("scale")
    for dim3 in (True, False):
        def f():
            ax = Ax()
            M.set_equal_axis(ax, list(L["x"]), list(L["y"]), list(L["z"]), sc, dim3)
            return ax.c
        ps = u.explore(f, [le(ONE, sc)])
        for k, p in enumerate(single(u, "set_equal_axis", ps)):
            c = p.result
            used = "xyz" if dim3 else "xy"
            if not u.holds(f"set_equal_axis: limits of {used} are set", all(f"set_{d}lim" in c for d in used), str(list(c))):
                continue
            span = {d: lift(c[f"set_{d}lim"][1]) - lift(c[f"set_{d}lim"][0]) for d in used}
            for d in used:
                lo, hi = map(lift, c[f"set_{d}lim"])
                if d != "x":
                    u.prove(f"set_equal_axis: same span on x and {d}, dim3={dim3} [path {k}]", p.pc, eq(span[d], span["x"]))
                u.prove(f"set_equal_axis: requested {d} range contained, dim3={dim3} [path {k}]", p.pc + [le(ONE, sc)],
                        band(*[band(le(lo, v), le(v, hi)) for v in L[d]]))
            if dim3:
                b = c.get("set_box_aspect")
                if b is not None:
                    b = [lift(v) for v in (b[0] if len(b) == 1 else b)]
                    u.prove(f"set_equal_axis: equal box aspect [path {k}]", p.pc, band(eq(b[0], b[1]), eq(b[1], b[2])))


def c_axis(x):
    M = realmod("_plot_helper")
    xl, yl, zl, sc, dim3 = x
    ax = Ax()
    M.set_equal_axis(ax, list(xl), list(yl), list(zl), sc, dim3)
    sp = []
    for d, l in zip("xyz" if dim3 else "xy", (xl, yl, zl)):
        if f"set_{d}lim" not in ax.c:
            return f"limits of {d} not set"
        lo, hi = map(float, ax.c[f"set_{d}lim"])
        sp.append(hi - lo)
        if lo > min(l) + 1e-9 or hi < max(l) - 1e-9:
            return f"set_equal_axis({x}): {d} limits {(lo, hi)} do not contain {l}"
    if max(sp) - min(sp) > 1e-9 * (1 + max(sp)):
        return f"set_equal_axis({x}): spans differ {sp}"


def gen_axis(rng, k):
    p = lambda: [rng.uniform(-5, 5) * rng.choice([1, 0.01]), rng.uniform(-5, 5)]
    return [p(), p(), p(), rng.choice([1.0, 1.0, rng.uniform(1, 3)]), k % 3 != 1]


def hint_axis(m):
    g = lambda n: m.get(n) or 0.0
    return [[[g("x0"), g("x1")], [g("y0"), g("y1")], [g("z0"), g("z1")], max(1.0, g("scale")), d] for d in (True, False)]


def units():
    from . import purity
    R = [Unit("wrap", u_wrap, sampled(lambda r, k: [[r.uniform(-30, 30), r.uniform(-4, 4), math.pi, -math.pi, 0.0, 3 * math.pi, 100.0][k % 7]], c_wrap,
                                      lambda m: [m.get("alpha")] if m.get("alpha") is not None else None), "_transformations.wrap", 200)]
    for fn in AX:
        R.append(Unit(fn, u_rot(fn), sampled(lambda r, k: [r.uniform(-7, 7), r.uniform(-7, 7)], c_rot(fn)), "_transformations." + fn, 60))
    gs = lambda r, k: [None if k % 4 == 0 else [r.uniform(-3, 3) for _ in range(3)], [r.uniform(0.2, 4) for _ in range(3)], r.choice([3, 5, 12, 60])]
    for w in ("sphere", "ellipsoid"):
        R.append(Unit(w, u_surface(w), sampled(gs, c_surface(w)), f"_plot_helper.get_{w}_coordinates", 30))
    R.append(Unit("set_equal_axis", u_axis, sampled(gen_axis, c_axis, hint_axis), "_plot_helper.set_equal_axis", 200))
    return R + purity.units("angle wrapping")
