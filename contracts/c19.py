"""C19: solving and reporting modify neither inputs nor recorded results."""
import contextlib
from pyvc import loops
from .common import *
from .solver import Cfg, flat, HIST
from .solverchecks import solver_units, ASSUMPTIONS as BASE
from . import trace, uniform, c18
from .uniform import N

ASSUMPTIONS = BASE + [
    "matplotlib, tqdm and scipy do not write into the arrays they are given",
    "histories of arbitrary length: executed on entries that are all arbitrary, with every dependence on the length refused (contracts/uniform.py)",
]

REPORTS = {
    "pretty": [lambda q: q.pretty()],
    "pretty_results": [lambda q: q.pretty_results()],
    "pretty_settings": [lambda q: q.pretty_settings()],
    "save_to_dict": [lambda q: q.save_to_dict(None), lambda q: q.save_to_dict("out.json"), lambda q: q.save_to_dict(None, {"LU": 1.0}, True),
                     lambda q: q.save_to_dict("out.json", save_control_angles=True)],
    "interpolate_states": [lambda q: q.interpolate_states(), lambda q: q.interpolate_states(kind="cubic")],
    "get_cartesian_history": [lambda q: q.get_cartesian_history(), lambda q: q.get_cartesian_history(get_t_evals=True),
                              lambda q: q.get_cartesian_history(interpolate=True, steps=uniform.Rep(N)),
                              lambda q: q.get_cartesian_history(interpolate=True, steps=uniform.Rep(N), kind="cubic", get_t_evals=True),
                              lambda q: q.get_cartesian_history(True)],
    "plot_elements_history": [lambda q: q.plot_elements_history(), lambda q: q.plot_elements_history(to_keplerian=True), lambda q: q.plot_elements_history(plot_mass=False),
                              lambda q: q.plot_elements_history(TU=2.0, plot_periapsis=True)],
    "plot_battery_history": [lambda q: q.plot_battery_history(), lambda q: q.plot_battery_history(TU=2.0, BU=3.0)],
    "plot_controls": [lambda q: q.plot_controls(), lambda q: q.plot_controls(TU=2.0, show_anomaly=False)],
    "plot_trajectory_2d": [lambda q: q.plot_trajectory_2d(), lambda q: q.plot_trajectory_2d(interpolate=True, steps=uniform.Rep(N))],
    "plot_trajectory_3d": [lambda q: q.plot_trajectory_3d(steps=uniform.Rep(N)), lambda q: q.plot_trajectory_3d(interpolate=False, plot_sphere=False)],
    "plot_efficiency": [lambda q: q.plot_efficiency(), lambda q: q.plot_efficiency(TU=2.0)],
    "plot_Q": [lambda q: q.plot_Q(), lambda q: q.plot_Q(TU=2.0)],
}


def state(q, caller):
    lv, ln = loops.leaves({"self": q, "caller!": caller}, ())
    return {"leaf:" + k: x for k, x in lv.items()} | {"len:" + k: x for k, x in ln.items()}


def same_leaf(a, b):
    if isinstance(a, T.Node) or isinstance(b, T.Node):
        try:
            return lift(a) is lift(b)
        except Exception:
            return False
    if isinstance(a, (int, float, str, bool, tuple)) or a is None:
        return type(a) is type(b) and a == b
    return a is b or getattr(a, "__func__", a) is getattr(b, "__func__", b)


def u_report(kind, nm):
    def run(u):
        w = c18.world(kind)
        v = w.inputs()
        disk = c18.Disk(w.mod)
        np_ = w.mod.__dict__["np"]

        def lin(a, b, k=50, *r, **kw):
            return np_.linspace(a, b, N if isinstance(k, T.Node) else k, *r, **kw)

        def zeros(shape, *r, **kw):
            if isinstance(shape, tuple):
                shape = tuple(N if isinstance(x, T.Node) else x for x in shape)
            return np_.zeros(shape, *r, **kw)
        w.mod.__dict__["np"] = c18.Proxy(np_, linspace=lin, zeros=zeros)

        def interp1d(x, y, kind="linear", **k):
            def f(t):
                return T.uf("interp", T.uf("tag:" + str(kind)), *flat(list(y)), lift(t))
            return f
        w.mod.__dict__["interp1d"] = interp1d
        # plots only draw: orbits and axes are functions of the points
        pm = w.pkg.load("_plot_methods")
        if "get_orbit_coordinates" in pm.__dict__:
            def orbit(oe, mu, steps=200):
                k = flat([oe, mu])
                return obj([[T.uf(f"orbit{r}{c}", *k) for c in range(3)] for r in range(6)])
            pm.__dict__["get_orbit_coordinates"] = orbit
        if "set_equal_axis" in pm.__dict__:
            pm.__dict__["set_equal_axis"] = lambda *a, **k: None
        if "plot_sphere_wireframe" in pm.__dict__:
            pm.__dict__["plot_sphere_wireframe"] = lambda *a, **k: None
        box = {}
        with uniform.Executed() as ex:
            for k, f in enumerate(REPORTS[nm]):
                def call():
                    q, d = c18.history(w, kind, v)
                    caller = dict(w.caller)
                    s0 = state(q, caller)
                    f(q)
                    return s0, state(q, caller)
                ps = u.explore(call, w.pre(v))
                bad = []
                for p in single(u, f"{nm} [{k}]", ps):
                    s0, s1 = p.result
                    bad += [x for x in s0 if x not in s1 or not same_leaf(s0[x], s1[x])] + [x for x in s1 if x not in s0 and not new_ok(x)]
                u.holds(f"{nm} leaves solution, status, problem and the caller's arrays untouched [{k}]", bool(ps) and not bad, ", ".join(sorted(set(bad))[:8]))
        c18.uniformity(u, ex)
    return run


def new_ok(path):
    """Attributes that did not exist before (caches) are not part of the recorded solution."""
    head = path.split(":", 1)[1]
    return head.startswith("self.")


def units():
    us = solver_units("C19")
    con = sampled(trace.scenario("C19"), trace.check("C19"))
    for kind in ("keplerian", "mee_with_a"):
        for nm in REPORTS:
            us.append(Unit(f"{nm} {kind}", u_report(kind, nm), con, func="QLaw." + nm, samples=0, samples_bad=24, alarm=True))
    return us
