"""Units shared by the properties of QLaw.solve: one unit per configuration, plus recorded real runs."""
import random
from pyvc.core import Unit, thorough
from pyvc.terms import Unsupported
from . import steps, trace
from .steps import run_steps, all_inv, inv_mass, inv_battery, inv_status, inv_time
from .solver import Cfg
from .common import sampled

ASSUMPTIONS = [
    "callee contracts used inside solve: lyapunov_control_angles returns angles that are defined exactly when the raw direction is not null, the influence matrix "
    "at the state it is given, and f times a rate that depends neither on the sign of f nor on whole turns of the position (C01-C03); the integrators, convergence tests, "
    "safeguard, anomaly conversions and perturbations are functions of their arguments (proved in C23: results depend on the arguments alone; C07-C09, C17)",
    "Sundman steps: E - e sin E is strictly increasing for e < 1 (stated as a lemma, proved by hand: |sin x - sin y| <= |x - y|)",
    "element set, integrator, Sundman option, perturbation switch, threshold kind, recharge mode, verbosity and direction of propagation are enumerated; "
    "every number (settings, problem, states, thresholds) and the number of iterations are arbitrary",
    "print and progress output have no effect on results",
]

INV = {"C10": all_inv(inv_battery, inv_time), "C11": all_inv(inv_mass, inv_battery), "C12": inv_status, "C15": all_inv(inv_mass, inv_battery),
       "C22": lambda e, h, g: [x for x in inv_status(e, h, g) if "undefined" in x[0] or x[0] == "counts"] + inv_battery(e, h, g)}

A = dict()
B = dict(kind="keplerian", integ="rkf45", full=True)
C = dict(dirn=-1, pert=True)
D = dict(kind="keplerian", sundman=True, pert=True)
E_ = dict(integ="rkf45", sundman=True, dirn=-1, full=True)
F = dict(eta_a="sym", eta_r="sym", full=True)
G = dict(kind="keplerian", eta_a="call", eta_r="call", dirn=-1, again=True)
H = dict(kind="keplerian", dirn=-1, full=True, verbosity=2, aslist=True, nT=6)
I = dict(integ="rkf45", sundman=True, full=True, verbosity=2, aslist=True, nT=6)
J = dict(eta_a="sym", eta_r="zero", sundman=True, grid=3, again=True)
K = dict(eta_a="zero", eta_r="call", integ="rkf45", nT=6, grid=3)
L = dict(kind="keplerian", eta_a="sym", eta_r="sym", sundman=True, full=True, pert=True)
M = dict(eta_a="call", eta_r="sym", dirn=-1, sundman=True)

N1 = dict(eta_a="sym", eta_r="call", grid="N")
N2 = dict(kind="keplerian", eta_a="call", eta_r="sym", grid="N", dirn=-1, full=True)
ALL = [A, B, C, D, E_, F, G, H, I, J, K, L, M]
DEEP = [dict(kind=k, integ=i, sundman=s, dirn=d, full=f, pert=p, eta_a=a, eta_r=r, grid=g)
        for k, i, s, d, f, p, a, r, g in (
            ("keplerian", "rk4", False, 1, True, True, "call", "zero", 2), ("keplerian", "rkf45", True, -1, True, False, "sym", "call", 2),
            ("mee_with_a", "rkf45", False, -1, True, True, "zero", "sym", 3), ("mee_with_a", "rk4", True, -1, False, False, "sym", "sym", 3),
            ("keplerian", "rk4", False, -1, False, False, "zero", "zero", 2), ("keplerian", "rkf45", False, 1, False, True, "sym", "sym", 4),
            ("mee_with_a", "rkf45", True, 1, True, True, "call", "call", 2), ("mee_with_a", "rk4", False, -1, True, True, "zero", "zero", 2))]
EXTRA = {"C15": [N1, N2, dict(N1, sundman=True, integ="rkf45"), dict(N2, dirn=1, grid=4)]}


def sym(pid, cfg, u):
    run_steps(u, cfg, getattr(steps, pid.lower()), INV.get(pid, inv_battery))


def solver_units(pid, samples=None):
    us = []
    gen, chk = trace.scenario(pid), trace.check(pid)
    for kw in ALL + EXTRA.get(pid, []) + (DEEP if thorough() else []):
        cfg = Cfg(**kw)
        us.append(Unit("solve: " + cfg.label(), (lambda u, c=cfg: sym(pid, c, u)), sampled(gen, chk), func="QLaw.solve", samples=0,
                       samples_bad=3 * 2 * len(trace.FOCUS[pid]), alarm=True, weight=5))
    us.append(Unit("recorded runs of solve", None, sampled(gen, chk), func="QLaw.solve", samples=samples or 2 * len(trace.FOCUS[pid]), weight=6))
    return us
