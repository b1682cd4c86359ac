"""Real runs of QLaw.solve judged step by step against the specification (replay of refuted obligations, bounded stand-in).

The oracle reads the recorded histories only; the reference for a step is computed from the step's own head state with the
control law, integrators and equations of motion of the package (these have contracts of their own) and with independent
formulas for everything the solver decides (duty cycle, battery, thresholds, Sundman time, propellant, status).
"""
import contextlib
import copy
import io
import json
import math
import os
import tempfile
import numpy as np
from .common import realmod
from .c09 import f_spec

SET = ("rpmin", "k_petro", "m_petro", "n_petro", "r_petro", "b_petro", "wp")
HIST = ("times", "states", "masses", "controls", "etas", "etas_bounds", "Qs", "dQdts", "battery")
TOL = 1e-8


# ------------------------------------------------------------------ the package, with observation points
class Probe:
    cur = None

    def __init__(s, sc):
        s.sc, s.law, s.dqdt, s.eta, s.ptrb, s.snaps, s.conv = sc, [], [], [], [], [], []
        s.q = None

    def snap(s):
        s.snaps.append({n: (len(getattr(s.q, n)), copy.deepcopy(getattr(s.q, n)[-1:])) for n in HIST if hasattr(s.q, n)})


_gen = {}


def undefined_here(sc, oe):
    z = sc.get("nan")
    if not z:
        return False
    c, ph, thr = z
    return math.cos(c * float(oe[5]) + ph) > thr


def install():
    """Memoise the (slow) generation of the laws and observe the calls of the generated functions."""
    if "done" in _gen:
        return
    Q, S = realmod("_qlaw"), realmod("_symbolic")
    for nm in ("symbolic_qlaw_keplerian", "symbolic_qlaw_mee_with_a"):
        orig = getattr(S, nm)

        def g(*a, _o=orig, _n=nm, **k):
            key = (_n, a, tuple(sorted(k.items())))
            if key not in _gen:
                _gen[key] = _o(*a, **k)
            out = _gen[key]
            ctrl, dq = out[0], out[3]

            def ctrl2(*a):
                p = Probe.cur
                r = ctrl(*a)
                if p is not None:
                    p.law.append(tuple(np.array(x, copy=True) if isinstance(x, (np.ndarray, list)) else x for x in a))
                    if p.q is not None:
                        p.snap()
                    if undefined_here(p.sc, a[2]):
                        r = list(r)
                        r[0] = [float("nan")] * 3
                        r = tuple(r)
                return r

            def dq2(*a):
                p = Probe.cur
                if p is not None:
                    p.dqdt.append(tuple(np.array(x, copy=True) if isinstance(x, (np.ndarray, list)) else x for x in a))
                return dq(*a)
            return (ctrl2, out[1], out[2], dq2)
        setattr(S, nm, g)
        if getattr(Q, nm, None) is orig:
            setattr(Q, nm, g)
    _gen["done"] = True


def law_of(kind):
    install()
    S = realmod("_symbolic")
    return getattr(S, {"keplerian": "symbolic_qlaw_keplerian", "mee_with_a": "symbolic_qlaw_mee_with_a"}[kind])()


class Pert:
    def __init__(s, sc):
        s.sc = sc

    def value(s, t, oe, kind):
        oe = [float(x) for x in oe]
        return np.array([1e-4 * math.cos(t + oe[5]), 2e-4 * math.sin(t - oe[1]), 1e-4 * math.cos(2 * t + oe[0]) + (0 if kind == s.sc["kind"] else 1)])

    def get_perturbations_RTN(s, t, oe, elements_type="mee_with_a"):
        if Probe.cur is not None:
            Probe.cur.ptrb.append((float(t), np.array(oe, float), elements_type))
        return s.value(t, oe, elements_type)


def eta_value(spec, t, oe, m, b):
    c = spec["call"]
    return c[0] + c[1] * math.sin(t + float(oe[5])) + c[2] * m + c[3] * b


def eta_arg(sc, name):
    e = sc[name]
    if not isinstance(e, dict):
        return e

    def f(t, oe, mass, battery):
        if Probe.cur is not None:
            Probe.cur.eta.append((name, float(t), np.array(oe, float), float(mass), float(battery)))
        return eta_value(e, t, oe, mass, battery)
    return f


def build(sc):
    install()
    Q = realmod("_qlaw")
    kw = dict(mu=sc["mu"], elements_type=sc["kind"], integrator=sc["integ"], verbosity=sc["verbosity"], anomaly_grid_size=sc["grid"],
              tol_oe=np.array(sc["tol"]), nan_angles_threshold=sc["nan_max"], use_sundman=sc["sundman"], relaxed_tol_factor=sc["rfac"],
              exit_at_relaxed=sc["relax"], perturbations=Pert(sc) if sc["pert"] else None, print_frequency=sc.get("pfreq", 200))
    if sc.get("oe_min"):
        kw["oe_min"] = np.array(sc["oe_min"])
    if sc.get("oe_max"):
        kw["oe_max"] = np.array(sc["oe_max"])
    kw.update({n: sc[n] for n in SET})
    return Q.QLaw(**kw)


def setup(q, sc):
    # as_list concerns the arguments the package accepts as sequences
    args = {"oe0": np.array(sc["oe0"]), "oeT": np.array(sc["oeT"]), "woe": list(sc["woe"]) if sc.get("aslist") else np.array(sc["woe"])}
    q.set_problem(args["oe0"], args["oeT"], sc["mass0"], sc["tmax"], sc["mdot"], tf_max=sc["tf_max"], t_step=sc["t_step"], mass_min=sc["mass_min"],
                  woe=args["woe"], duty_cycle=tuple(sc["duty"]), battery_initial=sc["b0"], battery_capacity=tuple(sc["cap"]),
                  battery_charge_discharge_rate=tuple(sc["rates"]), require_full_recharge=sc["full"])
    return args


def observe(p, q):
    """Snapshots of the latest history entries whenever convergence is tested (an entry may also be touched between two control evaluations)."""
    try:
        orig = q.check_convergence
        if getattr(orig, "pyvc_probe", False):
            orig = orig.pyvc_orig

        def conv(*a, **k):
            if Probe.cur is p:
                p.snap()
            return orig(*a, **k)
        conv.pyvc_probe, conv.pyvc_orig = True, orig
        q.check_convergence = conv
        return orig
    except AttributeError:
        return None


def solve(q, sc):
    p = Probe(sc)
    p.q = q
    Probe.cur = p
    orig = observe(p, q)
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            q.solve(eta_arg(sc, "eta_a"), eta_arg(sc, "eta_r"))
    finally:
        Probe.cur = None
        if orig is not None:
            q.check_convergence = orig
    return p


def run(sc):
    q = build(sc)
    for other in sc.get("before", ()):
        o = dict(sc, **other)
        setup(q, o)
        solve(q, o)
        if len(q.times) > 4:
            results(q)
    args = setup(q, sc)
    p = solve(q, sc)
    return q, p, args


# ------------------------------------------------------------------ reference of one step
def f(x):
    return float(x)


def safe(sc, q, x):
    x = np.array(x, float)
    if sc["kind"] == "keplerian":
        lo = sc.get("oe_min") or [0.05, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8]
        hi = sc.get("oe_max") or [1e2, 0.95, math.pi, math.inf, math.inf, math.inf]
        for i in range(5):
            x[i] = min(max(x[i], lo[i]), hi[i])
    return x


def ref_law(sc, x, acc):
    L = realmod("_lyapunov")
    ctrl = law_of(sc["kind"])[0]
    with np.errstate(all="ignore"):
        al, be, u, psi, Qv, dq = L.lyapunov_control_angles(ctrl, sc["mu"], acc, np.array(x), np.array(sc["oeT"][:5]), sc["rpmin"], sc["m_petro"],
                                                           sc["n_petro"], sc["r_petro"], sc["b_petro"], sc["k_petro"], sc["wp"], np.array(sc["woe"]))
    if undefined_here(sc, x):
        al = be = float("nan")
    return f(al), f(be), psi, f(Qv), f(dq)


def ref_rates(sc, x, acc):
    dq = law_of(sc["kind"])[3]
    out = []
    for k in range(sc["grid"]):
        y = np.array(x, float)
        y[5] += 2 * math.pi * k / sc["grid"]
        with np.errstate(all="ignore"):
            out.append(abs(f(dq(sc["mu"], acc, y, np.array(sc["oeT"][:5]), sc["rpmin"], sc["m_petro"], sc["n_petro"], sc["r_petro"], sc["b_petro"],
                                sc["k_petro"], sc["wp"], np.array(sc["woe"])))))
    return out


def nominal(sc, x):
    if not sc["sundman"]:
        return sc["t_step"]
    if sc["kind"] == "keplerian":
        e, ta = x[1], x[5]
    else:
        e, ta = math.hypot(x[1], x[2]), x[5] - math.atan2(x[2], x[1])
    E0 = math.atan2(math.sqrt(1 - e * e) * math.sin(ta), e + math.cos(ta))
    d = sc["t_step"]
    return math.sqrt(x[0] ** 3 / sc["mu"]) * (d - e * (math.sin(E0 + d) - math.sin(E0)))


def close(a, b, tol=TOL):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def elliptic(sc, x):
    x = np.array(x, float)
    e = x[1] if sc["kind"] == "keplerian" else math.hypot(x[1], x[2])
    return bool(np.all(np.isfinite(x))) and x[0] > 0 and e < 0.999


class Ambiguous(Exception):
    pass


def judge(sc, q, p, args):
    """Yields (set of property ids, message) for everything that differs from the specification."""
    H = {n: list(getattr(q, n)) for n in HIST}
    n = len(H["times"]) - 1
    # ---- shape
    for k in ("times", "states", "masses", "battery"):
        if len(H[k]) != n + 1:
            yield {"C10"}, f"{k} has {len(H[k])} entries, times {n + 1}"
            return
    for k in ("controls", "etas", "etas_bounds", "Qs", "dQdts"):
        if len(H[k]) != n:
            yield {"C10"}, f"{k} has {len(H[k])} entries for {n} steps"
            return
    if f(H["times"][0]) != 0 or not np.array_equal(np.array(H["states"][0], float), np.array(sc["oe0"], float)) or \
            f(H["masses"][0]) != sc["mass0"]:
        yield {"C10", "C23"}, "history does not start at the given initial condition"
    if f(H["battery"][0]) != sc["b0"]:
        yield {"C10", "C14", "C23"}, "battery history does not start at the given level"
    sgn = 1.0 if sc["t_step"] > 0 else -1.0
    for k in range(n):
        if not elliptic(sc, H["states"][k]):
            break
        if not (f(H["times"][k + 1]) - f(H["times"][k])) * sgn > 0:
            yield {"C10", "C16"}, f"time does not advance at step {k}"
        if abs(f(H["times"][k])) >= abs(sc["tf_max"]):
            yield {"C10"}, f"step {k} starts after the allotted time"
        if k and f(H["masses"][k]) <= sc["mass_min"]:
            yield {"C11"}, f"step {k} is taken from mass {H['masses'][k]}"
        if sgn > 0 and f(H["masses"][k + 1]) > f(H["masses"][k]):
            yield {"C11"}, f"mass grows at step {k}"
    # ---- the automaton
    on = off = 0.0
    duty, chg = True, False
    nan = rel = 0
    exact = bool(sc.get("exact"))
    ON, OFF = sc["duty"]
    cap0, cap1 = sc["cap"]
    r0, r1 = sc["rates"]
    kind = "keplerian" if sc["kind"] == "keplerian" else "mee"

    def gt(a, b):
        """a > b, undecidable when rounding could decide."""
        if abs(a - b) < 1e-9 * (1 + abs(a) + abs(b)) and not (exact and a == b) and abs(b) < 1e12:
            raise Ambiguous()
        return a > b
    try:
        for k in range(n + 1):
            t, m, b = f(H["times"][k]), f(H["masses"][k]), f(H["battery"][k])
            final = k == n
            if final and not (q.exitcode == -3):
                break
            x = safe(sc, q, H["states"][k])
            if not elliptic(sc, x):
                return          # the run left the domain of the law
            dt0 = nominal(sc, x)
            acc = sgn * sc["tmax"] / m
            if duty and gt(abs(t - on), ON):
                duty, off = False, t
            if not duty and gt(abs(t - off), OFF):
                duty, on = True, t
            allows = duty
            empty = b <= cap0 + 1e-12
            limited = False
            dt = dt0
            if empty:
                duty, off, chg = False, t, True
            elif (b - r1 * dt0 < cap0) and (not chg or not sc["full"]):
                if r1 and abs(b - r1 * dt0 - cap0) < 1e-9 and not (exact and not sc["sundman"]):
                    raise Ambiguous()
                limited = True
                dt = (b - cap0) / r1
            elif r1 and abs(b - r1 * dt0 - cap0) < 1e-9 and not exact:
                raise Ambiguous()
            recharging = sc["full"] and chg and b < cap1
            if recharging and cap1 - b < 1e-9:
                raise Ambiguous()
            if recharging:
                duty = False
            avail = duty
            al, be, psi, Qv, dq = ref_law(sc, x, acc)
            und = avail and (math.isnan(al) or math.isnan(be))
            if und:
                nan += 1
            if final:
                if not (und and nan > sc["nan_max"]):
                    yield {"C12", "C22"}, f"stopped with -3 although the step at t={t} is defined or within the allowance ({nan} undefined)"
                break
            if und and nan > sc["nan_max"]:
                yield {"C12", "C22"}, f"step {k} is the {nan}-th undefined one and is recorded (allowance {sc['nan_max']})"
                return
            c = [f(z) for z in H["controls"][k]]
            thr = c[2]
            dtr = f(H["times"][k + 1]) - t
            if not all(math.isfinite(z) for z in c):
                yield {"C22"}, f"recorded control {c} at step {k}"
                return
            if not close(dtr, dt, 1e-9):
                yield ({"C16", "C14", "C20"} if limited else {"C16", "C20"}), f"step {k} lasts {dtr}, expected {dt} ({'battery limited' if limited else 'full'})"
                return
            if thr not in (0.0, 1.0):
                yield {"C11", "C10"}, f"throttle {thr} at step {k}"
                return
            if und and thr:
                yield {"C22"}, f"thrust along an undefined direction at step {k}"
                return
            ea, er = [eta_value(sc[z], t, x, m, b) if isinstance(sc[z], dict) else sc[z] for z in ("eta_a", "eta_r")]
            gate = avail and not und
            expect = gate
            tags = {"C13", "C14", "C20"}
            if thr and not gate:
                why = set()
                if not allows:
                    why |= {"C13"}
                if empty or recharging:
                    why |= {"C14"}
                yield (why or {"C22"}) | {"C20"}, f"thrust at step {k} (t={t}) although unavailable (duty {allows}, empty {empty}, recharging {recharging})"
                return
            if gate and (ea > 0 or er > 0):
                R = ref_rates(sc, x, acc)
                cur, mx, mn = R[0], max(R), min(R)
                if mx > 0 and mx - mn > 1e-9 * mx:
                    va, vr = cur / mx, (cur - mn) / (mx - mn)
                    rec = [f(z) for z in H["etas"][k]]
                    if not (close(rec[0], va, 1e-6) and close(rec[1], vr, 1e-6)):
                        yield {"C15"}, f"effectivities {rec} at step {k}, expected {[va, vr]}"
                        return
                    for z in rec:
                        if not -1e-9 <= z <= 1 + 1e-9:
                            yield {"C15"}, f"effectivity {z} at step {k}"
                            return
                    tie = abs(va - ea) < 1e-9 or abs(vr - er) < 1e-9
                    expect = bool(thr) if tie and not (va == ea and vr == er) else (va >= ea and vr >= er)
                    if tie:
                        expect = bool(thr)
                    tags = {"C15"}
                else:
                    expect = bool(thr)
            if gate:
                rb = [f(z) for z in H["etas_bounds"][k]]
                if not (close(rb[0], ea) and close(rb[1], er)):
                    yield {"C15"}, f"recorded thresholds {rb} at step {k}, current ones {[ea, er]}"
                    return
            if bool(thr) != bool(expect):
                yield tags, f"throttle {thr} at step {k} (t={t}), expected {expect} (available {avail}, undefined {und}, thresholds {ea}, {er})"
                return
            # mass, battery
            m1 = m - sc["mdot"] * dtr * thr
            if not close(f(H["masses"][k + 1]), m1, 1e-11):
                yield {"C11", "C22"} if und else {"C11"}, f"mass {m} -> {H['masses'][k + 1]} at step {k}, expected {m1}"
                return
            b1 = min(max(b - r1 * dtr if avail else b + r0 * dtr, cap0), cap1)
            if not close(f(H["battery"][k + 1]), b1, 1e-10):
                yield {"C14"}, f"battery {b} -> {H['battery'][k + 1]} at step {k}, expected {b1}"
                return
            if not (cap0 - 1e-12 <= f(H["battery"][k + 1]) <= cap1 + 1e-12):
                yield {"C14"}, f"battery level {H['battery'][k + 1]}"
                return
            if thr and sgn > 0 and r1 * dtr > b - cap0 + 1e-9:
                yield {"C14"}, f"step {k} thrusts for longer than the stored charge allows"
                return
            if not avail and b1 == cap1:
                chg = False
            if thr:
                if not (close(c[0], al) and close(c[1], be)) and abs(math.cos(c[1]) - math.cos(be)) + abs(math.sin(c[1]) - math.sin(be)) + \
                        abs(math.cos(be)) * (abs(math.cos(c[0]) - math.cos(al)) + abs(math.sin(c[0]) - math.sin(al))) > 1e-7:
                    yield {"C20", "C10", "C01"}, f"recorded angles {c[:2]} at step {k}, the law gives {[al, be]}"
                    return
            # the step itself
            if not close(f(H["Qs"][k]), Qv, 1e-7) and not (und and math.isnan(f(H["Qs"][k]))):
                yield {"C20"}, f"recorded Q {H['Qs'][k]} at step {k}, the law gives {Qv}"
                return
            if math.isfinite(dq) and not (math.isnan(al) or math.isnan(be)) and not close(f(H["dQdts"][k]), dq, 1e-7):
                yield {"C20", "C11", "C01"}, f"recorded rate {H['dQdts'][k]} at step {k}, the law gives {dq}"
                return
            u = thr * acc * np.array([math.cos(c[1]) * math.sin(c[0]), math.cos(c[1]) * math.cos(c[0]), math.sin(c[1])])
            ptrb = Pert(sc).value(t, x, sc["kind"]) if sc["pert"] else np.zeros(3)
            prm = (sc["mu"], u, psi[0], psi[1], psi[2], ptrb)
            I, M = realmod("_integrate"), realmod("_eom")
            rhs = M.eom_kep_gauss if kind == "keplerian" else M.eom_mee_with_a_gauss
            y = I.rk4(rhs, t, dtr, x, prm) if sc["integ"] == "rk4" else I.rkf45(rhs, t, dtr, x, prm, 1e-5)[0]
            y1 = np.array(H["states"][k + 1], float)
            if np.all(np.isfinite(y)) and not np.allclose(y1, y, rtol=1e-8, atol=1e-9):
                yield ({"C10", "C11", "C20", "C01"} if thr else {"C10", "C11", "C20"}), f"state after step {k} is {y1.tolist()}, one step of the recorded control gives {y.tolist()}"
                return
            duty = avail
            if limited or sc["sundman"]:
                exact = False
            # status
            co, a1 = f_spec(kind, y1, sc["oeT"], sc["woe"], sc["tol"])
            re, a2 = f_spec(kind, y1, sc["oeT"], sc["woe"], [sc["rfac"] * z for z in sc["tol"]])
            if co is None or re is None:
                raise Ambiguous()
            if re:
                rel += 1
            last = k == n - 1
            # when several conditions hold at once the statement leaves the choice open
            stop = [c for c, z in ((1, co), (2, re and rel >= sc["relax"]), (-1, f(H["masses"][k + 1]) <= sc["mass_min"])) if z]
            if stop and not last:
                yield {"C12"}, f"step {k} fulfils the condition of code {stop[0]} but the run continues"
                return
            if last and stop and q.exitcode not in stop:
                yield {"C12"}, f"exit code {q.exitcode}, the last step fulfils the condition of code {stop}"
                return
            if last and not stop and q.exitcode in (1, 2, -1):
                yield {"C12"}, f"exit code {q.exitcode} without its condition ({rel} relaxed passes, mass {H['masses'][k + 1]})"
                return
    except Ambiguous:
        pass
    # ---- status
    if q.exitcode not in (1, 2, -1, -2, -3):
        yield {"C12"}, f"exit code {q.exitcode}"
    if bool(q.converge) != (q.exitcode in (1, 2)):
        yield {"C12"}, f"converged {q.converge} with exit code {q.exitcode}"
    if q.exitcode == -2 and abs(f(H["times"][-1])) < abs(sc["tf_max"]):
        yield {"C12"}, f"code -2 at time {H['times'][-1]} of {sc['tf_max']}"
    if n:
        co, _ = f_spec(kind, H["states"][-1], sc["oeT"], sc["woe"], sc["tol"])
        if q.exitcode == 1 and co is False:
            yield {"C12"}, "code 1 but the last state is outside the tolerance"
    if q.exitcode == -1 and f(H["masses"][-1]) > sc["mass_min"]:
        yield {"C12"}, f"code -1 with mass {H['masses'][-1]}"
    # ---- arguments
    want = dict(zip(("mu", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp"),
                    [sc[z] for z in ("mu", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp")]))
    for what, log in (("control law", p.law), ("rate evaluation", p.dqdt)):
        for a in log:
            if len(a) != 12:
                continue
            got = dict(zip(("mu", "f", "oe", "oeT", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp", "woe"), a))
            for z, v in want.items():
                if got[z] != v:
                    yield {"C20"}, f"{what} received {z}={got[z]}, set to {v}"
                    return
            if not np.array_equal(np.array(got["woe"], float), np.array(sc["woe"], float)) or \
                    not np.array_equal(np.array(got["oeT"], float)[:5], np.array(sc["oeT"], float)[:5]):
                yield {"C20"}, f"{what} received target {got['oeT']} and weights {got['woe']}"
                return
            if not any(close(f(got["f"]), sgn * sc["tmax"] / f(m), 1e-12) for m in H["masses"]):
                yield {"C11", "C01"} if what == "control law" else {"C11"}, f"{what} received thrust acceleration {got['f']}"
                return
    for a in p.eta:
        nm, t, oe, m, b = a
        ks = [k for k in range(len(H["times"])) if f(H["times"][k]) == t]
        if not any(np.allclose(oe, safe(sc, q, H["states"][k])) and m == f(H["masses"][k]) and b == f(H["battery"][k]) for k in ks):
            yield {"C15"}, f"{nm} was evaluated with time {t}, mass {m}, battery {b}, elements {oe.tolist()}, which is not the current step"
            return
    # ---- immutability
    for nm, v in (("oe0", sc["oe0"]), ("oeT", sc["oeT"]), ("woe", sc["woe"])):
        if not np.array_equal(np.array(args[nm], float), np.array(v, float)):
            yield {"C19"}, f"the caller's {nm} changed to {args[nm]}"
    for s in p.snaps:
        for nm, (ln, last) in s.items():
            if ln and len(H[nm]) >= ln and not same(last[0], H[nm][ln - 1]):
                yield {"C19"}, f"entry {ln - 1} of {nm} changed from {last[0]} to {H[nm][ln - 1]}"
                return


def same(a, b):
    try:
        return np.array_equal(np.array(a, float), np.array(b, float), equal_nan=True)
    except (TypeError, ValueError):
        return a == b


def snapshot(q):
    out = {}
    for k, v in vars(q).items():
        if plain(v):
            out[k] = copy.deepcopy(v)
    return out


def plain(v):
    """Plain data (numbers, strings, arrays, and sequences or dictionaries of those)."""
    if isinstance(v, (list, tuple)):
        return all(plain(x) for x in v)
    if isinstance(v, dict):
        return all(plain(x) for x in v.values())
    return v is None or isinstance(v, (int, float, str, bool, np.number, np.ndarray))


def differ(a, b):
    for k in a:
        if k not in b:
            return k
        try:
            if not same(a[k], b[k]) and not _deep(a[k], b[k]):
                return k
        except Exception:
            continue
    return None


def _deep(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) or _deep(x, y) for x, y in zip(a, b))
    return a is b or a == b


# ------------------------------------------------------------------ scenarios
def base(rng, kind):
    sc = dict(kind=kind, integ="rk4", sundman=False, mu=1.0, rpmin=0.1, k_petro=1.0, m_petro=3.0, n_petro=4.0, r_petro=2.0, b_petro=0.01, wp=1.0,
              verbosity=0, grid=5, tol=[1e-3] * 5, nan_max=10, rfac=10, relax=100, pert=False, woe=[1.0, 1.0, 1.0, 1.0, 1.0], mass0=1.0, tmax=0.02,
              mdot=0.01, tf_max=6.0, t_step=0.125, mass_min=0.1, duty=[1e16, 0.0], b0=1.0, cap=[0.25, 1.0], rates=[0.0, 0.0], full=False,
              eta_a=0.0, eta_r=0.0, exact=True)
    if kind == "keplerian":
        sc["oe0"] = [rng.uniform(.9, 1.5), rng.uniform(.1, .4), rng.uniform(.2, 1.2), rng.uniform(.2, 2), rng.uniform(.2, 2), rng.uniform(-3, 3)]
        sc["oeT"] = [rng.uniform(1.5, 2.2), rng.uniform(.1, .4), rng.uniform(.2, 1.2), rng.uniform(.2, 2), rng.uniform(.2, 2)]
    else:
        sc["oe0"] = [rng.uniform(.9, 1.5), rng.uniform(-.3, .3), rng.uniform(-.3, .3), rng.uniform(-.4, .4), rng.uniform(-.4, .4), rng.uniform(-3, 3)]
        sc["oeT"] = [rng.uniform(1.5, 2.2), rng.uniform(-.3, .3), rng.uniform(-.3, .3), rng.uniform(-.4, .4), rng.uniform(-.4, .4)]
    return sc


def f_duty(rng, sc):
    sc.update(duty=[rng.choice([0.5, 0.75, 1.0]), rng.choice([0.25, 0.5, 1.0, 0.0])])


def f_battery(rng, sc):
    sc.update(rates=[rng.choice([0.125, 0.25, 0.0625]), rng.choice([0.25, 0.5, 1.0])], full=rng.random() < .5, cap=[0.25, rng.choice([1.0, 0.75])],
              b0=rng.choice([0.25, 0.5, 0.75]), tf_max=10.0)
    if rng.random() < .5:
        sc["rates"] = [0.3, 0.7]
    if rng.random() < .5:
        sc["b0"] = sc["cap"][1]


def f_eta(rng, sc):
    sc.update(eta_a=rng.choice([0.0, 0.5, 0.8, 0.95]), eta_r=rng.choice([0.0, 0.3, 0.6]), grid=rng.choice([2, 3, 5, 8]), tf_max=8.0)
    if sc["eta_a"] == sc["eta_r"] == 0.0:
        sc["eta_r"] = 0.5


def f_call(rng, sc):
    sc.update(eta_a={"call": [0.3, 0.4, 0.1, 0.1]}, grid=rng.choice([2, 4]))
    sc["eta_r"] = {"call": [0.1, 0.3, 0.1, 0.0]} if rng.random() < .6 else 0.25


def f_nan(rng, sc):
    sc.update(nan=[rng.choice([1.0, 2.0]), rng.uniform(0, 6), rng.choice([0.3, 0.7])], nan_max=rng.choice([0, 1, 3, 10, 30]), tf_max=12.0)
    if rng.random() < .3:
        sc.update(nan=[0.0, 0.0, 0.5], nan_max=rng.choice([0, 2]))      # never defined


def f_conv(rng, sc):
    sc["oeT"] = [x + rng.uniform(-.004, .004) for x in sc["oe0"][:5]]
    sc.update(tol=[rng.choice([1e-3, 5e-4])] * 5, rfac=rng.choice([2, 10]), relax=rng.choice([1, 3, 20]), tf_max=20.0, tmax=0.01)


def f_relax(rng, sc):
    sc["oeT"] = [x + .002 for x in sc["oe0"][:5]]
    sc.update(tol=[1e-9] * 5, rfac=1e7, relax=rng.choice([1, 4, 7]), tf_max=4.0)


def f_box(rng, sc):
    """The safeguard pins the state close to the target: the state recorded by a step and its safeguarded image differ by more than the tolerance."""
    d, tol = rng.choice([0.1, 0.4, 0.9]), rng.choice([1e-3, 2e-4])
    sc["oeT"] = [x + rng.uniform(-.003, .003) for x in sc["oe0"][:5]]
    sc.update(tol=[tol] * 5, rfac=rng.choice([2, 4]), relax=rng.choice([1, 2, 4]), tmax=rng.choice([.02, .08]), tf_max=3.0, pert=rng.random() < .5)
    if sc["kind"] == "keplerian":
        sc["oe_min"] = [x - d * tol for x in sc["oeT"][:5]] + [-9.0]
        sc["oe_max"] = [x + d * tol for x in sc["oeT"][:5]] + [99.0]


def f_wild(rng, sc):
    """Numbers at the edge: tolerances of any scale just missed, angles beyond one turn, a single step longer than the allotted time."""
    m = rng.randrange(3)
    if m == 0:
        tol = 10 ** rng.uniform(-9, -3)
        sc.update(tol=[tol] * 5, rfac=rng.choice([1, 2]), tmax=1e-12, mdot=0.0, tf_max=1.0, pert=False)
        sc["oeT"] = [x + 5 * tol * rng.choice([-1, 1]) for x in sc["oe0"][:5]]
        if rng.random() < .5:
            sc.update(rfac=rng.choice([6, 10]), relax=rng.choice([1, 3]))
        if rng.random() < .3:
            sc.update(tol=[7 * tol] * 5)
        sc.pop("oe_min", None), sc.pop("oe_max", None)
    elif m == 1 and sc["kind"] == "keplerian":
        for j in (3, 4):
            sc["oeT"][j] += rng.choice([-2, -1, 1, 2]) * 2 * math.pi
        if rng.random() < .5:
            for j in (3, 4, 5):
                sc["oe0"][j] += rng.choice([-1, 1]) * 2 * math.pi
            sc.update(oe_min=[.05, 1e-4, 1e-4, -99.0, -99.0, -99.0])
    else:
        sc.update(tf_max=rng.choice([.02, .3]), t_step=math.copysign(rng.choice([.5, 1.0]), sc["t_step"]))


def f_mass(rng, sc):
    sc.update(mdot=0.3, mass_min=0.5, tmax=0.05)
    if rng.random() < .3:
        # starts at or below the minimum, thrusting or not
        sc.update(mass_min=sc["mass0"] * rng.choice([1.0, 1.25]))
        if rng.random() < .7:
            sc.update(b0=sc["cap"][0], rates=[0.125, 0.25])


def f_back(rng, sc):
    sc.update(t_step=-abs(sc["t_step"]))
    if rng.random() < .3:
        sc["tf_max"] = -sc["tf_max"]


def f_sund(rng, sc):
    sc.update(sundman=True, t_step=math.copysign(rng.choice([0.1, 0.25]), sc["t_step"]), exact=False)


def f_rkf(rng, sc):
    sc.update(integ="rkf45")


def f_pert(rng, sc):
    sc.update(pert=True)


def f_settings(rng, sc):
    sc.update(mu=rng.uniform(.6, 1.6), rpmin=rng.uniform(.3, .8), k_petro=rng.uniform(.5, 2), m_petro=rng.uniform(1, 4), n_petro=rng.choice([2.0, 3.0]),
              r_petro=rng.choice([1.0, 3.0]), b_petro=rng.uniform(.01, .4), wp=rng.uniform(.2, 2), woe=[rng.choice([0.0, .5, 1.0, 2.0]) for _ in range(5)],
              tmax=rng.uniform(.005, .05), mdot=rng.uniform(0, .02), mass0=rng.uniform(.5, 2), tol=[rng.uniform(5e-4, 3e-3) for _ in range(5)])
    if not any(sc["woe"]):
        sc["woe"][0] = 1.0
    if rng.random() < .4:
        sc["oeT"] = list(sc["oeT"]) + [rng.uniform(0, 6)]
    if sc["kind"] == "keplerian" and rng.random() < .6:
        x = sc["oe0"]
        sc["oe_min"] = [x[0] * rng.choice([.5, 1.001]), x[1] * rng.choice([.5, 1.002]), x[2] * .5, x[3] * rng.choice([.3, 1.01]), x[4] * .5, -9.0]
        sc["oe_max"] = [x[0] * 1.02, x[1] + .01, x[2] + .01, x[3] + .05, x[4] + .05, 50.0]
    sc["aslist"] = rng.random() < .3


def f_before(rng, sc):
    other = [v + .01 for v in sc["oe0"]]
    sc["before"] = [dict(oe0=other, tf_max=2.0, mass0=sc["mass0"] * 1.5, b0=0.5 * (sc["cap"][0] + sc["cap"][1]), rates=[.5, 1.0], duty=[0.5, 0.25])]
    if rng.random() < .5:
        sc["before"].append(dict(oeT=[v + 1e-5 for v in sc["oe0"][:5]], tf_max=1.0))
    if rng.random() < .5:
        sc["before"].append({})
    if rng.random() < .5:       # another problem that records equally many points at the same times
        sc["before"].append(dict(oe0=other))


def f_verbose(rng, sc):
    sc.update(verbosity=2, pfreq=rng.choice([1, 3]))


FAM = dict(duty=f_duty, battery=f_battery, eta=f_eta, call=f_call, nan=f_nan, conv=f_conv, relax=f_relax, box=f_box, wild=f_wild, mass=f_mass, back=f_back, sund=f_sund,
           rkf=f_rkf, pert=f_pert, settings=f_settings, before=f_before, verbose=f_verbose)
ORDER = ("settings", "conv", "relax", "box", "wild", "mass", "duty", "battery", "eta", "call", "nan", "back", "rkf", "pert", "before", "verbose", "sund")
FOCUS = {
    "C01": [(), ("back",), ("settings", "pert"), ("rkf",), ("mass",), ("sund", "back")],
    "C10": [(), ("pert", "settings"), ("back",), ("rkf", "settings"), ("sund",), ("sund", "back", "pert"), ("nan",), ("eta",), ("battery", "duty"), ("wild",)],
    "C11": [("mass",), ("duty",), ("battery",), ("eta",), ("nan",), ("back",), ("rkf", "mass"), ("settings", "before"), ("sund", "battery"), ("back", "eta", "rkf")],
    "C12": [("conv",), ("relax",), ("mass",), ("nan",), (), ("before", "conv"), ("before",), ("before", "relax"), ("relax", "nan"), ("box",), ("box", "rkf", "settings"), ("back", "mass"), ("conv", "rkf"), ("before", "nan"), ("wild",)],
    "C13": [("duty",), ("duty", "back"), ("duty", "sund"), ("duty", "battery"), ("duty", "nan"), ("duty", "eta"), ("duty", "rkf"), ("duty", "sund", "back")],
    "C14": [("battery",), ("battery", "sund"), ("battery", "duty"), ("battery", "back"), ("battery", "nan"), ("battery", "eta"), ("battery", "before")],
    "C15": [("eta",), ("call",), ("eta", "back"), ("call", "back"), ("eta", "duty"), ("call", "battery"), ("eta", "settings"), ("eta", "nan"), ("call", "sund", "rkf")],
    "C16": [("sund",), ("sund", "back"), ("sund", "settings"), ("sund", "battery"), ("battery",), ("sund", "rkf"), (), ("back",), ("sund", "duty", "nan"), ("sund", "wild"), ("wild", "back")],
    "C19": [("before", "settings"), ("eta",), ("settings", "sund"), ("nan",), ("battery",), ("conv",), ("settings", "back", "pert"), ("wild",)],
    "C20": [("settings",), ("settings", "eta"), ("settings", "pert"), ("settings", "rkf"), ("settings", "sund"), ("settings", "before"), ("settings", "back", "eta"), ("settings", "conv"), ("wild",), ("wild", "settings")],
    "C22": [("nan",), ("nan", "duty"), ("nan", "back"), ("nan", "battery"), ("nan", "eta"), ("nan", "rkf"), ("nan", "before"), ("nan", "mass"), ("nan", "call", "sund")],
    "C23": [("before",), ("before", "settings"), ("before", "nan"), ("before", "battery"), ("before", "conv"), ("before", "relax"), ("before", "eta"), ("before", "duty"), ("before", "mass"), ("before", "wild")],
}


MIX = ("rkf", "back", "sund", "settings", "before", "battery", "duty", "pert", "eta", "nan", "conv", "relax", "mass", "call", "verbose")


def scenario(pid):
    def gen(rng, k):
        fam = FOCUS[pid][(k // 2) % len(FOCUS[pid])]
        if k >= 2 * len(FOCUS[pid]):
            fam = set(rng.choice(FOCUS[pid])) | {x for x in MIX if rng.random() < 0.2}
        sc = base(rng, "mee_with_a" if k % 2 == 0 else "keplerian")
        for nm in ORDER:
            if nm in fam:
                FAM[nm](rng, sc)
        return sc
    return gen


def reporting(q):
    """Every reporting facility on a solved object."""
    import matplotlib.pyplot as plt
    with contextlib.redirect_stdout(io.StringIO()), tempfile.TemporaryDirectory() as d:
        q.pretty(); q.pretty_results(); q.pretty_settings()
        q.save_to_dict(None); q.save_to_dict(os.path.join(d, "x.json")); q.save_to_dict(None, save_control_angles=True)
        q.get_cartesian_history(); q.get_cartesian_history(interpolate=True, steps=7)
        q.get_cartesian_history(interpolate=True, steps=5, get_t_evals=True)
        q.interpolate_states()
        for nm in ("plot_elements_history", "plot_battery_history", "plot_controls", "plot_trajectory_2d", "plot_trajectory_3d", "plot_efficiency", "plot_Q"):
            try:
                getattr(q, nm)()
            finally:
                plt.close("all")


def check(pid):
    def chk(sc):
        try:
            q, p, args = run(sc)
        except Exception as e:
            if pid in ("C22", "C10", "C12", "C20"):
                return f"solve raised {type(e).__name__}: {e}"
            return None
        for tags, msg in judge(sc, q, p, args):
            if pid in tags:
                return msg
        if pid == "C23":
            q2 = build(sc)
            setup(q2, sc)
            solve(q2, sc)
            r1, r2 = results(q), results(q2)
            k = differ(r2, r1)
            if k:
                return f"{k} differs from that of a fresh object"
            with contextlib.redirect_stdout(io.StringIO()):
                if len(q.times) > 4:
                    q.save_to_dict(None); q.pretty_results(); q.get_cartesian_history(interpolate=True, steps=5)
            solve(q, sc)
            k = differ(r2, results(q))
            if k:
                return f"{k} changes when the solve is repeated"
        if pid == "C19" and len(q.times) > 2 and all(elliptic(sc, x) for x in q.states):
            s0 = snapshot(q)
            pd = {n: s0.get(n) for n in ("oe0", "oeT", "woe", "mass0", "tmax", "mdot", "tf_max", "t_step", "mass_min", "duty_cycle", "battery_initial",
                                         "battery_capacity", "battery_charge_discharge_rate", "require_full_recharge")}
            exp = dict(oe0=sc["oe0"], oeT=sc["oeT"][:5], woe=sc["woe"], mass0=sc["mass0"], tmax=sc["tmax"], mdot=sc["mdot"], tf_max=sc["tf_max"],
                       t_step=sc["t_step"], mass_min=sc["mass_min"], duty_cycle=tuple(sc["duty"]), battery_initial=sc["b0"],
                       battery_capacity=tuple(sc["cap"]), battery_charge_discharge_rate=tuple(sc["rates"]), require_full_recharge=sc["full"])
            for n, v in exp.items():
                if pd[n] is not None and not same(pd[n], v):
                    return f"the problem definition's {n} is {pd[n]} after the solve, set to {v}"
            try:
                reporting(q)
            except Exception as e:
                return None if isinstance(e, (NotImplementedError,)) else f"reporting raised {type(e).__name__}: {e}"
            k = differ(s0, snapshot(q))
            if k:
                return f"reporting changed {k}"
            for nm, v in (("oe0", sc["oe0"]), ("oeT", sc["oeT"]), ("woe", sc["woe"])):
                if not np.array_equal(np.array(args[nm], float), np.array(v, float)):
                    return f"reporting changed the caller's {nm}"
        return None
    return chk


def results(q):
    d = {n: copy.deepcopy(list(getattr(q, n))) for n in HIST}
    d.update(exitcode=q.exitcode, converge=q.converge)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            x = q.save_to_dict(None)
            d["export"] = [np.array(x["states"], float).tolist(), np.array(x["controls"], float).tolist(), list(map(float, x["times"]))]
        except Exception as e:
            d["export"] = type(e).__name__
        for nm, fn in (("interpolants", lambda: [[float(g(t)) for g in q.interpolate_states()] for t in q.times]),
                       ("Cartesian history", lambda: np.array(q.get_cartesian_history()).tolist()),
                       ("interpolated Cartesian history", lambda: np.array(q.get_cartesian_history(interpolate=True, steps=5)).tolist())):
            try:
                with np.errstate(all="ignore"):
                    d[nm] = fn()
            except Exception as e:
                d[nm] = type(e).__name__
    return d
