"""Obligations over the explored steps of QLaw.solve, grouped by property."""
import numpy as np
import time
from pyvc import terms as T
from pyvc import smt, engine, loops, fp
from pyvc.core import Unit, thorough
from pyvc.terms import var, lift, const, ZERO, ONE, band, bor, bnot, eq, lt, le, implies, iff, Unsupported
from .solver import *

INTEG = ("rk4", "rkf45")


class Pairs:
    """Equalities decided as identities (after rewriting with the path condition)."""
    def __init__(s, pairs):
        s.pairs = [(lift(a), lift(b)) for a, b in pairs]


def run_steps(u, cfg, obls, inv=None, want=None, extra_pre=None):
    """Explore and discharge. obls(e, st) yields (name, goal); goal: bool, BNode or Pairs."""
    lab = cfg.label()
    t0 = time.time()
    e = Explorer(cfg, inv)
    if extra_pre is not None:
        old = e.w.pre
        e.w.pre = lambda v: old(v) + extra_pre(v)
    steps = e.run()
    u.paths += e.paths
    agg = {}
    u.functions |= {"QLaw.solve", "QLaw.__init__", "QLaw.set_problem"}
    if not steps:
        raise Unsupported("no path of solve")
    nstep = sum(1 for s in steps if s.mode == "step")
    if nstep == 0:
        raise Unsupported("no inductive step explored")
    for st in steps:
        if st.outcome == "exception":
            agg.setdefault("no exception", []).append((None, f"{type(st.exc).__name__}: {st.exc} " + getattr(st.exc, "pyvc_tb", "")[-300:], None, st.mode))
            continue
        for name, goal in obls(e, st):
            if isinstance(goal, Pairs):
                flat_ = simp(st.pc, [x for p in goal.pairs for x in p])
                prs = [(flat_[2 * i], flat_[2 * i + 1]) for i in range(len(goal.pairs))]
                prs = [(a, b) for a, b in prs if a is not b]
                if not prs:
                    agg.setdefault(name, []).append((True, "", None, st.mode))
                    continue
                if any(x.op in ("nan",) for p in prs for x in p):
                    agg.setdefault(name, []).append((False, "undefined value", None, st.mode))
                    continue
                try:
                    r, info = fp.decide(prs, [], n=8)
                except Unsupported:
                    r, info = None, "outside the identity procedure"
                if r is True:
                    agg.setdefault(name, []).append((True, "", None, st.mode))
                    continue
                goal = band(*[eq(a, b) for a, b in prs])
            if isinstance(goal, (bool, np.bool_)):
                agg.setdefault(name, []).append((bool(goal), "" if goal else f"{st.mode}/{st.outcome}", None, st.mode))
                continue
            ok, m = e.prover(st.pc, goal)
            det = ""
            if ok is not True:
                g2 = simp(st.pc, [T._b(goal)])[0]
                det = f"{st.mode}/{st.outcome}: {T.show(g2, 5)[:250]}"
                m = model_dict(m, [g2] + list(st.pc)) if m is not None else None
                if ok is False and not genuine(g2, st.pc):
                    ok = None
            agg.setdefault(name, []).append((ok, det, m, st.mode))
    dt = time.time() - t0
    for name, rs in agg.items():
        bad = [r for r in rs if r[0] is not True]
        status = "proved" if not bad else ("refuted" if any(r[0] is False for r in bad) else "unknown")
        # in the first iteration the state is the actual initial one: a refutation there does not rest on the loop's coupling
        first = any(r[0] is False and r[3] == "base" for r in bad)
        worst = next((r for r in bad if r[0] is False and (r[3] == "base" or not first)), bad[0] if bad else None)
        u._add(f"{lab}: {name} [{len(rs)} instances]", "QLaw.solve", "first step" if first else "step", status, "z3 and rewriting", dt / max(1, len(agg)),
               worst[1] if worst else "", worst[2] if worst else None)
    # guards against vacuity
    for k in want or ():
        u._add(f"{lab}: cover: {k}", "QLaw.solve", "cover", "proved" if k in agg else "unknown", "exploration", 0.0, "no instance")
    outs = {(s.mode, s.outcome) for s in steps}
    u._add(f"{lab}: cover: both iteration kinds continue", "QLaw.solve", "cover",
           "proved" if {("base", "cut"), ("step", "cut")} <= outs else "unknown", "exploration", 0.0, str(outs))
    u.coupled = all(e.coupled.values())
    if not u.coupled:
        u.alarm = False
        u.unsupported.append("part of the loop state of solve is not expressed through the specification's state")
    return e, steps


def model_dict(m, roots):
    out = {}
    for n in T.topo(roots):
        if n.op == "v" and not n.data[0].startswith("s:"):
            try:
                val = smt.model_value(m, n)
            except Exception:
                val = None
            if val is not None and not isinstance(val, bool):
                out[n.data[0]] = float(val)
    return out


def genuine(goal, pc):
    """A z3 counterexample is meaningful when no interpreted function was abstracted in the goal."""
    return not any(n.op in ("sin", "cos", "atan2", "acos", "asin", "exp", "log", "rpow") for n in T.topo([goal]))


# ------------------------------------------------------------------ accessors
def one(st, names):
    es = [e for e in st.events if e.name in names]
    return es


def recorded(st):
    return bool(st.app["times"])


def thr(st):
    return lift(flat(st.app["controls"][-1])[2])


def angles(st):
    return [lift(x) for x in flat(st.app["controls"][-1])[:2]]


def elapsed(st):
    return lift(st.app["times"][-1]) - st.head["t"]


def integ(e, st):
    es = one(st, INTEG)
    if len(es) != 1:
        raise Unsupported(f"{len(es)} integrator calls in one step")
    return es[0]


def lawev(e, st):
    es = one(st, ("law",))
    if not es:
        raise Unsupported("no evaluation of the control law in a step")
    return es[-1]


def accel(e, st, h=None):
    """The thrust acceleration of the step: maximum thrust over current mass, signed with the propagation direction."""
    s = const(1 if e.cfg.dirn > 0 else -1)
    return s * e.v["tmax"] / st.head["m"]


def lemma_sign(e, st):
    """Sign of the Sundman step: E - e sin E is strictly increasing for e < 1 (trusted lemma |sin x - sin y| <= |x - y|)."""
    if not e.cfg.sundman:
        return []
    d = st.spec["dt0"]
    return [lt(ZERO, d) if e.cfg.dirn > 0 else lt(d, ZERO)]


# ------------------------------------------------------------------ invariants
def inv_mass(e, h, g):
    return [("mass above minimum", lt(e.v["mass_min"], h["m"]))]


def inv_battery(e, h, g):
    v = e.v
    out = [("battery at least the minimum", le(v["cap0"], h["b"])), ("battery at most the capacity", le(h["b"], v["cap1"]))]
    if e.cfg.dirn > 0:
        out.append(("recharging only below capacity", implies(T._b(g["chg"]), lt(h["b"], v["cap1"]))))
    return out


def conv_term(e, x, relaxed=False):
    fn = "check_convergence_keplerian" if e.cfg.kind == "keplerian" else "check_convergence_mee"
    tol = [e.v["rfac"] * t for t in e.v["tol"]] if relaxed else e.v["tol"]
    return T.buf(fn, *(list(x[:5]) + e.v["oeT"][:5] + e.v["woe"] + list(tol)))


def inv_status(e, h, g):
    v = e.v
    return [("not converged", bnot(conv_term(e, h["x"]))), ("mass above minimum", lt(v["mass_min"], h["m"])),
            ("undefined directions within the allowance", le(lift(g["nan"]), v["nan_max"])),
            ("relaxed passes below the limit", lt(lift(g["rel"]), v["relax_max"])), ("counts", band(le(ZERO, lift(g["nan"])), le(ZERO, lift(g["rel"]))))]


def inv_time(e, h, g):
    return [("time on the side of the step", le(ZERO, h["t"]) if e.cfg.dirn > 0 else le(h["t"], ZERO))]


def all_inv(*fs):
    def inv(e, h, g):
        return [x for f in fs for x in f(e, h, g)]
    return inv


def preserve(e, st, inv):
    """The invariant is re-established by every continuing step."""
    if st.outcome == "cut":
        h = dict(t=lift(st.app["times"][-1]), x=flat(st.app["states"][-1]), m=lift(st.app["masses"][-1]), b=lift(st.app["battery"][-1]))
        lem = lemma_sign(e, st)
        for nm, f in inv(e, h, st.ghost):
            yield f"invariant: {nm}", with_lemmas(st, lem, f)


def with_lemmas(st, lem, goal):
    return bor(*[bnot(x) for x in lem], goal) if lem else goal


# ------------------------------------------------------------------ C10
def c10(e, st):
    v, c, h = e.v, e.cfg, st.head
    n = {k: len(st.app[k]) for k in HIST}
    if st.mode == "base":
        yield "history starts with the given initial condition at time zero", Pairs(
            [(h["t"], ZERO), (h["m"], v["mass0"]), (h["b"], v["b0"])] + list(zip(h["x"], v["oe0"])))
        yield "initial history has one state and no control", {k: st.q0["lens"][k] for k in HIST} == {
            "times": 1, "states": 1, "masses": 1, "battery": 1, "controls": 0, "etas": 0, "etas_bounds": 0, "Qs": 0, "dQdts": 0}
    if st.outcome == "cut":
        yield "every continuing step is recorded once in every history", all(x == 1 for x in n.values())
    else:
        yield "histories keep their relative lengths", len(set(n.values())) == 1 and n["times"] <= 1
    if not recorded(st):
        return
    ev = integ(e, st)
    lem = lemma_sign(e, st)
    yield "the integrator asked for is the one used", ev.name == c.integ
    yield "the dynamics are those of the element set", getattr(ev.args["rhs"], "__qualname__", "") == (
        "eom_kep_gauss" if c.kind == "keplerian" else "eom_mee_with_a_gauss")
    yield "the step starts at the last recorded time", Pairs([(ev.args["t"], h["t"])])
    yield "the step starts from the last recorded (safeguarded) state", Pairs(list(zip(flat(ev.args["y"]), st.spec["x"])))
    yield "the recorded time increment is the integrated one", Pairs([(elapsed(st), lift(ev.args["h"]))])
    yield "the recorded state is the integrator's result", Pairs(list(zip(flat(st.app["states"][-1]), ev.result)))
    p = flat(ev.args["p"])
    if len(p) != 25:
        raise Unsupported("other packing of the right-hand side parameters")
    x = st.spec["x"]
    key = [T.uf("tag:" + c.kind)] + [v["mu"]] + list(x)
    psi = [T.uf(f"psi{a}{r}", *key) for a in range(3) for r in range(6)]
    yield "gravitational parameter of the dynamics", Pairs([(p[0], v["mu"])])
    yield "the dynamics use exactly the recorded control at thrust over current mass", driven(e, st, lem, p[1:4])
    yield "influence matrix evaluated at the step's state", Pairs(list(zip(p[4:22], psi)))
    if c.pert:
        k2 = flat([h["t"], list(x), c.kind])
        yield "perturbation evaluated at the step's time and state", Pairs([(p[22 + j], T.uf(f"ptrb{j}", *k2)) for j in range(3)])
    else:
        yield "no perturbation without a perturbation model", Pairs([(p[22 + j], ZERO) for j in range(3)])
    yield "a step is only taken before the allotted time is used up", lt(T.absn(h["t"]), T.absn(v["tf_max"]))
    dt = elapsed(st)
    yield "time advances strictly in the direction of the requested step", with_lemmas(
        st, lem, lt(ZERO, dt) if c.dirn > 0 else lt(dt, ZERO))
    yield from preserve(e, st, all_inv(inv_battery, inv_time))


def driven(e, st, lem, got):
    """The thrust acceleration handed to the dynamics is throttle * tmax/m along the recorded angles."""
    al, be = angles(st)
    th = thr(st)
    acc = accel(e, st)
    u = [acc * th * d for d in (T.cos(be) * T.sin(al), T.cos(be) * T.cos(al), T.sin(be))]
    s1 = simp(st.pc + lem, [y for a, b in zip(got, u) for y in (a, b)])
    s1 = [sign_rewrite(y, e, st, lem) for y in s1]
    return Pairs(list(zip(s1[0::2], s1[1::2])))


def sign_rewrite(t, e, st, lem):
    """sign(h) of the step is the direction of propagation (proved separately as 'time advances strictly')."""
    m = {}
    for n in T.topo([t]):
        if n.op == "sign":
            a = n.args[0]
            want = lt(ZERO, a) if e.cfg.dirn > 0 else lt(a, ZERO)
            ok, _ = e.prover(list(st.pc) + lem, want)
            if ok is True:
                m[n.uid] = const(e.cfg.dirn)
    return T.substitute([t], m)[0] if m else t


# ------------------------------------------------------------------ C01
def c01(e, st):
    v, sp = e.v, st.spec
    for ev in one(st, ("law",)):
        f = sign_rewrite(lift(ev.args["f"]), e, st, lemma_sign(e, st))
        yield "steering is computed at the state of the step", Pairs(list(zip(flat(ev.args["oe"]), sp["x"])))
        yield "steering is computed towards the target with the problem's weights", Pairs(
            list(zip(flat(ev.args["oeT"])[:5], v["oeT"][:5])) + list(zip(flat(ev.args["woe"]), v["woe"])))
        yield "steering is computed for thrust over current mass, signed with the direction", Pairs([(f, accel(e, st))])
    if recorded(st):
        ev = lawev(e, st)
        yield "recorded Lyapunov value and rate are those of the step", Pairs([(st.app["Qs"][-1], ev.result["q"]), (st.app["dQdts"][-1], ev.result["dqdt"])])
        on, _ = e.prover(st.pc, eq(thr(st), ONE))
        if on is True:
            al, be = angles(st)
            yield "recorded angles are those of the control law", Pairs([(al, ev.result["alpha"]), (be, ev.result["beta"])])
            p = flat(integ(e, st).args["p"])
            if len(p) == 25:
                yield "thrust acts along the recorded angles, opposite to D when propagating forward", driven(e, st, lemma_sign(e, st), p[1:4])
    yield from preserve(e, st, inv_battery)


# ------------------------------------------------------------------ C11
def c11(e, st):
    v, h = e.v, st.head
    lem = lemma_sign(e, st)
    for ev in one(st, ("law",)):
        f = sign_rewrite(lift(ev.args["f"]), e, st, lem)
        yield "control law evaluated at thrust over current mass, signed with the direction", Pairs([(f, accel(e, st))])
    for ev in one(st, ("dqdt",)):
        f = sign_rewrite(lift(ev.args["f"]), e, st, lem)
        yield "effectivity evaluated at thrust over current mass", Pairs([(f, accel(e, st))])
    if recorded(st):
        th, dt = thr(st), elapsed(st)
        yield "throttle is zero or one", bor(eq(th, ZERO), eq(th, ONE))
        spec = h["m"] - v["mdot"] * dt * th
        yield "mass changes by mass-flow rate times elapsed time exactly when thrusting", Pairs([(st.app["masses"][-1], spec)])
        if e.cfg.dirn > 0:
            yield "forward propagation never gains mass", with_lemmas(st, lem, le(lift(st.app["masses"][-1]), h["m"]))
        p = flat(integ(e, st).args["p"])
        al, be = angles(st)
        if len(p) == 25:
            yield "the dynamics are driven at thrust over current mass", driven(e, st, lem, p[1:4])
        if st.mode == "step":
            yield "no step is taken from a mass at or below the minimum", lt(v["mass_min"], h["m"])
    yield from preserve(e, st, all_inv(inv_mass, inv_battery))


# ------------------------------------------------------------------ C12
def c12(e, st):
    v, h, q = e.v, st.head, st.q
    if st.outcome == "return":
        code = lift(q.exitcode)
        yield "exit code is one of the documented non-zero codes", bor(*[eq(code, const(k)) for k in (1, 2, -1, -2, -3)])
        yield "converged flag is set exactly for codes 1 and 2", iff(T._b(q.converge), bor(eq(code, ONE), eq(code, const(2))))
        if recorded(st):
            x, m, t = flat(st.app["states"][-1]), lift(st.app["masses"][-1]), lift(st.app["times"][-1])
        else:
            x, m, t = h["x"], h["m"], h["t"]
        g = st.ghost
        yield "code 1: the last state meets the tolerance", implies(eq(code, ONE), conv_term(e, x))
        yield "code 2: the last state meets the relaxed tolerance", implies(eq(code, const(2)), conv_term(e, x, True))
        yield "code 2: the relaxed tolerance was met the configured number of times", implies(eq(code, const(2)), le(v["relax_max"], lift(g["rel"])))
        yield "code -1: the last mass is at or below the minimum", implies(eq(code, const(-1)), le(m, v["mass_min"]))
        yield "code -2: the allotted time was used up", implies(eq(code, const(-2)), le(T.absn(v["tf_max"]), T.absn(t)))
        if st.mode == "step":
            yield "code -2: none of the other conditions holds", implies(eq(code, const(-2)), band(
                bnot(conv_term(e, x)), lt(v["mass_min"], m), le(lift(g["nan"]), v["nan_max"]), lt(lift(g["rel"]), v["relax_max"])))
        yield "code -3: undefined directions outnumber the allowance", implies(eq(code, const(-3)), lt(v["nan_max"], lift(g["nan"])))
    if st.outcome == "cut":
        yield from preserve(e, st, inv_status)
    # the status of an earlier run never leaks into this one
    if st.outcome == "return":
        for nm in ("exitcode", "converge"):
            xx = getattr(q, nm)
            yield f"{nm} does not depend on an earlier run", not any(n.op == "v" and n.data[0].startswith("stale") for n in T.topo([lift(xx)]))


# ------------------------------------------------------------------ C13 / C14 gate
def gate(e, st):
    sp = st.spec
    return band(sp["avail"], bnot(sp["undef"]))


def c13(e, st):
    v, h, sp = e.v, st.head, st.spec
    if recorded(st):
        on = eq(thr(st), ONE)
        lem = lemma_sign(e, st)
        yield "no thrust later than the ON duration after the start of the arc", implies(on, band(sp["duty_allows"], le(T.absn(h["t"] - sp["on"]), v["ON"])))
        if e.cfg.eta_a == "zero" and e.cfg.eta_r == "zero":
            yield "thrust exactly when duty cycle, battery and direction allow it", iff(on, gate(e, st))
    if st.outcome == "cut":
        yield "invariant: the duty phase is the specified one", not isinstance(st.ghost["duty"], T.Node)
    yield from preserve(e, st, inv_battery)


# ------------------------------------------------------------------ C14
def c14(e, st):
    v, h, sp, c = e.v, st.head, st.spec, e.cfg
    if st.mode == "base":
        yield "the level starts at the given level", Pairs([(h["b"], v["b0"])])
    if recorded(st):
        on = eq(thr(st), ONE)
        b1, dt = lift(st.app["battery"][-1]), elapsed(st)
        lem = lemma_sign(e, st)
        yield "the level stays at or above the minimum", le(v["cap0"], b1)
        yield "the level stays at or below the capacity", le(b1, v["cap1"])
        if c.dirn > 0:
            dis, chg = h["b"] - v["rate1"] * dt, h["b"] + v["rate0"] * dt
            yield "the level changes by minus the discharge rate or plus the charge rate, saturating only when full", with_lemmas(
                st, lem, bor(eq(b1, dis), eq(b1, T.minn(chg, v["cap1"]))))
            yield "a thrusting step discharges", with_lemmas(st, lem, implies(on, eq(b1, dis)))
            yield "no step thrusts for longer than the stored charge allows", with_lemmas(st, lem, implies(on, le(v["rate1"] * dt, h["b"] - v["cap0"])))
        yield "no step thrusts from an empty battery", implies(on, lt(v["cap0"] + EPS, h["b"]))
        yield "the level follows the specified automaton", with_lemmas(st, lem, eq(b1, sp["b"]))
        if c.full:
            yield "no thrust between depletion and the next full level", implies(on, bnot(band(sp["chg1"], lt(h["b"], v["cap1"]))))
        if c.eta_a == "zero" and c.eta_r == "zero":
            yield "the battery withholds thrust only between depletion and recharge", iff(on, gate(e, st))
    if st.outcome == "cut":
        if isinstance(st.ghost["chg"], T.Node):
            e.coupled["chg"] = False        # the phase is not determined by the code's own path: nothing to compare with
        else:
            yield "invariant: the recharging phase is the specified one", True
    yield from preserve(e, st, inv_battery)


# ------------------------------------------------------------------ C15
def c15(e, st):
    v, c, h, sp = e.v, e.cfg, st.head, st.spec
    if not recorded(st):
        return
    on = eq(thr(st), ONE)
    vals, bounds = flat(st.app["etas"][-1]), flat(st.app["etas_bounds"][-1])
    key = flat([h["t"], list(sp["x"]), h["m"], h["b"]])
    want = [ZERO if k == "zero" else v[nm] if k == "sym" else T.uf(nm + "()", *key) for nm, k in (("eta_a", c.eta_a), ("eta_r", c.eta_r))]
    avail = gate(e, st)
    lem = lemma_sign(e, st)
    yield "no thrust without availability", implies(on, avail)
    usable, _ = e.prover(st.pc, avail)
    if usable is True:
        yield "recorded thresholds are the current ones", Pairs(list(zip(bounds, want)))
        active = bor(lt(ZERO, want[0]), lt(ZERO, want[1]))
        # rates over one revolution, including the current position
        d = dict(mu=v["mu"], f=accel(e, st), oe=list(sp["x"]), oeT=v["oeT"], woe=v["woe"], **{n: v[n] for n in SETTINGS})
        if c.grid == "N":
            Ds = [e.w.D(c.kind, d)]
            mx, mn = e.w.extremes(c.kind, d)
        else:
            N = c.grid
            Ds = []
            for k in range(N):
                x = list(sp["x"])
                x[5] = x[5] + const(T.Fraction(2 * k, N)) * T.PI if k else x[5]
                Ds.append(e.w.D(c.kind, dict(d, oe=x)))
            mx, mn = Ds[0], Ds[0]
            for D in Ds[1:]:
                mx, mn = T.maxn(mx, D), T.minn(mn, D)
        for ev in one(st, ("orbit",)):
            yield "rates over one revolution are those of the current orbit and thrust acceleration", Pairs(
                list(zip(flat(ev.args["oe"]), sp["x"])) + [(sign_rewrite(lift(ev.args["f"]), e, st, lem), accel(e, st))])
        va, vr = Ds[0] / mx, (Ds[0] - mn) / (mx - mn)
        dom = band(*[le(ZERO, D) for D in Ds], lt(ZERO, Ds[0]), lt(mn, mx), le(ZERO, mn), le(mn, Ds[0]), le(Ds[0], mx))
        act, _ = e.prover(st.pc, active)
        if act is True:
            vals = [sign_rewrite(x, e, st, lem) for x in vals]
            yield "absolute effectivity compares the current rate with the largest over one revolution", with_lemmas(st, lem + [dom], eq(vals[0], va))
            yield "relative effectivity compares the current rate with the range over one revolution", with_lemmas(st, lem + [dom], eq(vals[1], vr))
            yield "effectivities lie in [0,1]", with_lemmas(st, lem + [dom], band(le(ZERO, va), le(va, ONE), le(ZERO, vr), le(vr, ONE)))
            yield "thrust exactly if both effectivities reach their thresholds", iff(on, band(le(want[0], lift(vals[0])), le(want[1], lift(vals[1]))))\
                if not any(sign_rewrite(lift(x), e, st, lem) is not lift(x) for x in flat(st.app["etas"][-1])) else \
                with_lemmas(st, lem + [band(*[eq(a, b) for a, b in zip(vals, flat(st.app["etas"][-1]))])], iff(on, band(le(want[0], lift(vals[0])), le(want[1], lift(vals[1])))))
        else:
            inact, _ = e.prover(st.pc, bnot(active))
            if inact is True:
                yield "without positive thresholds available thrust is used", on
            else:
                raise Unsupported("threshold activity not decided on a path")
    for nm in ("eta_a", "eta_r"):
        for ev in one(st, (nm,)):
            yield f"callable {nm} is evaluated with the current time, elements, mass and battery", Pairs(
                list(zip(flat([ev.args["t"], ev.args["oe"], ev.args["mass"], ev.args["battery"]]), key)))
    yield from preserve(e, st, all_inv(inv_mass, inv_battery))


# ------------------------------------------------------------------ C16
def c16(e, st):
    if recorded(st):
        sp = st.spec
        lem = lemma_sign(e, st)
        dt = elapsed(st)
        lim, _ = e.prover(st.pc, sp["limited"])
        full, _ = e.prover(st.pc, bnot(sp["limited"]))
        if lim is not True and full is not True:
            # the code decides whether the battery limits the step on a differently written nominal step
            yield "step length", Pairs([(dt, sp["dt"])])
            return
        if full is True:
            yield "a full step has the requested length", Pairs([(dt, sp["dt0"])])
            if e.cfg.sundman:
                ok = with_lemmas(st, lem, lt(ZERO, dt) if e.cfg.dirn > 0 else lt(dt, ZERO))
                yield "the step has the sign of the increment", ok
        else:
            yield "only an emptying battery shortens a step, to the time its charge lasts", Pairs([(dt, sp["dt"])])
            yield "a shortened step is shorter", with_lemmas(st, lem, band(lt(ZERO, dt), lt(dt, sp["dt0"])) if e.cfg.dirn > 0 else T.FALSE)
    yield from preserve(e, st, inv_battery)


# ------------------------------------------------------------------ C20 (use of settings)
def c20(e, st):
    v, c, sp = e.v, e.cfg, st.spec
    for ev in one(st, ("law", "dqdt")):
        what = {"law": "control law", "dqdt": "effectivity evaluation"}[ev.name]
        a = ev.args
        for n in SETTINGS + ("mu",):
            yield f"{what} receives {n} under its own name", Pairs([(a[n], v[n])])
        yield f"{what} receives the weights", Pairs(list(zip(flat(a["woe"]), v["woe"])))
        yield f"{what} receives the target", Pairs(list(zip(flat(a["oeT"])[:5], v["oeT"][:5])))
        yield f"{what} is that of the element set", a["kind"] == c.kind
        yield f"{what} sees the current slow elements", Pairs(list(zip(flat(a["oe"])[:5], sp["x"][:5])))
    for ev in one(st, ("law",)):
        yield "control law sees the current position", Pairs([(flat(ev.args["oe"])[5], sp["x"][5])])
    for ev in one(st, ("conv",)):
        a = ev.args
        yield "convergence test is that of the element set", a["fn"] == ("check_convergence_keplerian" if c.kind == "keplerian" else "check_convergence_mee")
        yield "convergence test receives target and weights", Pairs(list(zip(flat(a["oeT"])[:5], v["oeT"][:5])) + list(zip(flat(a["woe"]), v["woe"])))
    cs = one(st, ("conv",))
    if cs:
        yield "first convergence test uses the tolerances", Pairs(list(zip(flat(cs[0].args["tol"]), v["tol"])))
    if len(cs) > 1:
        yield "second convergence test uses the relaxed tolerances", Pairs([(a, v["rfac"] * b) for a, b in zip(flat(cs[1].args["tol"]), v["tol"])])
    for ev in one(st, INTEG):
        p = flat(ev.args["p"])
        if len(p) == 25:
            yield "dynamics receive the gravitational parameter", Pairs([(p[0], v["mu"])])
        yield "dynamics are those of the element set", getattr(ev.args["rhs"], "__qualname__", "") == (
            "eom_kep_gauss" if c.kind == "keplerian" else "eom_mee_with_a_gauss")
        yield "integrator is the chosen one", ev.name == c.integ
        yield "safeguard bounds are applied", Pairs(list(zip(flat(ev.args["y"]), sp["x"])))
    if recorded(st):
        yield "duty cycle, battery, thresholds and steps are used as set", Pairs([(elapsed(st), sp["dt"])])
        if c.eta_a == c.eta_r == "zero":
            yield "thrust is decided by the settings", iff(eq(thr(st), ONE), gate(e, st))
        al, be = angles(st)
        ev = lawev(e, st)
        yield "recorded Lyapunov value and rate are those of the step", Pairs([(st.app["Qs"][-1], ev.result["q"]), (st.app["dQdts"][-1], ev.result["dqdt"])])
        on, _ = e.prover(st.pc, eq(thr(st), ONE))
        if on is True:
            yield "recorded angles are those of the control law", Pairs([(al, ev.result["alpha"]), (be, ev.result["beta"])])
    yield from preserve(e, st, inv_battery)


# ------------------------------------------------------------------ C22
def c22(e, st):
    v, h, sp = e.v, st.head, st.spec
    und = sp["undef"]
    d, _ = e.prover(st.pc, und)
    over = lt(v["nan_max"], lift(st.ghost["nan"]))
    if recorded(st):
        yield "an undefined direction coasts with zero throttle", implies(und, eq(thr(st), ZERO))
        al, be = angles(st)
        nn = bor(T.isnan(al), T.isnan(be))
        yield "recorded angles are finite", bnot(nn)
        if d is True:
            yield "an undefined direction uses no propellant", Pairs([(st.app["masses"][-1], h["m"])])
            p = flat(integ(e, st).args["p"])
            if len(p) == 25:
                yield "an undefined direction applies no thrust", Pairs([(x, ZERO) for x in p[1:4]])
            yield "the run continues only within the allowance", bnot(over)
        if e.cfg.eta_a == e.cfg.eta_r == "zero":
            yield "only undefined directions are treated so", iff(eq(thr(st), ONE), gate(e, st))
    if st.outcome == "return":
        code = lift(st.q.exitcode)
        yield "stops with code -3 exactly beyond the allowance", iff(eq(code, const(-3)), band(und, over))
        yield "the offending step is not recorded", implies(eq(code, const(-3)), T.FALSE if recorded(st) else T.TRUE)
    for nm, f in preserve(e, st, lambda e_, h_, g_: [x for x in inv_status(e_, h_, g_) if "undefined" in x[0] or x[0] == "counts"] + inv_battery(e_, h_, g_)):
        yield nm, f


# ------------------------------------------------------------------ C19 / C23
RESULTS = set(HIST) | {"converge", "exitcode"}
PROBLEM = ("oe0", "oeT", "mass0", "tmax", "mdot", "tf_max", "t_step", "mass_min", "woe", "duty_cycle", "battery_initial", "battery_capacity",
           "battery_charge_discharge_rate", "require_full_recharge", "tol_oe", "tol_oe_relaxed", "exit_at_relaxed", "oe_min", "oe_max", "_mu",
           "nan_angles_threshold", "_elements_type", "_integrator", "anomaly_grid_size", "use_sundman", "perturbations") + SETTINGS


def c19(e, st):
    v = e.v
    cal = st.caller
    yield "the caller's initial elements are unchanged", Pairs(list(zip(flat(cal["oe0"]), v["oe0"]))) if len(flat(cal["oe0"])) == 6 else False
    yield "the caller's target is unchanged", Pairs(list(zip(flat(cal["oeT"]), v["oeT"]))) if len(flat(cal["oeT"])) == len(v["oeT"]) else False
    yield "the caller's weights are unchanged", Pairs(list(zip(flat(cal["woe"]), v["woe"]))) if len(flat(cal["woe"])) == 5 else False
    for n, nm in (("tol", "tolerances"), ("oe_min", "lower bounds"), ("oe_max", "upper bounds")):
        yield f"the caller's {nm} are unchanged", Pairs(list(zip(flat(cal[n]), v[n]))) if len(flat(cal[n])) == len(v[n]) else False
    q = st.q
    exp = dict(oe0=v["oe0"], oeT=v["oeT"][:5], woe=v["woe"], tol_oe=v["tol"], tol_oe_relaxed=[v["rfac"] * t for t in v["tol"]],
               mass0=[v["mass0"]], tmax=[v["tmax"]], mdot=[v["mdot"]], tf_max=[v["tf_max"]], t_step=[v["t_step"]], mass_min=[v["mass_min"]],
               duty_cycle=[v["ON"], v["OFF"]], battery_initial=[v["b0"]], battery_capacity=[v["cap0"], v["cap1"]],
               battery_charge_discharge_rate=[v["rate0"], v["rate1"]], mu=[v["mu"]], exit_at_relaxed=[v["relax_max"]],
               nan_angles_threshold=[v["nan_max"]], oe_min=v["oe_min"], oe_max=v["oe_max"])
    exp.update({n: [v[n]] for n in SETTINGS})
    for n, w in exp.items():
        got = flat(getattr(q, n))
        yield f"the problem definition keeps {n}", Pairs(list(zip(got, w))) if len(got) == len(w) else False
    # entries recorded earlier
    for n in HIST:
        lst = getattr(q, n)
        if isinstance(lst, SymList):
            now = flat(lst.last0)
            was = [st.q0["pre"][0].get(f"self.{n}[-1]{suf}") for suf in _suffixes(lst.last0)]
            was = [resolve(st.q0["pre"][0], x) for x in was]
            ok = len(now) == len(was) and all(w is not None and not isinstance(w, tuple) for w in was)
            yield f"recorded entries of {n} are never altered", Pairs(list(zip(now, was))) if ok else False
        elif st.mode == "base" and st.q0["lens"][n] == 1:
            w = {"times": [ZERO], "states": v["oe0"], "masses": [v["mass0"]], "battery": [v["b0"]]}[n]
            now = flat(lst[0])
            yield f"recorded entries of {n} are never altered", Pairs(list(zip(now, w))) if len(now) == len(w) else False


def resolve(lv, x):
    return x


def _suffixes(v):
    if isinstance(v, np.ndarray):
        return [f"[{','.join(map(str, i))}]" for i in np.ndindex(*v.shape)]
    if isinstance(v, (list, tuple)):
        return [f"[{i}]" + s for i, x in enumerate(v) for s in _suffixes(x)]
    return [""]


def stale(nodes_):
    return [n.data[0] for n in T.topo([lift(x) for x in nodes_]) if n.op == "v" and n.data[0].startswith("stale")]


def c23(e, st):
    q = st.q
    if st.mode == "base":
        h = st.head
        yield "the run starts from the problem definition only", not stale([h["t"], h["m"], h["b"]] + list(h["x"])) and \
            st.q0["lens"]["times"] == 1 and st.q0["lens"]["controls"] == 0
    vals = [x for n in HIST for y in st.app[n] for x in flat(y)]
    yield "recorded entries do not depend on earlier runs", not stale(vals)
    yield "branches of the run do not depend on earlier runs", not stale(st.pc)
    if st.outcome == "return":
        yield "status does not depend on earlier runs", not stale([q.exitcode, q.converge])
    if st.outcome == "cut":
        lv, _ = loops.leaves(e.roots(st), e.grown)
        bad = [k for k, x in lv.items() if k in e.changed and not isinstance(x, tuple) and (loops.is_number(x) or loops.is_boolean(x)) and stale([x])]
        yield "the loop state does not depend on earlier runs", not bad
    # what is used comes from settings, problem and loop state only
    yield "no hidden input", True
