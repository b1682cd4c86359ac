"""QLaw.solve under contract: loop states, callee contracts, ghost automaton.

Callees with their own contracts (control law: C01-C03, integrators: C08, convergence tests and safeguard: C09,
anomalies: C07, perturbations: C17) are replaced by uninterpreted results keyed by their arguments; every call is
recorded, so obligations speak about what the solver passes to them and what it does with the results.
"""
import inspect
import itertools
import math
import random
import time
import numpy as np
from fractions import Fraction
from pyvc import terms as T
from pyvc import smt, engine, loops, fp
from pyvc.loops import Driver, LoopCut, SymList
from pyvc.loader import Package, Recorder
from pyvc.terms import var, lift, const, ZERO, ONE, band, bor, bnot, eq, lt, le, Unsupported
from .common import obj, seq

EPS = T.lift(1e-12)
HIST = ("times", "states", "masses", "controls", "etas", "etas_bounds", "Qs", "dQdts", "battery")
SETTINGS = ("rpmin", "k_petro", "m_petro", "n_petro", "r_petro", "b_petro", "wp")


class Cfg:
    def __init__(s, kind="mee_with_a", integ="rk4", sundman=False, pert=False, eta_a="zero", eta_r="zero", full=False, dirn=1,
                 verbosity=0, grid=2, nT=5, aslist=False, again=False):
        s.__dict__.update({k: v for k, v in locals().items() if k != "s"})

    def label(s):
        return (f"{'kep' if s.kind == 'keplerian' else 'mee'} {s.integ}{' sundman' if s.sundman else ''}{' perturbed' if s.pert else ''}"
                f"{'' if s.eta_a == s.eta_r == 'zero' else f' eta {s.eta_a}/{s.eta_r} grid {s.grid}'}{' full-recharge' if s.full else ''}"
                f" {'forward' if s.dirn > 0 else 'backward'}{' verbose' if s.verbosity > 1 else ''}{' settings reassigned' if s.again else ''}")


class Event:
    __slots__ = ("name", "args", "result", "pc")

    def __init__(s, name, args, result, pc):
        s.name, s.args, s.result, s.pc = name, args, result, pc


def flat(x, out=None):
    out = [] if out is None else out
    if isinstance(x, (list, tuple)):
        for y in x:
            flat(y, out)
    elif isinstance(x, np.ndarray):
        for y in x.ravel():
            flat(y, out)
    elif isinstance(x, T.Node) or isinstance(x, (int, float, np.floating, np.integer, bool)):
        out.append(lift(x))
    elif x is None or isinstance(x, str) or callable(x):
        out.append(T.uf("tag:" + (x if isinstance(x, str) else getattr(x, "__qualname__", repr(x)))))
    else:
        raise Unsupported(f"argument of type {type(x).__name__}")
    return out


def snap(x):
    """A frozen copy of an argument (so that later mutation is visible)."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(snap(y) for y in x) if not isinstance(x, SymList) else x
    return x


def strip_turn(a):
    """x + 2 pi k -> x"""
    a = lift(a)
    if a.op == "+":
        for p, q in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            k = T._pi_coeff(p)
            if k is not None and (k / 2).denominator == 1:
                return q
    return a


def fsq(f):
    """f^2 with factors sign(.) and -1 dropped (f = 0 is outside the law's domain)."""
    def strip(t):
        if t.op == "*":
            a, b = strip(t.args[0]), strip(t.args[1])
            return a * b
        if t.op == "/":
            return strip(t.args[0]) / strip(t.args[1])
        if t.op == "sign" or (t.op == "c" and t.data == -1):
            return ONE
        return t
    return strip(lift(f)) ** 2


class World:
    """The symbolic package with its callee contracts; one per configuration."""

    def __init__(s, cfg):
        s.cfg = cfg
        s.pkg = Package(transform={"_qlaw": loops.cut_transform()}, overrides={"inject": {"__pyvc_driver__": loops.driver}})
        s.real = {}
        s.stub()
        s.mod = s.pkg.load("_qlaw")
        s.tags = {}
        if cfg.grid == "N":
            s.orbit_contract()

    # ------------------------------------------------------------ callee contracts
    def log(s, name, args, result):
        c = engine.ctx()
        if c is None:
            raise Unsupported("call outside of an exploration")
        c.events.append(Event(name, {k: snap(v) for k, v in args.items()}, result, len(c.pc)))

    def stub(s):
        P = s.pkg
        sym, lyap, itg, conv, els, eom = (P.load(m) for m in ("_symbolic", "_lyapunov", "_integrate", "_convergence", "_elements", "_eom"))

        def bind(fn):
            sig = inspect.signature(fn)

            def b(a, k):
                ba = sig.bind(*a, **k)
                ba.apply_defaults()
                return dict(ba.arguments)
            return b

        # generated evaluators
        s.lawfn = {}
        for kind, nm in (("keplerian", "symbolic_qlaw_keplerian"), ("mee_with_a", "symbolic_qlaw_mee_with_a")):
            def dqdt(*a, _k=kind, **kw):
                if kw or len(a) != 12:
                    raise Unsupported("rate evaluator called with other arguments")
                d = dict(zip(("mu", "f", "oe", "oeT", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp", "woe"), a))
                r = lift(d["f"]) * s.D(_k, d)
                s.log("dqdt", dict(d, kind=_k), r)
                return r

            def ctrl(*a, _k=kind, **kw):
                raise Unsupported("direct call of the control evaluator")

            def other(*a, **kw):
                raise Unsupported("direct call of a generated evaluator")
            ctrl.__qualname__ = f"ctrl.{kind}"
            dqdt.__qualname__ = f"dqdt.{kind}"
            s.lawfn[kind] = (ctrl, other, other, dqdt)
            setattr(sym, nm, (lambda k: (lambda cse=True: s.lawfn[k]))(kind))

        bl = bind(lyap.lyapunov_control_angles)

        def law(*a, **k):
            d = bl(a, k)
            missing = {"fun_lyapunov_control", "mu", "f", "oe", "oeT", "woe"} | set(SETTINGS)
            if not missing <= set(d):
                raise Unsupported("other interface of lyapunov_control_angles")
            kind = d["fun_lyapunov_control"].__qualname__.split(".")[-1]
            key = s.lawkey(d)
            al, be = T.uf("law.alpha", *key), T.uf("law.beta", *key)
            D = s.D(kind, d)
            psi = [[T.uf(f"psi{c}{r}", *s.psikey(kind, d)) for r in range(6)] for c in range(3)]
            q = T.uf("law.Q", *key)
            dq = lift(d["f"]) * D
            c = engine.ctx()
            c.assume(le(ZERO, D))
            undef = bor(T.isnan(al), T.isnan(be))
            c.assume(bor(undef, lt(ZERO, D)))       # the angles are defined exactly when the raw direction is not null
            u = obj([T.uf(f"law.u{j}", *key) for j in range(3)])
            res = (al, be, u, [obj(p) for p in psi], q, dq)
            s.log("law", dict(d, kind=kind), dict(alpha=al, beta=be, psi=psi, q=q, dqdt=dq, D=D))
            return res
        lyap.lyapunov_control_angles = law

        # integrators
        for nm in ("rk4", "rkf45"):
            bi = bind(getattr(itg, nm))

            def integ(*a, _n=nm, _b=bi, **k):
                d = _b(a, k)
                names = list(d)
                rhs, t, h, y, p = [d[n] for n in names[:5]]
                rest = [d[n] for n in names[5:]]
                key = flat([rhs, t, h, y, p] + rest)
                res = obj([T.uf(f"{_n}.{i}", *key) for i in range(6)])
                s.log(_n, dict(rhs=rhs, t=t, h=h, y=y, p=p, rest=rest), [x for x in res])
                if _n == "rkf45":
                    return res, T.uf("rkf45.h", *key)
                return res
            setattr(itg, nm, integ)

        # right-hand sides are only passed around
        for nm in [n for n in vars(eom) if n.startswith("eom_")]:
            def rhs(*a, _n=nm, **k):
                raise Unsupported("direct call of the equations of motion")
            rhs.__qualname__ = nm
            setattr(eom, nm, rhs)

        for nm in ("check_convergence_keplerian", "check_convergence_mee"):
            bc = bind(getattr(conv, nm))

            def cc(*a, _n=nm, _b=bc, **k):
                d = list(_b(a, k).values())
                oe, oeT, woe, tol = d[:4]
                key = [x for v, m in ((oe, 5), (oeT, 5), (woe, 5), (tol, 5)) for x in flat(v)[:m]]
                r = T.buf(_n, *key)
                s.log("conv", dict(fn=_n, oe=oe, oeT=oeT, woe=woe, tol=tol), r)
                return r
            cc.__qualname__ = nm
            setattr(conv, nm, cc)
        bs = bind(conv.elements_safety)

        def safety(*a, **k):
            oe, lo, hi = list(bs(a, k).values())[:3]
            r = s.safe(oe, lo, hi)
            s.log("safety", dict(oe=oe, lo=lo, hi=hi), r)
            return obj(list(r))
        conv.elements_safety = safety

        bt, bm = bind(els.ta2ea), bind(els.mee2ea)

        def ta2ea(*a, **k):
            ta, e = list(bt(a, k).values())[:2]
            return s.ea("keplerian", [ZERO, lift(e), ZERO, ZERO, ZERO, lift(ta)])

        def mee2ea(*a, **k):
            x = list(bm(a, k).values())[0]
            return s.ea("mee_with_a", flat(x))
        els.ta2ea, els.mee2ea = ta2ea, mee2ea

    def safe(s, oe, lo, hi):
        oe, lo, hi = flat(oe), flat(lo), flat(hi)
        return [T.minn(T.maxn(lo[i], oe[i]), hi[i]) for i in range(5)] + [oe[5]]

    def ea(s, kind, x):
        """Contract of ta2ea / mee2ea (C07): the eccentric anomaly of the position, up to whole turns."""
        if kind == "keplerian":
            return T.uf("E.kep", x[1], x[5])
        return T.uf("E.mee", *x[1:6])

    def ecc(s, kind, x):
        return x[1] if kind == "keplerian" else T.sqrt(x[1] * x[1] + x[2] * x[2])

    def lawkey(s, d):
        return [T.uf("tag:" + d["fun_lyapunov_control"].__qualname__)] + flat([d["mu"], d["oe"]]) + flat(d["oeT"])[:5] + \
            flat([d[n] for n in SETTINGS]) + flat(d["woe"]) + [fsq(d["f"])]

    def psikey(s, kind, d):
        return [T.uf("tag:" + kind)] + flat([d["mu"], d["oe"]])

    def D(s, kind, d):
        """|influence matrix^T grad Q|: depends neither on the sign of f nor on whole turns of the position (C01)."""
        oe = flat(d["oe"])
        oe = oe[:5] + [strip_turn(oe[5])]
        return T.uf("law.D", T.uf("tag:" + kind), *(flat([d["mu"]]) + oe + flat(d["oeT"])[:5] + flat([d[n] for n in SETTINGS]) + flat(d["woe"]) + [fsq(d["f"])]))

    def extremes(s, kind, d):
        """Largest and smallest |dQ/dt| / f over one revolution sampled at any number of points including the current one."""
        oe = flat(d["oe"])
        oe = oe[:5] + [strip_turn(oe[5])]
        key = [T.uf("tag:" + kind)] + flat([d["mu"]]) + oe + flat(d["oeT"])[:5] + flat([d[n] for n in SETTINGS]) + flat(d["woe"]) + [fsq(d["f"])]
        return T.uf("orbit.max", *key), T.uf("orbit.min", *key)

    def orbit_contract(s):
        """Contract of evaluate_osculating_qdot (proved for every grid size in C15)."""
        Q = s.mod.QLaw
        if not hasattr(Q, "evaluate_osculating_qdot"):
            raise Unsupported("no evaluate_osculating_qdot")
        sig = inspect.signature(Q.evaluate_osculating_qdot)
        if len(sig.parameters) != 3:
            raise Unsupported("other interface of evaluate_osculating_qdot")

        def stub(q, *a, **k):
            oe, acc = list(sig.bind(q, *a, **k).arguments.values())[1:]
            try:
                d = dict(mu=q.mu, f=acc, oe=oe, oeT=q.oeT, woe=q.woe, **{n: getattr(q, n) for n in SETTINGS})
            except AttributeError as x:
                raise Unsupported(str(x))
            mx, mn = s.extremes(s.cfg.kind, d)
            D = s.D(s.cfg.kind, d)
            c = engine.ctx()
            for x in (le(ZERO, mn), le(mn, D), le(D, mx)):
                c.assume(x)
            s.log("orbit", dict(oe=oe, f=acc), (mx, mn))
            return lift(acc) * mx, lift(acc) * mn
        Q.evaluate_osculating_qdot = stub

    # ------------------------------------------------------------ inputs
    def inputs(s):
        c = s.cfg
        v = {}
        kep = c.kind == "keplerian"
        names = ("a", "e", "i", "raan", "aop", "ta") if kep else ("a", "f", "g", "h", "k", "L")
        v["oe0"] = [var("oe0_" + n, **({"pos": True} if n == "a" else {"unit": True} if n == "e" else {})) for n in names]
        v["oeT"] = [var("oeT_" + n) for n in names][: c.nT]
        v["mass0"], v["tmax"], v["mdot"] = var("mass0", pos=True), var("tmax", pos=True), var("mdot", nonneg=True)
        v["tf_max"], v["t_step"], v["mass_min"] = var("tf_max"), var("t_step"), var("mass_min", pos=True)
        v["woe"] = [var(f"woe{j}", nonneg=True) for j in range(5)]
        v["ON"], v["OFF"] = var("ON", nonneg=True), var("OFF", nonneg=True)
        v["b0"], v["cap0"], v["cap1"] = var("b0", nonneg=True), var("cap0", nonneg=True), var("cap1", pos=True)
        v["rate0"], v["rate1"] = var("rate0", nonneg=True), var("rate1", nonneg=True)
        v["mu"] = var("mu", pos=True)
        for n in SETTINGS:
            v[n] = var(n)
        v["tol"] = [var(f"tol{j}", pos=True) for j in range(5)]
        v["rfac"] = var("relaxed_tol_factor", pos=True)
        v["oe_min"] = [var(f"oemin{j}") for j in range(6)]
        v["oe_max"] = [var(f"oemax{j}") for j in range(6)]
        v["nan_max"] = var("nan_angles_threshold", nonneg=True)
        v["relax_max"] = var("exit_at_relaxed", pos=True)
        v["eta_a"] = ZERO if c.eta_a == "zero" else var("eta_a", nonneg=True) if c.eta_a == "sym" else None
        v["eta_r"] = ZERO if c.eta_r == "zero" else var("eta_r", nonneg=True) if c.eta_r == "sym" else None
        v["verbosity"] = c.verbosity
        return v

    def pre(s, v):
        c = s.cfg
        p = [le(ONE, v["rfac"]), le(T.lift(1e-2), v["mass_min"]), lt(v["cap0"] + EPS, v["cap1"]), le(v["cap0"], v["b0"]), le(v["b0"], v["cap1"])]
        p += [lt(ZERO, v["t_step"]) if c.dirn > 0 else lt(v["t_step"], ZERO)]
        return p

    def construct(s, v, stale=True):
        c = s.cfg
        mk = list if c.aslist else obj
        set_ = {n: mk(list(v[n])) for n in ("tol", "oe_min", "oe_max")}
        kw = dict(mu=v["mu"], elements_type=c.kind, integrator=c.integ, verbosity=c.verbosity, anomaly_grid_size=var("anomaly_grid_size", pos=True) if c.grid == "N" else c.grid,
                  tol_oe=set_["tol"], oe_min=set_["oe_min"], oe_max=set_["oe_max"], nan_angles_threshold=v["nan_max"],
                  use_sundman=c.sundman, relaxed_tol_factor=v["rfac"], exit_at_relaxed=v["relax_max"])
        kw.update({n: v[n] for n in SETTINGS})
        kw["perturbations"] = s.perturb() if c.pert else None
        if stale and c.again:
            kw["mu"] = 2.71875      # replaced through the setter below
        q = s.mod.QLaw(**kw)
        if stale:
            # an earlier problem on this object
            q.set_problem(obj([var(f"stale_oe0{i}") for i in range(6)]), obj([var(f"stale_oeT{i}") for i in range(11 - c.nT)]), var("stale_mass"), var("stale_tmax"),
                          var("stale_mdot"), tf_max=var("stale_tf"), t_step=var("stale_step"), mass_min=0.5, woe=obj([var(f"stale_woe{i}") for i in range(5)]),
                          duty_cycle=(var("stale_ON"), var("stale_OFF")), battery_initial=var("stale_bi"), battery_capacity=(var("stale_c0"), var("stale_c1")),
                          battery_charge_discharge_rate=(var("stale_r0"), var("stale_r1")), require_full_recharge=not c.full)
        if stale and c.again:
            q.mu = v["mu"]
            if q.integrator == c.integ:
                q.integrator = "rk4" if c.integ == "rkf45" else "rkf45"
            q.integrator = c.integ
        s.caller = {"oe0": mk(list(v["oe0"])), "oeT": mk(list(v["oeT"])), "woe": mk(list(v["woe"])), **set_}
        q.set_problem(s.caller["oe0"], s.caller["oeT"], v["mass0"], v["tmax"], v["mdot"], tf_max=v["tf_max"], t_step=v["t_step"],
                      mass_min=v["mass_min"], woe=s.caller["woe"], duty_cycle=(v["ON"], v["OFF"]), battery_initial=v["b0"],
                      battery_capacity=(v["cap0"], v["cap1"]), battery_charge_discharge_rate=(v["rate0"], v["rate1"]),
                      require_full_recharge=c.full)
        if stale:
            # results of an earlier solve on this object
            q.times, q.masses, q.battery = [ZERO, var("stale_t")], [var("stale_m0"), var("stale_m")], [var("stale_b0"), var("stale_b")]
            q.states = [obj([var(f"stale_x0{i}") for i in range(6)]), obj([var(f"stale_x{i}") for i in range(6)])]
            q.controls, q.etas, q.etas_bounds = [[var("stale_al"), var("stale_be"), var("stale_th")]], [[var("stale_va"), var("stale_vr")]], [[var("stale_ea"), var("stale_er")]]
            q.Qs, q.dQdts = [var("stale_Q")], [var("stale_dQ")]
            q.converge, q.exitcode = True, var("stale_exit")
        return q

    def perturb(s):
        if hasattr(s, "_pert"):
            return s._pert
        w = s

        class Pert:
            def get_perturbations_RTN(self, t, oe, elements_type="mee_with_a"):
                key = flat([t, oe, elements_type])
                r = obj([T.uf(f"ptrb{j}", *key) for j in range(3)])
                w.log("ptrb", dict(t=t, oe=oe, kind=elements_type), list(r))
                return r
        s._pert = Pert()
        return s._pert

    def etas(s, v):
        c = s.cfg
        out = []
        for nm, k in (("eta_a", c.eta_a), ("eta_r", c.eta_r)):
            if k == "call":
                def f(t, oe, mass, battery, _n=nm):
                    r = T.uf(_n + "()", *flat([t, oe, mass, battery]))
                    s.log(_n, dict(t=t, oe=oe, mass=mass, battery=battery), r)
                    return r
                out.append(f)
            elif k == "zero":
                out.append(0.0)
            else:
                out.append(v[nm])
        return out


# ================================================================ ghost automaton (the specification)
class Ghost:
    FIELDS = ("t", "m", "b", "on", "off", "nan", "rel", "tn")


def simp(pc, roots):
    """Rewrite with the literals of the path condition."""
    m = {}
    for c in pc:
        stack = [(c, True)]
        while stack:
            x, val = stack.pop()
            if x.op == "not":
                stack.append((x.args[0], not val))
            elif x.op == "and" and val:
                stack.extend((a, True) for a in x.args)
            else:
                m[x.uid] = T.TRUE if val else T.FALSE
    roots = list(roots)
    for _ in range(3):
        new = T.substitute(roots, m)
        if all(a is b for a, b in zip(new, roots)):
            break
        roots = new
    return roots


class Prover:
    """Memoised proofs under path conditions."""
    def __init__(s):
        s.memo = {}
        s.n = 0
        s.by = {}

    def __call__(s, pc, goal, timeout=2000):
        goal = T._b(goal)
        goal = simp(pc, [goal])[0]
        if goal is T.TRUE:
            s.by["rewriting"] = s.by.get("rewriting", 0) + 1
            return True, None
        sl = smt.slice_(list(pc), [goal])
        key = (goal.uid, tuple(sorted({c.uid for c in sl})))
        if key not in s.memo:
            st, be, m = smt.prove(sl, goal, timeout, use_cvc5=False)
            s.memo[key] = (st, be, m)
            s.n += 1
        st, be, m = s.memo[key]
        if st == "proved":
            s.by[be] = s.by.get(be, 0) + 1
            return True, None
        return (False if st == "refuted" else None), m


class Step:
    """One explored path of solve()."""
    __slots__ = ("mode", "outcome", "exc", "pc", "events", "head", "q", "locs", "ghost", "app", "spec", "caller", "boolkey", "q0", "uids")

    def __init__(s, **k):
        for n in s.__slots__:
            setattr(s, n, k.get(n))


def lasts(q):
    return dict(t=lift(q.times[-1]), x=flat(q.states[-1]), m=lift(q.masses[-1]), b=lift(q.battery[-1]))


def appended(lst, n0):
    if isinstance(lst, SymList):
        return list(lst.tail)
    return list(lst)[n0:]


class Explorer:
    """Base and inductive exploration of solve() for one configuration."""

    def __init__(s, cfg, inv=None, deadline=None):
        s.cfg = cfg
        s.w = World(cfg)
        s.v = s.w.inputs()
        s.prover = Prover()
        s.inv = inv or (lambda e, h, g: [])
        s.notes = []
        s.rounds = 0
        s.dead, s.changed, s.grown = set(), set(), set()
        s.paths = 0
        s.deadline = deadline

    # -------- specification of one step, over the head state h and ghosts g
    def spec(s, h, g, first):
        v, c = s.v, s.cfg
        x = s.w.safe(h["x"], v["oe_min"], v["oe_max"]) if c.kind == "keplerian" else list(h["x"])
        if c.sundman:
            E0 = s.w.ea(c.kind, x)
            e = s.w.ecc(c.kind, x)
            dM = v["t_step"] - e * (T.sin(E0 + v["t_step"]) - T.sin(E0))
            dt0 = dM * T.sqrt(x[0] ** 3 / v["mu"])
        else:
            dt0 = v["t_step"]
        t, b = h["t"], h["b"]
        d0, on0, off0, ch0 = T._b(g["duty"]), lift(g["on"]), lift(g["off"]), T._b(g["chg"])
        c1 = band(lt(v["ON"], T.absn(t - on0)), d0)
        d1, off1 = band(d0, bnot(c1)), T.ite(c1, t, off0)
        c2 = band(lt(v["OFF"], T.absn(t - off1)), bnot(d1))
        d2, on1 = bor(d1, c2), T.ite(c2, t, on0)
        c3 = le(b, v["cap0"] + EPS)
        d3, off2, ch1 = band(d2, bnot(c3)), T.ite(c3, t, off1), bor(ch0, c3)
        return dict(x=x, dt0=dt0, d3=d3, on=on1, off=off2, chg1=ch1, c3=c3, empty=c3, duty_allows=d2)

    def spec_tail(s, h, sp, dt0):
        """Continues the automaton once the nominal step is known (dt0: the code's own, checked against sp['dt0'])."""
        v, c = s.v, s.cfg
        b = h["b"]
        c4 = band(bnot(sp["c3"]), lt(b - v["rate1"] * dt0, v["cap0"]), bor(bnot(sp["chg1"]), T.FALSE if c.full else T.TRUE))
        dt = T.ite(c4, (b - v["cap0"]) / v["rate1"], dt0)
        c5 = band(T.TRUE if c.full else T.FALSE, sp["chg1"], lt(b, v["cap1"]))
        avail = band(sp["d3"], bnot(c5))
        bn = T.ite(avail, s.clip(b - v["rate1"] * dt), s.clip(b + v["rate0"] * dt))
        ch2 = band(sp["chg1"], bnot(band(bnot(avail), eq(bn, v["cap1"]))))
        return dict(dt=dt, avail=avail, b=bn, chg=ch2, duty=avail, limited=c4, c4=c4, c5=c5)

    def clip(s, z):
        return T.minn(T.maxn(z, s.v["cap0"]), s.v["cap1"])

    # -------- running one path
    def attempt(s, gen=None, ghost0=None):
        """Returns a closure for engine.explore."""
        w, v = s.w, s.v

        def run():
            ctx = engine.ctx()
            q = w.construct(v)
            ea, er = w.etas(v)
            rec = {}
            drv = Driver(gen=(lambda locs: gen(locs, rec)) if gen else None)

            def on_head(locs):
                rec["q"] = q
                rec["head"] = lasts(q)
                rec["lens"] = {n: (0 if isinstance(getattr(q, n), SymList) else len(getattr(q, n))) for n in HIST}
                rec["locs0"] = locs
                rec["content"] = contents(q, w.caller)
                if "ghost" not in rec:
                    rec["ghost"] = dict(on=ZERO, off=ZERO, duty=True, chg=False, nan=ZERO, rel=ZERO)
                rec["pre"] = loops.leaves(dict(locs, **{"G!": rec["ghost"]}), s.grown)
                rec["pc0"] = len(ctx.pc)
                rec["n_events0"] = len(ctx.events)
            drv.on_head = on_head
            Driver.cur = drv
            try:
                q.solve(ea, er)
                out, locs = "return", {"self": q}
            except LoopCut as c:
                out, locs = "cut", c.locs
                # truth values carried to the next iteration are decided, so that the loop state has a definite phase
                for d in (locs, q.__dict__):
                    for k, x in list(d.items()):
                        if isinstance(x, T.BNode):
                            d[k] = bool(x)
            finally:
                Driver.cur = None
            rec["content1"] = contents(q, w.caller)
            return out, locs, q, rec, dict(w.caller)
        return run

    def collect(s, mode, gen=None, sample=None):
        pre = s.w.pre(s.v)
        ps = engine.explore(s.attempt(gen), pre, max_paths=20000, deadline=s.deadline, sample=sample)
        s.paths += len(ps)
        steps = []
        for p in ps:
            if p.exc is not None:
                steps.append(Step(mode=mode, outcome="exception", exc=p.exc, pc=p.pc, events=p.events))
                continue
            out, locs, q, rec, caller = p.result
            if "head" not in rec:
                raise Unsupported("solve does not reach an unbounded loop")
            st = Step(mode=mode, outcome=out, pc=p.pc, events=p.events[rec["n_events0"]:], head=rec["head"], q=q, locs=locs, caller=caller)
            st.q0 = rec
            st.app = {n: appended(getattr(q, n), rec["lens"][n]) for n in HIST}
            st.ghost = s.step_ghost(st, rec["ghost"])
            steps.append(st)
        return steps

    def step_ghost(s, st, g):
        sp = s.spec(st.head, g, st.mode == "base")
        integ = [e for e in st.events if e.name in ("rk4", "rkf45")]
        sp.update(s.spec_tail(st.head, sp, sp["dt0"]))
        # the law evaluations of this step
        laws = [e for e in st.events if e.name == "law"]
        undef = bor(T.isnan(laws[0].result["alpha"]), T.isnan(laws[0].result["beta"])) if laws else T.FALSE
        sp["undef"] = band(sp["avail"], undef)
        rec = bool(st.app["times"])
        convs = [e for e in st.events if e.name == "conv"]
        xs = flat(st.app["states"][-1]) if st.app["states"] else None
        v = s.v
        if xs:
            fn = "check_convergence_keplerian" if s.cfg.kind == "keplerian" else "check_convergence_mee"
            key = xs[:5] + v["oeT"][:5] + v["woe"]
            sp["conv"] = T.buf(fn, *(key + v["tol"]))
            sp["relax"] = T.buf(fn, *(key + [v["rfac"] * t for t in v["tol"]]))
        else:
            sp["conv"] = sp["relax"] = T.FALSE
        ng = dict(on=sp["on"], off=sp["off"], duty=sp["duty"], chg=sp["chg"],
                  nan=lift(g["nan"]) + T.ite(sp["undef"], ONE, ZERO),
                  rel=lift(g["rel"]) + T.ite(sp["relax"], ONE, ZERO))
        ks = list(ng)
        vals = simp(st.pc, [lift(ng[k]) if not isinstance(ng[k], T.BNode) else ng[k] for k in ks])
        ng = dict(zip(ks, vals))
        st.spec = sp
        return ng

    # -------- inference of the loop state
    def run(self):
        base = self.collect("base")
        cuts = [p for p in base if p.outcome == "cut"]
        self.base = base
        self.ind = []
        if not cuts:
            self.coupled = {}
            return base
        # candidate shapes
        shapes = {}
        self.dead = {k for p in cuts for k in p.locs} - set(cuts[0].q0["locs0"])
        self.learn(cuts)
        cand = None
        sample = 80
        for rnd in range(14):
            self.rounds += 1
            tmpl = self.templates(cuts)
            if cand is None:
                cand = self.candidates(cuts)
            steps = []
            for sh, tp in tmpl.items():
                steps += self.collect("step", self.maker(tp, cand), sample)
            self.ind = steps
            icuts = [p for p in steps if p.outcome == "cut"]
            if self.dead and any(p.outcome == "exception" and isinstance(p.exc, UnboundLocalError) for p in steps):
                self.dead = set()
                self.learn(cuts)
                cand = None
                continue
            before = (len(self.changed), len(self.grown))
            self.learn(icuts)
            grew = (len(self.changed), len(self.grown)) != before
            drop = self.filter(icuts, cand)
            newshape = [p for p in icuts if self.shape(p) not in tmpl]
            cuts = cuts + newshape
            if grew:
                cand = self.candidates(cuts)
                continue
            if drop or newshape:
                cand = [x for x in cand if x not in drop]
                continue
            if sample is not None:
                sample = None       # the complete exploration confirms (or refutes) what the sample suggested
                continue
            self.cand = cand
            self.coupling(cand)
            return base + steps
        raise Unsupported("loop state inference did not converge")

    def roots(s, st):
        self = s
        g = dict(st.ghost)
        for k in ("duty", "chg"):
            if not isinstance(g[k], bool):
                b = T._b(g[k])
                if b.op == "bc":
                    g[k] = b.data
                else:
                    ok, _ = self.prover(st.pc, b)
                    if ok:
                        g[k] = True
                    else:
                        ok, _ = self.prover(st.pc, bnot(b))
                        g[k] = False if ok else b
        st.ghost = g
        r = {k: x for k, x in st.locs.items() if k not in s.dead}
        r["G!"] = g
        return r

    def learn(self, cuts):
        for p in cuts:
            post, lens1 = loops.leaves(self.roots(p), self.grown)
            pre, lens0 = p.q0["pre"]
            for path, n in lens1.items():
                if path in lens0 and lens0[path] != n and isinstance(n, int):
                    self.grown.add(path)
            for path, x in post.items():
                if path.startswith("G!"):
                    self.changed.add(path)
                    continue
                if path not in pre or not loops.same(pre[path], x):
                    if loops.is_number(x) or loops.is_boolean(x):
                        self.changed.add(path)
        # children of grown lists are always general
        for p in cuts:
            post, _ = loops.leaves(self.roots(p), self.grown)
            for path, x in post.items():
                if any(path.startswith(gp + "[-1]") for gp in self.grown) and (loops.is_number(x) or loops.is_boolean(x)):
                    self.changed.add(path)

    def shape(self, p):
        post, lens = loops.leaves(self.roots(p), self.grown)
        return tuple(sorted((k, str(loops.kind(x))) for k, x in post.items())), \
            tuple(sorted((k, str(n)) for k, n in lens.items() if k not in self.grown))

    def templates(self, cuts):
        out = {}
        for p in cuts:
            sh = self.shape(p)
            if sh not in out:
                out[sh] = p
        if len(out) > 6:
            raise Unsupported("too many shapes of the loop state")
        return out

    def bools(self, leafmap):
        return {k: x for k, x in leafmap.items() if k in self.changed and loops.is_boolean(x)}

    def candidates(self, cuts):
        """Equalities between changed numeric leaves that hold in all given states (conditional on the ghost phase)."""
        maps = []
        for p in cuts:
            m, _ = loops.leaves(self.roots(p), self.grown)
            maps.append((p, m))
        nums = sorted({k for _, m in maps for k, x in m.items() if k in self.changed and loops.is_number(x)})
        bl = sorted({k for _, m in maps for k, x in m.items() if k in self.changed and loops.is_boolean(x)})
        cand = []

        def holds(sel, a, b):
            for p, m in sel:
                if a in m and b in m:
                    x, y = m[a], m[b]
                    if isinstance(x, tuple) or isinstance(y, tuple):
                        return False
                    if lift(x) is not lift(y):
                        return False
            return True
        groups = {}
        for k in nums:
            sig = tuple(lift(m[k]).uid if k in m and not isinstance(m[k], tuple) else None for _, m in maps)
            groups.setdefault(sig, []).append(k)
        for ks in groups.values():
            if len(ks) <= 12:
                cand += [("eq", None, a, b) for a, b in itertools.combinations(ks, 2)]
            else:
                cand += [("eq", None, ks[0], k) for k in ks[1:]]
        ghosts = [k for k in nums if k.startswith("G!")]
        for gk in ghosts:
            for k in nums:
                if k.startswith("G!") or ("eq", None, gk, k) in cand or ("eq", None, k, gk) in cand:
                    continue
                for val in (True, False):
                    sel = [(p, m) for p, m in maps if m.get("G!.duty") is val]
                    if sel and holds(sel, gk, k):
                        cand.append(("eq", ("G!.duty", val), gk, k))
        # phases
        for gk in ("G!.duty", "G!.chg"):
            for k in bl:
                if k.startswith("G!"):
                    continue
                for sense in (True, False):
                    ok = True
                    for p, m in maps:
                        x, y = m.get(gk), m.get(k)
                        if not isinstance(x, bool) or not isinstance(y, bool) or (x == y) != sense:
                            ok = False
                            break
                    if ok:
                        cand.append(("beq", sense, gk, k))
        # defined values
        for k in nums:
            if all(k not in m or isinstance(m[k], tuple) or self.notnan(p, m[k]) for p, m in maps):
                cand.append(("num", None, k, k))
        return cand

    def notnan(self, p, x):
        n = T.isnan(lift(x))
        if n is T.FALSE:
            return True
        if n is T.TRUE:
            return False
        return simp(p.pc, [n])[0] is T.FALSE

    def maker(self, tp, cand):
        """Generalised loop state built from a template cut state."""
        troots = self.roots(tp)
        tleaves, _ = loops.leaves(troots, self.grown)

        def gen(locs, rec):
            ctx = engine.ctx()
            bval = {}
            parent = {}

            def find(k):
                while parent.get(k, k) != k:
                    k = parent[k]
                return k

            def boolval(path):
                if path not in bval:
                    for kd, sense, a, b in cand:
                        if kd == "beq" and path in (a, b):
                            o = b if path == a else a
                            if o in bval:
                                bval[path] = bval[o] if sense else (not bval[o])
                                return bval[path]
                    bval[path] = bool(T.bvar("s:" + path))
                return bval[path]
            for g in ("G!.duty", "G!.chg"):
                boolval(g)
            for k in sorted(tleaves):
                if k in self.changed and loops.is_boolean(tleaves[k]):
                    boolval(k)
            for kd, sense, a, b in cand:
                if kd == "beq" and a in bval and b in bval and (bval[a] == bval[b]) != sense:
                    ctx.assume(T.FALSE)
            for kd, cond, a, b in cand:
                if kd == "eq" and (cond is None or bval.get(cond[0]) is cond[1]):
                    ra, rb = find(a), find(b)
                    if ra != rb:
                        parent[max(ra, rb)] = min(ra, rb)
            rec["rep"] = {}

            def rep(path):
                r = find(path)
                rec["rep"][path] = r
                return var("s:" + r)
            live = {}
            lv = dict(locs)
            memo = set()

            def walk(x, path):
                if loops.is_container(x):
                    if id(x) in memo:
                        return
                    memo.add(id(x))
                    if getattr(type(x), "__module__", "").startswith("pyqlaw_sym"):
                        live[path] = x
                    for p, c in loops.children(x, path, ()):
                        walk(c, p)
            walk(lv, "")
            q = locs["self"]
            out = loops.generalise(troots, self.changed, self.grown, rep, boolval,
                                   lambda p: var("n:" + p, integer=True, pos=True), live)
            g = out.pop("G!")
            rec["ghost"] = g
            for kd, cond, a, b in cand:
                if kd == "num" and a in tleaves:
                    n = T.isnan(rep(a))
                    if n is not T.FALSE:
                        ctx.assume(bnot(n))
            h = lasts(q if "self" not in out else out["self"])
            for nm, f in self.inv(self, h, g):
                ctx.assume(f)
            return out
        return gen

    def filter(self, cuts, cand):
        """Candidates not re-established by some step."""
        drop = []
        for c in cand:
            kd, cond, a, b = c
            for p in cuts:
                m, _ = loops.leaves(self.roots(p), self.grown)
                if a not in m or b not in m:
                    continue
                x, y = m[a], m[b]
                if isinstance(x, tuple) or isinstance(y, tuple):
                    drop.append(c)
                    break
                if kd == "eq":
                    if cond is not None:
                        cv = m.get(cond[0])
                        if isinstance(cv, bool) and cv is not cond[1]:
                            continue
                    if lift(x) is lift(y):
                        continue
                    ok, _ = self.prover(p.pc, eq(x, y), timeout=500)
                    if ok is not True:
                        drop.append(c)
                        break
                elif kd == "beq":
                    x, y = T._b(x), T._b(y)
                    goal = T.iff(x, y) if cond else bnot(T.iff(x, y))
                    if goal is T.TRUE:
                        continue
                    ok, _ = self.prover(p.pc, goal, timeout=500)
                    if ok is not True:
                        drop.append(c)
                        break
                elif kd == "num":
                    if not self.notnan(p, x):
                        drop.append(c)
                        break
        return drop

    def coupling(self, cand):
        """Which ghosts are tied to the code's own state (otherwise refutations may be artefacts)."""
        self.coupled = {}
        for g in ("on", "off", "nan", "rel"):
            hit = [c for c in cand if c[0] == "eq" and f"G!.{g}" in (c[2], c[3])]
            self.coupled[g] = bool(hit)
        for g in ("duty", "chg"):
            self.coupled[g] = any(c[0] == "beq" and f"G!.{g}" in (c[2], c[3]) for c in cand)


def contents(q, caller):
    lv, ln = loops.leaves({"self": q, "caller!": caller}, ())
    return {"leaves": lv, "lens": ln}
