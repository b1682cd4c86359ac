"""C17: perturbing accelerations."""
import math
from fractions import Fraction
from .common import *
from .spec import *
from . import c05

MOD = "_perturbations"
ASSUMPTIONS = [
    "SPICE (spkpos, pxform, bodvrd, convrt) is an external, trusted dependency: its results are uninterpreted functions of their arguments; "
    "pxform is assumed to return a proper rotation",
    "J2, third-body and radiation terms are compared with gradients/formulae of the physical potentials over the reals",
]
R3 = [var("rx"), var("ry"), var("rz")]


def euler(M, a, b, c):
    """Any rotation matrix (3-1-3 angles)."""
    P, Q, W = perifocal_axes(M, b, a, c)
    return [P, Q, W]


def n2(v):
    return dot(v, v)


def u_j2(u):
    M = symmod(MOD)
    mu, J2, Re = var("mu", pos=True), var("J2"), var("Re", pos=True)
    A = euler(SYM, var("A"), var("B"), var("C"))
    pole = A[2]
    rn = T.sqrt(n2(R3))
    s = dot(R3, pole) / rn
    # potential energy per unit mass of the J2 term
    V = mu * J2 * Re ** 2 / rn ** 3 * (3 * s * s - 1) / 2
    acc = [-T.diff(V, x) for x in R3]
    dom = [lt(ZERO, n2(R3)), lt(ZERO, rn), lt(ZERO, mu), lt(ZERO, Re)]
    ps = u.explore(lambda: nodes(M.perturbation_J2(seq(R3), obj(A), mu, J2, Re)), dom)
    ident_paths(u, "perturbation_J2 = gradient of the J2 potential about the pole", ps, lambda r: list(zip(r, acc)), cons=dom)
    u.defined("perturbation_J2", ps)
    u.reachable("perturbation_J2", dom)


def f_j2(r, A, mu, J2, Re):
    rn = math.sqrt(n2(r))
    k = A[2]
    z = dot(r, k)
    c = -1.5 * mu * J2 * Re ** 2 / rn ** 5
    return [c * ((1 - 5 * z * z / rn ** 2) * r[i] + 2 * z * k[i]) for i in range(3)]


def c_j2(x):
    M = realmod(MOD)
    r, e, mu, J2, Re = x
    A = euler(FLT, *e)
    got = [float(v) for v in M.perturbation_J2(np.array(r), np.array(A), mu, J2, Re)]
    want = f_j2(r, A, mu, J2, Re)
    sc = max(map(abs, want))
    if not allclose(got, want, 1e-8, 1e-9 * sc):
        return f"perturbation_J2{tuple(x)} = {got}, gradient of the potential is {want}"


def u_third(u):
    M = symmod(MOD)
    s = [var("sx"), var("sy"), var("sz")]
    gm = var("mu3", pos=True)
    d = [a - b for a, b in zip(R3, s)]
    dn, sn = T.sqrt(n2(d)), T.sqrt(n2(s))
    spec = [-gm * (d[i] / dn ** 3 + s[i] / sn ** 3) for i in range(3)]
    dom = [lt(ZERO, n2(d)), lt(ZERO, n2(s)), lt(ZERO, dn), lt(ZERO, sn), lt(ZERO, 1 + (dn / sn) ** 3)]
    ps = u.explore(lambda: nodes(M.perturbation_third_body_battin(seq(R3), seq(s), gm)), dom[:2])
    ident_paths(u, "perturbation_third_body_battin = direct minus indirect point-mass attraction", ps, lambda r: list(zip(r, spec)), cons=dom)
    q = 1 + n2(d) / n2(s) - 1
    u.defined("perturbation_third_body_battin", ps, extra=[lt(ZERO, n2(d) / n2(s))],
              basis=monomial_prover([n2(d), n2(s), 1 + (dn / sn) ** 3], lambda r: {}, dom))
    u.reachable("third body", dom[:2])


def c_third(x):
    M = realmod(MOD)
    r, s, gm = x
    import mpmath as mp
    with mp.workdps(50):        # the two attractions nearly cancel for a distant body
        R, S = [mp.mpf(a) for a in r], [mp.mpf(a) for a in s]
        d = [a - b for a, b in zip(R, S)]
        dn, sn, rn = mp.sqrt(n2(d)), mp.sqrt(n2(S)), mp.sqrt(n2(R))
        want = [float(-gm * (d[i] / dn ** 3 + S[i] / sn ** 3)) for i in range(3)]
        sc = float(gm * (rn / dn ** 3 + (1 / sn ** 2 if rn > sn / 10 else 0)))
    got = [float(v) for v in M.perturbation_third_body_battin(np.array(r), np.array(s), gm)]
    if not allclose(got, want, 1e-7, 1e-9 * sc):
        return f"perturbation_third_body_battin{tuple(x)} = {got}, expected {want}"


def u_srp(u):
    M = symmod(MOD)
    AU, k = var("AU", pos=True), var("k", pos=True)
    rn = T.sqrt(n2(R3))
    dom = [lt(ZERO, n2(R3)), lt(ZERO, rn), lt(ZERO, AU), lt(ZERO, k)]
    ps = u.explore(lambda: nodes(M.perturbation_SRP(seq(R3), AU, k)), dom)
    spec = [k * (AU / rn) ** 2 * R3[i] / rn for i in range(3)]
    ident_paths(u, "perturbation_SRP points away from the Sun and falls with the inverse square of distance (k at 1 AU)", ps, lambda r: list(zip(r, spec)), cons=dom)
    u.defined("perturbation_SRP", ps)
    u.reachable("srp", dom)


def c_srp(x):
    r, AU, k = x
    rn = math.sqrt(n2(r))
    got = [float(v) for v in realmod(MOD).perturbation_SRP(np.array(r), AU, k)]
    want = [k * AU ** 2 * v / rn ** 3 for v in r]
    if not allclose(got, want, 1e-9, 1e-12 * max(map(abs, want))):
        return f"perturbation_SRP{tuple(x)} = {got}, expected {want}"


def u_rtn(u):
    M = symmod(MOD)
    V = [var("vx"), var("vy"), var("vz")]
    h2 = n2(cross(R3, V))
    dom = [lt(ZERO, n2(R3)), lt(ZERO, h2), lt(ZERO, T.sqrt(h2)), lt(ZERO, T.sqrt(n2(R3)))]
    ps = u.explore(lambda: obj(M.pxformECI2RTN(seq(R3), seq(V))), dom[:2])

    def mk(X):
        ax = rtn_axes(SYM, R3 + V)
        out = [(X[i, j], ax[i][j]) for i in range(3) for j in range(3)]
        for i in range(3):
            for j in range(3):
                out.append((dot(list(X[i]), list(X[j])), ONE if i == j else ZERO))
        det = dot(list(X[0]), cross(list(X[1]), list(X[2])))
        return out + [(det, ONE)]
    ident_paths(u, "pxformECI2RTN: proper rotation onto radial, transverse, normal", ps, mk, cons=dom)
    u.defined("pxformECI2RTN", ps)
    u.reachable("rtn", dom[:2])


def c_rtn(x):
    X = np.array(realmod(MOD).pxformECI2RTN(np.array(x[0]), np.array(x[1])))
    ax = rtn_axes(FLT, x[0] + x[1])
    if np.abs(X - np.array(ax)).max() > 1e-8:
        return f"pxformECI2RTN{tuple(x)} = {X.tolist()}, expected {ax}"


# ---------------------------------------------------------------- SpicePerturbations
class SymSpice:
    """SPICE as uninterpreted functions of the arguments."""
    def __init__(s):
        s.calls = []

    def bodvrd(s, body, item, n):
        s.calls.append(("bodvrd", body, item))
        return 1, seq([var(f"GM_{body}_{item}", pos=True)])

    def spkpos(s, targ, et, ref, abcorr, obs):
        s.calls.append(("spkpos", targ, ref, abcorr, obs))
        return seq([T.uf(f"pos{i}_{targ}_{ref}_{abcorr}_{obs}", lift(et)) for i in range(3)]), T.uf("lt", lift(et))

    def pxform(s, a, b, et):
        s.calls.append(("pxform", a, b))
        return obj(euler(SYM, *[T.uf(f"rot{i}_{a}_{b}", lift(et)) for i in range(3)]))

    def convrt(s, x, a, b):
        return lift(x) * var(f"{b}_per_{a}", pos=True)

    def __getattr__(s, n):
        raise Unsupported(f"spice.{n}")


class NumSpice:
    def _h(s, *k):
        import hashlib
        return int(hashlib.sha256(repr(k).encode()).hexdigest()[:8], 16) / 2 ** 32

    def bodvrd(s, body, item, n):
        return 1, np.array([1000.0 * (1 + 50 * s._h("gm", str(body), item))])

    def spkpos(s, targ, et, ref, ab, obs):
        w = 1e-6 * (1 + s._h("w", targ))
        R = 5e4 * (1 + s._h("R", targ, ref, ab, obs))
        return R * np.array([math.cos(w * et), 0.8 * math.sin(w * et), 0.3 + s._h("z", targ, obs)]), 0.0

    def pxform(s, a, b, et):
        e = [s._h("r", i, a, b) * 3 + 1e-6 * et * (i + 1) for i in range(3)]
        return np.array(euler(FLT, *e))

    def convrt(s, x, a, b):
        return x * {("AU", "km"): 1.495978707e8}.get((a, b), 12345.678)


def acc_spec(Mf, sp, cfg, rv, mu, LU, TU, et, gms):
    """Sum of exactly the enabled terms in the inertial frame."""
    r = rv[:3]
    VU2 = LU * (LU / TU) ** 2
    tot = [Mf_zero(Mf)] * 3
    for name, g in zip(cfg["bodies"] or [], gms):
        pos, _ = sp.spkpos(name, et, cfg["frame"], "NONE", cfg["obs"])
        s = [p / LU for p in pos]
        d = [a - b for a, b in zip(r, s)]
        dn, sn = Mf.sqrt(n2(d)), Mf.sqrt(n2(s))
        tot = [tot[i] - g * (d[i] / dn ** 3 + s[i] / sn ** 3) for i in range(3)]
    if cfg["J2"]:
        A = sp.pxform(cfg["frame"], cfg["PA"], et)
        k = [A[2, 0], A[2, 1], A[2, 2]]
        rn = Mf.sqrt(n2(r))
        z = dot(r, k)
        Re = cfg["Re_km"] / LU
        c = -3 * mu * cfg["J2val"] * Re ** 2 / (2 * rn ** 5)
        tot = [tot[i] + c * ((1 - 5 * z * z / rn ** 2) * r[i] + 2 * z * k[i]) for i in range(3)]
    if cfg["SRP"]:
        pos, _ = sp.spkpos("10", et, cfg["frame"], "NONE", cfg["obs"])
        d = [r[i] - pos[i] / LU for i in range(3)]
        dn = Mf.sqrt(n2(d))
        ksrp = cfg["P"] * cfg["Cr"] * cfg["Am"] / 1000 / (LU / TU ** 2)
        AU = sp.convrt(1.0, "AU", "km") / LU
        tot = [tot[i] + ksrp * AU ** 2 * d[i] / dn ** 3 for i in range(3)]
    return tot


def Mf_zero(M):
    return ZERO if M is SYM else 0.0


CONFIGS = []
for el in ("keplerian", "mee_with_a"):
    for bodies, gm in ((["301", "10"], None), (["301"], "given"), (None, None), (["301", "10"], "given")):
        for j2, srp in ((True, True), (True, False), (False, True), (False, False)):
            if (bodies is None or gm is None) or (j2 != srp):
                CONFIGS.append((el, bodies, gm, j2, srp))


def u_total(cfgs):
    def run(u):
        for el, bodies, gm, j2, srp in cfgs:
            sp = SymSpice()
            P = Package(overrides={"spiceypy": sp})
            M = P.load(MOD)
            # callee contracts (C06): a caller is checked against them
            M.kep2sv = lambda oe, mu: seq(kep_to_rv(SYM, nodes(oe), mu))
            M.mee_with_a2sv = lambda m, mu: (lambda q: seq(mee_to_rv(SYM, [q[0] * (1 - q[1] ** 2 - q[2] ** 2)] + q[1:], mu)))(nodes(m))
            LU, TU, et0, t = var("LU", pos=True), var("TU", pos=True), var("et_ref"), var("t")
            cfg = dict(bodies=bodies, frame="FRM", PA="PAX", obs="OBS", J2=j2, SRP=srp, J2val=var("J2"), Re_km=var("Re_km", pos=True),
                       P=var("P_SRP", pos=True), Cr=var("Cr", pos=True), Am=var("Am", pos=True))
            gms_in = [var(f"gm{i}", pos=True) for i in range(len(bodies))] if gm else None
            tag = f"{el}, third bodies {bodies if bodies else 'none'}{' with GMs' if gm else ''}, J2 {j2}, SRP {srp}"
            if el == "keplerian":
                k = c05.kepvars()
                dom = [lt(ZERO, LU), lt(ZERO, TU), lt(ZERO, 1 - k[1]), lt(ZERO, 1 + k[1]), lt(ZERO, 1 + k[1] * T.cos(k[5])), lt(ZERO, 1 - k[1] ** 2)]
                oe = k
            else:
                k = c05.meevars("a")
                e2 = k[1] ** 2 + k[2] ** 2
                w = 1 + k[1] * T.cos(k[5]) + k[2] * T.sin(k[5])
                dom = [lt(ZERO, LU), lt(ZERO, TU), lt(ZERO, 1 - e2), lt(ZERO, w)]
                oe = k

            def f():
                S = M.SpicePerturbations(et0, LU, TU, obs_id="OBS", frame_qlaw="FRM", frame_PA="PAX", third_bodies_names=list(bodies) if bodies else None,
                                         third_bodies_gms=list(gms_in) if gms_in else None, J2=cfg["J2val"], Re_km=cfg["Re_km"], P_SRP_SI=cfg["P"],
                                         Cr_SRP=cfg["Cr"], Am_SI=cfg["Am"], use_J2=j2, use_SRP=srp)
                x = seq(oe)
                r = nodes(S.get_perturbations_RTN(t, x, el))
                return r, nodes(x)
            sp2 = SymSpice()
            MU = var("GM_OBS_GM", pos=True) / (LU * (LU / TU) ** 2)
            gms = gms_in if gms_in else [var(f"GM_{b}_GM", pos=True) / (LU * (LU / TU) ** 2) for b in bodies or []]
            rv = kep_to_rv(SYM, k, MU) if el == "keplerian" else mee_to_rv(SYM, [k[0] * (1 - e2)] + k[1:], MU)
            acc = acc_spec(SYM, sp2, cfg, rv, MU, LU, TU, et0 + t * TU, gms)
            ax = rtn_axes(SYM, rv)
            want = [dot(ax[i], acc) for i in range(3)]
            ps = u.explore(f, dom, feas_ms=100)
            hints = [lt(ZERO, n2(rv[:3])), lt(ZERO, n2(cross(rv[:3], rv[3:])))]
            ident_paths(u, f"total perturbation = rotated sum of exactly the enabled terms; {tag}", ps, lambda r: list(zip(r[0], want)), cons=dom)
            for p in ps:
                if p.exc is None:
                    u.holds(f"elements untouched; {tag}", all(a is b for a, b in zip(p.result[1], oe)))
        u.functions.update(["SpicePerturbations.__init__", "SpicePerturbations.get_perturbations_RTN"])
    return run


def c_total(x):
    M = realmod(MOD)
    el, bodies, gm, j2, srp, kep, t, LU, TU, et0 = x
    old = M.spice
    M.spice = NumSpice()
    try:
        # one set-up, then others in the same process that agree with it in part
        for LU, TU, obs, frame, pa in ((LU, TU, "OBS", "FRM", "PAX"), (1.5 * LU, TU, "OBS", "FRM", "PAX"), (LU, TU, "OB2", "FRM", "PAX"), (LU, TU, "OBS", "FR2", "PAX"), (LU, TU, "OBS", "FRM", "PA2")):
            m = total_once(M, x, LU, TU, obs, frame, pa)
            if m:
                return m
    finally:
        M.spice = old


def total_once(M, x, LU, TU, obs, frame, pa):
    el, bodies, gm, j2, srp, kep, t, _, _, et0 = x
    S = M.SpicePerturbations(et0, LU, TU, obs_id=obs, frame_qlaw=frame, frame_PA=pa, third_bodies_names=bodies, third_bodies_gms=gm, J2=2e-3,
                             Re_km=6000.0, use_J2=j2, use_SRP=srp, P_SRP_SI=4e-6, Cr_SRP=1.5, Am_SI=0.02)
    sp = M.spice
    VU2 = LU * (LU / TU) ** 2
    mu = sp.bodvrd(obs, "GM", 1)[1][0] / VU2
    oe = list(kep) if el == "keplerian" else [kep[0]] + kep_to_mee(FLT, kep)[1:]
    got = [float(v) for v in S.get_perturbations_RTN(t, np.array(oe), el)]
    rv = kep_to_rv(FLT, kep, mu)
    gms = gm if gm else [sp.bodvrd(b, "GM", 1)[1][0] / VU2 for b in bodies or []]
    cfg = dict(bodies=bodies, frame=frame, PA=pa, obs=obs, J2=j2, SRP=srp, J2val=2e-3, Re_km=6000.0, P=4e-6, Cr=1.5, Am=0.02)
    acc = acc_spec(FLT, sp, cfg, rv, mu, LU, TU, et0 + t * TU, gms)
    ax = rtn_axes(FLT, rv)
    want = [dot(ax[i], acc) for i in range(3)]
    sc = math.sqrt(n2(acc)) if any(acc) else 1.0
    if not allclose(got, want, 1e-6, 1e-8 * sc):
        return f"total perturbation {got}, expected {want} for {x} with LU {LU}, TU {TU}, observer {obs}, frames {frame}, {pa}"
    try:
        S.get_perturbations_RTN(t, np.array(oe), "mee")
        return "unknown element set accepted by get_perturbations_RTN"
    except ValueError:
        pass


def gen_total(rng, k):
    el, bodies, gm, j2, srp = CONFIGS[rng.randrange(len(CONFIGS))]
    x = c05.gen_kep(rng, k)
    x[0] = rng.uniform(1, 4)
    x[1] = rng.uniform(0.01, 0.7)
    x[2] = rng.uniform(0.05, 2.5)
    return [el, bodies, [rng.uniform(0.01, 0.1) for _ in bodies] if gm else None, j2, srp, x, rng.uniform(0, 50), rng.uniform(5000, 9000), rng.uniform(500, 900),
            rng.uniform(0, 1e5)]


def v3(rng, s=1.0):
    return [rng.uniform(-3, 3) * s for _ in range(3)]


def units():
    from . import purity
    R = [Unit("perturbation_J2", u_j2, sampled(lambda r, k: [v3(r), [r.uniform(-3, 3), r.uniform(0, 3), r.uniform(-3, 3)], r.uniform(0.5, 2), 1e-3, r.uniform(0.5, 1.2)], c_j2),
              "_perturbations.perturbation_J2", 60),
         Unit("perturbation_third_body_battin", u_third, sampled(lambda r, k: [v3(r), v3(r, r.choice([1e-3, 1, 10, 50, 400, 1e4, 1e6, 1e8])), r.uniform(0.01, 2)], c_third),
              "_perturbations.perturbation_third_body_battin", 60),
         Unit("perturbation_SRP", u_srp, sampled(lambda r, k: [v3(r), r.uniform(0.5, 30), 10 ** r.uniform(-8, -2)], c_srp), "_perturbations.perturbation_SRP", 60),
         Unit("pxformECI2RTN", u_rtn, sampled(lambda r, k: [v3(r), v3(r)], c_rtn), "_perturbations.pxformECI2RTN", 60)]
    n = 4
    for i in range(n):
        R.append(Unit(f"SpicePerturbations {i + 1}/{n}", u_total(CONFIGS[i::n]), sampled(gen_total, c_total), "_perturbations.SpicePerturbations", 30))
    return R + purity.units("perturbations")
