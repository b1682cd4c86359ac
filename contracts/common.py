import dis
import importlib
import inspect
import math
import random
import os
import sys
import numpy as np
from pyvc import terms as T, engine, fp, smt
from pyvc.core import Unit
from pyvc.loader import Package, REPO
from pyvc.npshim import np_shim, obj
from pyvc.terms import var, lift, ZERO, ONE, TWO, PI, lt, le, eq, band, bor, bnot, implies, Unsupported
from .spec import SYM, FLT

_pkg = None


def pkg():
    global _pkg
    if _pkg is None:
        _pkg = Package()
    return _pkg


def symmod(name):
    return pkg().load(name)


def realmod(name):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ.setdefault("MPLBACKEND", "Agg")
    m = importlib.import_module("pyqlaw." + name) if name else importlib.import_module("pyqlaw")
    if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"pyqlaw came from {m.__file__}")
    return m


def _depth(x):
    return 1 + max([_depth(v) for v in x], default=0) if isinstance(x, (list, tuple)) else 0


def from_package(e):
    """The exception was raised while code of the package was running (not by the harness calling it)."""
    if type(e).__module__.split(".")[0] == "numba":
        return True
    root = os.path.realpath(REPO) + os.sep
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith("<lambdifygenerated") or os.path.realpath(fn).startswith(root):
            return True
        last, tb = tb, tb.tb_next
    # compiled code leaves no frame: the innermost one calls a numba dispatcher
    code = last.tb_frame.f_code
    op = next((i for i in dis.get_instructions(code) if i.offset == last.tb_lasti), None)
    if op is not None and op.opname.startswith("CALL"):
        for i in dis.get_instructions(code):
            if i.positions.lineno == op.positions.lineno and isinstance(i.argval, str) and (i.argval in last.tb_frame.f_locals or i.argval in last.tb_frame.f_globals):
                v = last.tb_frame.f_locals.get(i.argval, last.tb_frame.f_globals.get(i.argval))
                if type(v).__module__.startswith("numba") and hasattr(v, "py_func") and os.path.realpath(inspect.getfile(v.py_func)).startswith(root):
                    return True
    return False


def sampled(gen, check, hint=None):
    """A concrete evaluator of a contract: gen(rng, k) -> inputs (json-able), check(inputs) -> None or message."""
    def run(u, rng, n, hints):
        cnt = 0
        if hint is not None and hints:
            d0 = None
            for k in range(8):
                x0 = gen(random.Random(k), k)
                if x0 is not None:
                    d0 = _depth(x0)
                    break
            for h in hints:
                try:
                    ins = hint(h)
                except Exception:
                    ins = None
                for x in (ins if isinstance(ins, list) and d0 is not None and _depth(ins) > d0 else [ins]):
                    if x is None:
                        continue
                    try:
                        m = check(x)
                    except Exception:
                        continue        # the solver's model lies outside what the evaluator accepts
                    cnt += 1
                    if m:
                        return cnt, {"input": x, "observed": m, "source": "solver model"}
        for k in range(n):
            x = gen(rng, k)
            if x is None:
                continue
            cnt += 1
            try:
                m = check(x)
            except Exception as e:
                if not from_package(e):
                    raise
                m = f"raised {type(e).__name__}: {e}"[:600]
            if m:
                return cnt, {"input": x, "observed": m, "source": f"sample {k}"}
        return cnt, None
    run.check = check
    return run


def seq(xs):
    return obj(list(xs))


def nodes(a):
    """Result of the code as list of terms."""
    if isinstance(a, np.ndarray):
        return [lift(x) for x in a.ravel()]
    return [lift(x) for x in a]


def cis_eq(a, b):
    a, b = lift(a), lift(b)
    return [(T.cos(a), T.cos(b)), (T.sin(a), T.sin(b))]


def single(u, name, paths):
    """The contract expects normal termination on every path."""
    for p in paths:
        if p.exc is not None:
            u.holds(f"{name}: no exception", False, f"{type(p.exc).__name__}: {p.exc}")
    return [p for p in paths if p.exc is None]


def path_subst(pc, roots):
    """Use equalities var == term of the path condition as a substitution."""
    m = {}
    for c in pc:
        if c.op == "eq":
            for a, b in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if a.op == "v" and a.uid not in m and all(x.uid != a.uid for x in T.topo([b])):
                    m[a.uid] = b
                    break
    if not m:
        return list(roots)
    return T.substitute(list(roots), m)


def ident_paths(u, name, paths, mk, cons=(), domain=None, basis=()):
    """On every path, mk(result) gives pairs that must be identical.

    A path that assumes "term == constant" is discharged by showing that its result is the result of an already
    discharged path with the term replaced by the constant; a path whose condition contradicts proved positivity is vacuous.
    """
    ok = True
    ps = single(u, name, paths)
    done = []
    order = sorted(range(len(ps)), key=lambda k: sum(_eqatom(c) is not None for c in ps[k].pc))
    for k in order:
        p = ps[k]
        label = f"{name}" + (f" [path {k}]" if len(ps) > 1 else "")
        pairs = [(lift(a), lift(b)) for a, b in mk(p.result)]
        flat = path_subst(p.pc, [x for pr in pairs for x in pr] + list(cons) + list(p.pc))
        n = len(pairs) * 2
        pr = [(flat[2 * i], flat[2 * i + 1]) for i in range(len(pairs))]
        cs = [c for c in flat[n:] if c is not T.TRUE]
        if any(c is T.FALSE for c in cs):
            continue
        eqs = [_eqatom(c) for c in p.pc]
        eqs = [e for e in eqs if e is not None and e[0].op != "v"]
        if basis and _contradiction(p.pc, basis, cons, domain):
            u._add(label + ": path excluded", u.func, "identity", "proved", "positivity of monomials (prime-field identity decision)", 0.0)
            continue
        if eqs and done:
            sub = {a.uid: b for a, b in eqs}
            hit = False
            for q in done:
                roots = [x for l, _ in pairs for x in [l]] + [x for l, _ in q for x in [l]]
                r = T.substitute(roots, sub)
                st, _ = fp.decide(list(zip(r[:len(pairs)], r[len(pairs):])), list(cons), n=16)
                if st is True:
                    hit = True
                    break
            if hit:
                u._add(label + ": special case of another path", u.func, "identity", "proved", "prime-field identity decision", 0.0)
                continue
        good = u.identity(label, pr, cs, domain=domain)
        if good:
            done.append(pairs)
        ok &= good
    return ok


def _eqatom(c):
    if c.op == "eq":
        a, b = c.args
        if b.op == "c":
            return a, b
        if a.op == "c":
            return b, a
    return None


def _contradiction(pc, basis, cons, domain):
    """Some atom of the path condition denies that a positive monomial is positive (or states a false constant fact)."""
    for c in pc:
        neg = c.op == "not"
        a = c.args[0] if neg else c
        if a.op not in ("lt", "le"):
            continue
        d = a.args[1] - a.args[0]           # claimed > 0, >= 0 (or the negation)
        if neg:
            d = -d
        strict = (a.op == "lt") != neg
        if not any(n.op == "v" for n in T.topo([d])):
            continue
        if strict:
            ok, _ = monomial_prover(basis, domain or (lambda r: {}), cons)("positive", lt(ZERO, -d), [])
            if ok:
                return True
        k = _constant(d, domain, cons)
        if k is not None and (k < 0 or (k == 0 and strict)):
            return True
    return False


def _constant(d, domain, cons):
    """d is identically a rational constant (guessed numerically, certified by the identity decision)."""
    import random as _r
    rng = _r.Random(5)
    vals = []
    for _ in range(40):
        env = domain(rng) if domain else {}
        for n in T.topo([d]):
            if n.op == "v":
                env.setdefault(n.data[0], rng.uniform(0.1, 1))
        try:
            vals.append(T.evalf([d], env)[0])
        except Exception:
            continue
        if len(vals) == 4:
            break
    if len(vals) < 4 or max(vals) - min(vals) > 1e-7:
        return None
    from fractions import Fraction
    for k in (T.const(Fraction(vals[0]).limit_denominator(1000)), d_consts(d, vals[0])):
        if k is not None and fp.decide([(d, k)], list(cons), n=12)[0] is True:
            return k.data
    return None


def d_consts(d, v):
    """A constant occurring in d (up to sign) is the likely value when everything else cancels."""
    if d.op == "+":
        for x in d.args:
            if x.op == "c" and abs(float(x.data) - v) < 1e-6:
                return x
    return None


def independent(A):
    """Columns of A (the constant one first) that are not combinations of earlier ones."""
    n = A.shape[1]
    keep, Q = [], np.zeros((A.shape[0], 0))
    for j in [n - 1] + list(range(n - 1)):
        v = A[:, j] / (np.linalg.norm(A[:, j]) or 1)
        for _ in range(2):
            v = v - Q @ (Q.T @ v)
        nv = np.linalg.norm(v)
        if nv > 1e-7:
            keep.append(j)
            Q = np.hstack([Q, (v / nv)[:, None]])
    return sorted(keep)


def monomial_prover(basis, domain, cons=(), seed=1):
    """Definedness by factoring: the partial operand is a constant times a monomial in positive basis terms.

    The exponents are guessed from floating-point values and certified by the prime-field identity decision.
    """
    from fractions import Fraction
    import random as _r
    basis = [lift(b) for b in basis]

    def operand(b):
        # not(0 == x), 0 < x, 0 <= x
        if b.op == "not" and b.args[0].op == "eq":
            x, y = b.args[0].args
            if x is ZERO:
                return y, "nonzero"
            if y is ZERO:
                return x, "nonzero"
        if b.op in ("lt", "le") and b.args[0] is ZERO:
            return b.args[1], "positive"
        return None, None

    def run(kind, b, pc):
        x, want = operand(b)
        if x is None:
            return False, ""
        rng = _r.Random(seed)
        rows, ys = [], []
        names = [n for n in T.topo([x] + basis) if n.op == "v"]
        tries = 0
        while len(rows) < 3 * len(basis) + 12 and tries < 400:
            tries += 1
            env = domain(rng)
            for n in names:
                env.setdefault(n.data[0], rng.uniform(0.1, 2))
            try:
                v = T.evalf([x] + basis, env)
            except Exception:
                continue
            if not all(isinstance(t, (int, float)) and t == t and t != 0 for t in v) or any(t <= 0 for t in v[1:]):
                continue
            rows.append([math.log(t) for t in v[1:]] + [1.0])
            ys.append((math.log(abs(v[0])), v[0] > 0))
        if len(rows) < len(basis) + 4:
            return False, ""
        keep = independent(np.array(rows))
        full = len(rows[0])
        rows = [[r[i] for i in keep] for r in rows]
        part, res, rk, _ = np.linalg.lstsq(np.array(rows), np.array([y[0] for y in ys]), rcond=None)
        sol = np.zeros(full)
        sol[keep] = part
        ex = [Fraction(round(c * 4), 4) for c in sol[:-1]]
        if abs(sol[-1]) > 50:
            return False, ""
        c = Fraction(math.exp(sol[-1])).limit_denominator(1000)
        if any(abs(float(e) - s) > 1e-5 for e, s in zip(ex, sol[:-1])) or abs(float(c) / math.exp(sol[-1]) - 1) > 1e-5 or c == 0:
            return False, ""
        num, den = lift(c), ONE
        for e, t in zip(ex, basis):
            if e == 0:
                continue
            f = t ** int(abs(e)) if e.denominator == 1 else (T.sqrt(t) ** int(abs(e) * 2) if e.denominator == 2 else T.sqrt(T.sqrt(t)) ** int(abs(e) * 4))
            if e > 0:
                num = num * f
            else:
                den = den * f
        if want == "positive":
            if not all(y[1] for y in ys):
                return False, ""
            pairs = [(x * den, num)]
        else:
            pairs = [(x * x * den * den, num * num)]
        hooks = T.HOOKS["defined"]
        st, _ = fp.decide(pairs, [lt(ZERO, t) for t, e in zip(basis, ex) if e != 0] + list(cons), n=12, seed=seed)
        return st is True, "monomial in positive terms (prime-field identity decision)"
    return run


# ---------------------------------------------------------------- the generated control laws
_laws = {}
ARGN = ("rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp")


def law(kind, cse=True):
    """(control, psi, dqdoe, dqdt) of one element set: the code generated by the real _symbolic module, executed on terms."""
    key = (kind, cse)
    if key not in _laws:
        mod = symmod("_symbolic")
        gen = {"keplerian": "symbolic_qlaw_keplerian", "mee_with_a": "symbolic_qlaw_mee_with_a"}[kind]
        fns = getattr(mod, gen)(cse=cse)
        _laws[key] = tuple(pkg().lambdified(f) for f in fns)
    return _laws[key]


def lawvars(kind):
    """Symbolic arguments of the law: dict of names to terms, plus the argument tuple builder."""
    v = {"mu": var("mu", pos=True), "f": var("acc"), "rpmin": var("rpmin", pos=True), "m_petro": var("m_petro", pos=True),
         "n_petro": var("n_petro", pos=True), "r_petro": var("r_petro", pos=True), "b_petro": var("b_petro", nonneg=True),
         "k_petro": var("k_petro"), "wp": var("wp", nonneg=True)}
    if kind == "keplerian":
        v["oe"] = [var("a", pos=True), var("e", unit=True), var("i"), var("raan"), var("aop"), var("ta")]
        v["oeT"] = [var("aT", pos=True), var("eT"), var("iT"), var("raanT"), var("aopT")]
    else:
        v["oe"] = [var("a", pos=True), var("f"), var("g"), var("h"), var("k"), var("L")]
        v["oeT"] = [var("aT", pos=True), var("fT"), var("gT"), var("hT"), var("kT")]
    v["woe"] = [var(f"w{j}", nonneg=True) for j in range(5)]
    return v


def lawargs(v, arr=seq):
    return [v["mu"], v["f"], arr(v["oe"]), arr(v["oeT"])] + [v[n] for n in ARGN] + [arr(v["woe"])]


def lawdom(kind, v):
    """Elliptic, non-singular orbit (the law's documented domain), with derived facts used as hints."""
    a, mu = v["oe"][0], v["mu"]
    base = [lt(ZERO, a), lt(ZERO, mu), lt(ZERO, v["rpmin"]), lt(ZERO, v["oeT"][0]), lt(ZERO, v["m_petro"]), lt(ZERO, v["r_petro"])]
    if kind == "keplerian":
        e, i, ta = v["oe"][1], v["oe"][2], v["oe"][5]
        return base + [lt(ZERO, e), lt(ZERO, 1 - e), lt(ZERO, 1 + e), lt(ZERO, T.sin(i)), lt(ZERO, 1 + e * T.cos(ta)), lt(ZERO, 1 - e * e)]
    f, g, L = v["oe"][1], v["oe"][2], v["oe"][5]
    e2 = f * f + g * g
    e = T.sqrt(e2)
    return base + [lt(ZERO, e2), lt(ZERO, e), lt(ZERO, 1 - e), lt(ZERO, 1 + e), lt(ZERO, 1 - e2), lt(ZERO, 1 + f * T.cos(L) + g * T.sin(L))]


def lawenv(kind):
    def env(r):
        d = {"a": r.uniform(0.5, 3), "mu": r.uniform(0.5, 2), "acc": r.uniform(0.001, 0.1), "rpmin": r.uniform(0.1, 0.9), "m_petro": r.uniform(1, 4),
             "n_petro": r.choice([2.0, 4.0, 3.0]), "r_petro": r.choice([1.0, 2.0, 3.0]), "b_petro": r.uniform(0, 0.5), "k_petro": r.uniform(0.2, 3),
             "wp": r.uniform(0, 2), "aT": r.uniform(0.5, 3)}
        for j in range(5):
            d[f"w{j}"] = r.uniform(0.1, 2)
        if kind == "keplerian":
            d.update(e=r.uniform(0.05, 0.9), i=r.uniform(0.1, 3.0), raan=r.uniform(-3, 3), aop=r.uniform(-3, 3), ta=r.uniform(-3, 3),
                     eT=r.uniform(0, 0.9), iT=r.uniform(0, 3), raanT=r.uniform(-3, 3), aopT=r.uniform(-3, 3))
        else:
            d.update(f=r.uniform(-.6, .6), g=r.uniform(-.6, .6), h=r.uniform(-1, 1), k=r.uniform(-1, 1), L=r.uniform(-6, 6),
                     fT=r.uniform(-.6, .6), gT=r.uniform(-.6, .6), hT=r.uniform(-1, 1), kT=r.uniform(-1, 1))
        return d
    return env


_real = {}


def reallaw(kind, cse=True):
    if (kind, cse) not in _real:
        m = realmod("_symbolic")
        _real[(kind, cse)] = getattr(m, {"keplerian": "symbolic_qlaw_keplerian", "mee_with_a": "symbolic_qlaw_mee_with_a"}[kind])(cse=cse)
    return _real[(kind, cse)]


def genlaw(kind, kinks=False):
    """Concrete law arguments (json-able); kinks: also points where the worst-case rates are not differentiable."""
    env = lawenv(kind)
    names = ("a", "e", "i", "raan", "aop", "ta") if kind == "keplerian" else ("a", "f", "g", "h", "k", "L")
    tn = ("aT", "eT", "iT", "raanT", "aopT") if kind == "keplerian" else ("aT", "fT", "gT", "hT", "kT")

    def g(rng, k=0):
        d = env(rng)
        if kind == "mee_with_a" and rng.random() < 0.3:
            d["L"] = rng.choice([0.0, math.pi / 2, math.pi, -math.pi / 2]) + rng.uniform(-.01, .01)
        if rng.random() < 0.3:
            # points on a coordinate axis (the eccentricity stays away from zero)
            n = rng.choice(("raan", "ta") + ("aop",) * kinks if kind == "keplerian" else ("h", "k", "L") + ("f", "g") * kinks)
            if n in ("f", "g") and abs(d["f" if n == "g" else "g"]) < 0.05:
                d["f" if n == "g" else "g"] = 0.2
            d[n] = 0.0
        return {"mu": d["mu"], "f": d["acc"] * rng.choice([1, 1, -1]), "oe": [d[n] for n in names], "oeT": [d[n] for n in tn],
                "woe": [d[f"w{j}"] * rng.choice([1, 1, 1, 0]) for j in range(5)], **{n: d[n] for n in ARGN}}
    return g


def hintlaw(kind):
    names = ("a", "e", "i", "raan", "aop", "ta") if kind == "keplerian" else ("a", "f", "g", "h", "k", "L")
    tn = ("aT", "eT", "iT", "raanT", "aopT") if kind == "keplerian" else ("aT", "fT", "gT", "hT", "kT")

    def h(m):
        import random
        d = lawenv(kind)(random.Random(2))
        d.update({k: v for k, v in m.items() if v is not None})
        e = d["e"] if kind == "keplerian" else math.hypot(d["f"], d["g"])
        if not (0 < e < 1 and d["a"] > 0 and d["mu"] > 0):
            return None
        return {"mu": d["mu"], "f": d["acc"], "oe": [d[n] for n in names], "oeT": [d[n] for n in tn],
                "woe": [d[f"w{j}"] for j in range(5)], **{n: d[n] for n in ARGN}}
    return h


def fargs(x):
    return [x["mu"], x["f"], np.array(x["oe"]), np.array(x["oeT"])] + [x[n] for n in ARGN] + [np.array(x["woe"])]
