"""Obligations, verdicts, evidence."""
import contextlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import threading
import time
import traceback
from fractions import Fraction
from . import terms as T
from . import smt, fp, engine
from .terms import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


def thorough():
    return TIER == "thorough"


# ------------------------------------------------------------------ high precision evaluation (diagnosis only)
def evalmp(roots, env, dps=50):
    import mpmath as m
    with m.workdps(dps):
        val = {}
        for n in T.topo(roots):
            a = [val[x.uid] for x in n.args]
            op = n.op
            if op == "c": r = m.mpf(n.data.numerator) / n.data.denominator
            elif op == "pi": r = +m.pi
            elif op == "v": r = m.mpf(env[n.data[0]])
            elif op == "+": r = a[0] + a[1]
            elif op == "*": r = a[0] * a[1]
            elif op == "/": r = a[0] / a[1]
            elif op == "pow": r = a[0] ** n.data
            elif op == "rpow":
                if a[0] < 0: raise ValueError("negative base")
                r = a[0] ** a[1]
            elif op == "sqrt":
                if a[0] < 0: raise ValueError("sqrt of negative")
                r = m.sqrt(a[0])
            elif op == "abs": r = abs(a[0])
            elif op == "sign": r = m.sign(a[0])
            elif op == "sin": r = m.sin(a[0])
            elif op == "cos": r = m.cos(a[0])
            elif op == "atan2": r = m.atan2(a[0], a[1])
            elif op == "acos":
                if abs(a[0]) > 1: raise ValueError("acos")
                r = m.acos(a[0])
            elif op == "asin": r = m.asin(a[0])
            elif op == "exp": r = m.exp(a[0])
            elif op == "log": r = m.log(a[0])
            elif op == "floor": r = m.floor(a[0])
            elif op == "ite": r = a[1] if a[0] else a[2]
            elif op == "lt": r = a[0] < a[1]
            elif op == "le": r = a[0] <= a[1]
            elif op == "eq": r = a[0] == a[1]
            elif op == "not": r = not a[0]
            elif op == "and": r = all(a)
            elif op == "bc": r = n.data
            elif op == "isnan": r = False
            elif op in ("uf", "buf", "bv"):
                import hashlib
                h = int(hashlib.sha256((str(n.data) + "|" + "|".join(m.nstr(x, 20) for x in a)).encode()).hexdigest()[:12], 16)
                r = (h & 1 == 1) if op != "uf" else m.mpf(h) / 2 ** 47 - 1
            else: raise ValueError(op)
            val[n.uid] = r
        return [val[r.uid] for r in roots]


def _atoms(cs):
    out = []
    for c in cs:
        if c.op == "and":
            out += _atoms(c.args)
        elif c.op == "not" and c.args[0].op in ("lt", "le"):
            x, y = c.args[0].args
            out.append((c.args[0].op == "le", y, x, c))
        elif c.op in ("lt", "le"):
            out.append((c.op == "lt", c.args[0], c.args[1], c))
        else:
            out.append((None, None, None, c))
    return out


def satisfy(cons, env, attrs, rng, steps=160):
    """Walk from a sampled point to one that satisfies the path condition (floating point; diagnosis only)."""
    at = _atoms(cons)
    roots = [x for a in at for x in ([a[3]] if a[0] is None else [a[1], a[2]])]
    support = [[n.data[0] for n in T.topo([a[3]]) if n.op == "v"] for a in at]
    names = set(env)

    def measure(e):
        try:
            v = T.evalf(roots, e)
        except (KeyError, TypeError, Unsupported, OverflowError):
            return None
        out, i = [], 0
        for a in at:
            if a[0] is None:
                out.append(0.0 if v[i] is True or v[i] == 1 else 1.0)
                i += 1
                continue
            d = v[i] - v[i + 1]
            i += 2
            if d != d:
                out.append(2.0)
            elif d < 0 or (d == 0 and not a[0]):
                out.append(0.0)
            else:
                out.append(min(d / (abs(v[i - 1]) + abs(v[i - 2]) + 1e-300), 1.0) + 1e-9)
        return out

    cur = measure(env)
    if cur is None:
        return None
    env = dict(env)
    for _ in range(steps):
        bad = [k for k, x in enumerate(cur) if x > 0]
        if not bad:
            return env
        k = rng.choice(bad)
        vs = [v for v in support[k] if v in names]
        if not vs:
            return None
        v = rng.choice(vs)
        x = env[v]
        a = at[k]
        ks = [float(n.data) for n in T.topo([a[3]]) if n.op == "c"]
        r = rng.random()
        if r < .3 and ks:
            c = rng.choice(ks)
            y = c * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 0))
        elif r < .55:
            y = x * 10 ** rng.uniform(-6, 3)
        elif r < .65:
            y = -x
        elif r < .75:
            y = x + rng.uniform(-3, 3)
        elif a[0] is not None and ks:
            # secant step towards the boundary, then past it
            h = 1e-6 * (abs(x) + 1e-6)
            try:
                e1 = dict(env)
                e1[v] = x + h
                f0, f1 = (lambda w: w[0] - w[1])(T.evalf([a[1], a[2]], env)), (lambda w: w[0] - w[1])(T.evalf([a[1], a[2]], e1))
                y = x - f0 * h / (f1 - f0) * (1 + 10 ** rng.uniform(-4, .5))
            except (ZeroDivisionError, OverflowError, TypeError):
                continue
        else:
            y = x * rng.uniform(0, 1)
        at_ = attrs.get(v, {})
        if not (y == y and abs(y) < 1e12) or (at_.get("unit") and not 0 < y < 1) or (at_.get("pos") and y <= 0) or (at_.get("nonneg") and y < 0):
            continue
        e1 = dict(env)
        e1[v] = y
        m1 = measure(e1)
        if m1 is None:
            continue
        n0, n1 = sum(z > 0 for z in cur), sum(z > 0 for z in m1)
        if n1 < n0 or (n1 == n0 and (sum(m1) <= sum(cur) or rng.random() < .1)):
            env, cur = e1, m1
    return env if not any(cur) else None


class Budget(BaseException):
    """Raised in a worker whose symbolic execution takes too long; the sampled evaluation of the contract stands in."""


@contextlib.contextmanager
def budget(seconds):
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def fire(*a):
        raise Budget(seconds)
    old = signal.signal(signal.SIGALRM, fire)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Obl:
    __slots__ = ("name", "func", "kind", "status", "backend", "time", "detail", "model")

    def __init__(s, name, func, kind, status, backend, t, detail="", model=None):
        s.name, s.func, s.kind, s.status, s.backend, s.time, s.detail, s.model = name, func, kind, status, backend, t, detail, model

    def as_dict(s):
        return {k: getattr(s, k) for k in s.__slots__}


class Unit:
    """One function (or one configuration) under contract.

    symbolic(u): called with the unit's recorder; adds obligations.
    concrete(u, rng, n, hints): evaluates the same contract on the real code; returns (evaluated, failure or None).
    """
    def __init__(self, name, symbolic=None, concrete=None, func="", samples=40, alarm=False, weight=1, samples_bad=None):
        self.name, self._symbolic, self._concrete, self.func = name, symbolic, concrete, func
        self.samples, self.samples_bad = samples, samples_bad
        self.alarm = alarm
        self.weight = weight
        self.obls = []
        self.unsupported = []
        self.hints = []          # further real points at which a refuted identity differs
        self.assumptions = set()
        self.functions = set([func] if func else [])
        self.paths = 0
        self.cover = 0

    # -------- obligations
    def _add(self, *a, **k):
        self.obls.append(Obl(*a, **k))

    def identity(self, name, pairs, cons=(), n=None, domain=None, func=None):
        """pairs of terms equal for all inputs satisfying cons."""
        t0 = time.time()
        pairs = [(T.lift(a), T.lift(b)) for a, b in pairs]
        pairs = [(a, b) for a, b in pairs if a is not b]
        func = func or self.func
        if not pairs:
            self._add(name, func, "identity", "proved", "constant folding", 0.0)
            return True
        if any(x.op == "nan" for p in pairs for x in p):
            self._add(name, func, "identity", "refuted", "constant folding", 0.0, "result is undefined (nan)")
            return False
        n = n or (64 if thorough() else 16)
        chains = (0, 1, 2) if thorough() else (0,)
        st, info = True, None
        for ch in chains:
            st, info = fp.decide(pairs, cons, n=n, seed=SEED, chain=ch)
            if st is not True:
                break
        dt = time.time() - t0
        if st is True:
            self._add(name, func, "identity", "proved", "prime-field identity decision", dt)
            return True
        detail, status = str(info), "unknown"
        if st is False:
            status = "refuted"
            l, r = pairs[info]
            detail = f"pair {info}: {T.show(l, 3)} =/= {T.show(r, 3)}"[:400]
            status2, witness = self._numeric(pairs, cons, domain)
            if status2 == "agree":
                status, detail = "unknown", detail + " (agrees numerically to 30 digits at random real points)"
            elif status2 == "differ":
                self._add(name, func, "identity", "refuted", "prime-field identity decision", dt, detail, witness)
                return False
        self._add(name, func, "identity", status, "prime-field identity decision", dt, detail)
        return False

    def _numeric(self, pairs, cons, domain, tries=400, want=12):
        """High-precision evaluation of a refuted identity at real points (diagnosis)."""
        roots = [x for p in pairs for x in p] + list(cons)
        names = sorted({n.data[0] for n in T.topo(roots) if n.op == "v"})
        attrs = {n.data[0]: dict(n.data[1]) for n in T.topo(roots) if n.op == "v"}
        rng = random.Random(SEED)
        atoms, conds = [], []
        for n in T.topo(roots):
            if n.op == "ite":
                for c in T.topo([n.args[0]]):
                    if c.op in ("lt", "le", "eq") and c not in atoms:
                        atoms.append(c)
        for c in atoms[:12]:
            for g in (c, T.bnot(c)):
                # a point on each side of every condition the code branches on
                try:
                    r, m = smt.check(list(cons) + [g], 500)
                except Unsupported:
                    continue
                if r == "sat" and m is not None:
                    env = {}
                    for n in T.topo([g] + list(cons)):
                        if n.op == "v":
                            v = smt.model_value(m, n)
                            if v is not None:
                                env[n.data[0]] = float(v)
                    conds.append(env)
        ok = 0
        best = []
        for t in range(tries):
            env = domain(rng) if domain else {}
            for v in names:
                if v not in env:
                    x = rng.uniform(-2, 2)
                    env[v] = rng.random() if attrs[v].get("unit") else abs(x) if attrs[v].get("pos") or attrs[v].get("nonneg") else x
            if conds and t % 3 == 1:
                c = conds[(t // 3) % len(conds)]
                for v, x in c.items():
                    if v in env:
                        env[v] = x * (1 + (rng.uniform(-.1, .1) if t >= 3 * len(conds) else 0))
            elif t % 3 == 2 and atoms:
                z = 10 ** rng.uniform(-12, 3)
                for v in names:
                    if not attrs[v].get("unit") and (t % 2 or rng.random() < .3):
                        env[v] *= z
            if cons:
                env = satisfy(cons, env, attrs, rng)
                if env is None:
                    if t >= 60 and not ok:
                        break
                    continue
            try:
                vals = evalmp(roots, env)
            except (ValueError, ZeroDivisionError, TypeError):
                continue
            if not all(vals[2 * len(pairs):]):
                continue
            far = 0
            for k in range(len(pairs)):
                a, b = vals[2 * k], vals[2 * k + 1]
                far = max(far, float(abs(a - b) / (1 + abs(a) + abs(b))))
            if far > 1e-25:
                best.append((far, {k: float(v) for k, v in env.items() if k in names}))
                if len(best) >= 24:
                    break
            ok += 1
            if ok >= (want if not atoms else 8 * want) and not best:
                return "agree", None
        if best:
            best.sort(key=lambda x: -x[0])
            if best[0][0] < 1e-12:
                return "agree", None        # differs below the resolution of the arithmetic the code runs in
            self.hints += [b[1] for b in best[1:8]]
            return "differ", best[0][1]
        if ok >= want:
            return "agree", None
        return "none", None

    def prove(self, name, pc, goal, func=None, timeout_ms=None, kind="smt", vars_=None, cvc5=True):
        t0 = time.time()
        goal = T._b(goal)
        to = timeout_ms or (20000 if thorough() else 4000)
        st, be, m = smt.prove(list(pc), goal, to, use_cvc5=cvc5)
        model = None
        if st == "refuted" and m is not None:
            model = {}
            for n in T.topo([goal] + list(pc)):
                if n.op == "v":
                    v = smt.model_value(m, n)
                    model[n.data[0]] = float(v) if v is not None else None
            # the model interprets transcendental functions freely: check it with their true meaning
            if any(n.op in ("sin", "cos", "atan2", "acos", "asin", "exp", "rpow", "sqrt", "/", "log") for n in T.topo([goal] + list(pc))):
                try:
                    gv = T.evalf([goal] + list(pc), {k: v for k, v in model.items()})
                    if not (not gv[0] and all(gv[1:])):
                        st = "unknown"
                except Exception:
                    st = "unknown"
        self._add(name, func or self.func, kind, st, be, time.time() - t0,
                  "" if st == "proved" else T.show(goal, 4)[:300], model)
        return st == "proved"

    def holds(self, name, ok, detail="", kind="structural", func=None, pc=None):
        if not ok and pc and len(self.hints) < 8:
            # a real point on the path, for the replay
            rng = random.Random(SEED + len(self.hints))
            vs = {n.data[0]: dict(n.data[1]) for n in T.topo(list(pc)) if n.op == "v"}
            for _ in range(20):
                env = satisfy(pc, {v: rng.uniform(0.1, 1) for v in vs}, vs, rng)
                if env:
                    self.hints.append(env)
                    break
        self._add(name, func or self.func, kind, "proved" if ok else "refuted", "evaluation of the contract", 0.0, detail[:600])
        return ok

    def defined(self, name, paths, extra=(), func=None, basis=None, cons=()):
        """Every division, root, inverse cosine of every path is defined."""
        seen = {}
        for p in paths:
            for kind, b, pc in p.defs:
                key = (b.uid, tuple(sorted(c.uid for c in pc)))
                seen.setdefault(key, (kind, b, pc))
        # identical goals under fewer assumptions subsume
        todo = list(seen.values())
        allok = True
        cache = {}
        t0 = time.time()
        count = 0
        for kind, b, pc in todo:
            hit = False
            for pcset in cache.get(b.uid, ()):
                if pcset <= {c.uid for c in pc}:
                    hit = True
                    break
            if hit:
                continue
            full = list(pc) + list(extra)
            st = None
            if basis is not None:
                st, be, m = smt.prove(full, b, 250, use_cvc5=False)
                if st != "proved":
                    ok, be2 = basis(kind, b, full)
                    if ok:
                        st, be = "proved", be2
            if st != "proved":
                st, be, m = smt.prove(full, b, 3000 if not thorough() else 15000, use_cvc5=False)
            model = None
            if st == "refuted" and m is not None:
                model = {n.data[0]: (float(smt.model_value(m, n)) if smt.model_value(m, n) is not None else None)
                         for n in T.topo([b] + full) if n.op == "v"}
                try:
                    gv = T.evalf([b] + full, model)
                    if not (not gv[0] and all(gv[1:])):
                        st = "unknown"
                except Exception:
                    st = "unknown"
            count += 1
            if st == "proved":
                cache.setdefault(b.uid, []).append({c.uid for c in pc})
            else:
                allok = False
            self._add(f"{name}: {kind}", func or self.func, "definedness", st, be, time.time() - t0,
                      "" if st == "proved" else T.show(b, 4)[:300], model)
            t0 = time.time()
        if count == 0:
            self._add(f"{name}: no partial operation", func or self.func, "definedness", "proved", "constant folding", 0.0)
        return allok

    def reachable(self, name, pc):
        """Guard against vacuity: the assumptions are satisfiable."""
        r, m = smt.check(list(pc), 4000)
        self.cover += 1
        if r == "unsat":
            self._add(f"{name}: assumptions satisfiable", self.func, "cover", "refuted", "z3", 0.0, "contradictory precondition")
        else:
            self._add(f"{name}: assumptions satisfiable", self.func, "cover", "proved", "z3", 0.0)

    def explore(self, fn, pre=(), **k):
        ps = engine.explore(fn, pre, **k)
        self.paths += len(ps)
        return ps

    # -------- running
    def run(self, baseline=True):
        t0 = time.time()
        out = {"name": self.name, "unsupported": [], "evaluations": 0, "failure": None, "error": None}
        if self._symbolic is not None:
            try:
                with budget(480 if thorough() else 240):
                    self._symbolic(self)
            except Budget as e:
                out["unsupported"].append(f"symbolic execution exceeded its budget of {e} s")
            except Unsupported as e:
                out["unsupported"].append(str(e))
            except Exception as e:
                # the symbolic harness met code it cannot execute
                out["unsupported"].append(f"{type(e).__name__}: {e} @ {traceback.format_exc()[-700:]}")
        out["t_symbolic"] = time.time() - t0
        bad = [o for o in self.obls if o.status != "proved"]
        hints = [o.model for o in bad if o.model] + self.hints
        if self._concrete is not None and (self.samples or bad or out["unsupported"]):
            n = self.samples * (5 if thorough() else 1)
            if bad or out["unsupported"]:
                n = self.samples_bad if self.samples_bad is not None else max(n * 8, 400) if self.samples > 1 else n * 8
            try:
                rng = random.Random(SEED * 7919 + hash_str(self.name))
                ev, fail = self._concrete(self, rng, n, hints)
                out["evaluations"] = ev
                out["failure"] = fail
            except Exception as e:
                out["error"] = f"{type(e).__name__}: {e} {traceback.format_exc()[-1500:]}"
        out["unsupported"] += self.unsupported
        out["obls"] = [o.as_dict() for o in self.obls]
        out["assumptions"] = sorted(self.assumptions)
        out["functions"] = sorted(f for f in self.functions if f)
        out["paths"] = self.paths
        out["alarm"] = self.alarm
        out["wall"] = time.time() - t0
        out["smt"] = {"z3_calls": smt.Stats.z3_calls, "z3_s": round(smt.Stats.z3_time, 3), "cvc5_calls": smt.Stats.cvc5_calls,
                      "cvc5_s": round(smt.Stats.cvc5_time, 3), "field_points": fp.Stats.evals}
        return out


def hash_str(s):
    import hashlib
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:4], "big")


def _worker(u, q):
    sys.setrecursionlimit(100000)
    try:
        smt.Stats.z3_calls = 0; smt.Stats.z3_time = 0.0; smt.Stats.cvc5_calls = 0; smt.Stats.cvc5_time = 0.0
        fp.Stats.evals = 0
        r = u.run()
    except BaseException as e:
        r = {"name": u.name, "unsupported": [], "evaluations": 0, "failure": None, "obls": [], "assumptions": [], "functions": [],
             "paths": 0, "alarm": False, "wall": 0, "smt": {}, "error": f"{type(e).__name__}: {e} {traceback.format_exc()[-1500:]}"}
    try:
        s = json.dumps(r, default=str)
    except Exception as e:
        s = json.dumps({"name": u.name, "error": f"unserialisable result {e}", "obls": [], "unsupported": [], "evaluations": 0,
                        "failure": None, "assumptions": [], "functions": [], "paths": 0, "alarm": False, "wall": 0, "smt": {}})
    q.put((u.name, s))


def run_units(units, jobs=None, limit_s=780):
    jobs = jobs or min(8, os.cpu_count() or 4)
    mpc = mp.get_context("fork")
    q = mpc.Queue()
    pend = sorted(units, key=lambda u: -u.weight)
    running = {}
    results = {}
    t0 = time.time()
    stop = first = None
    while pend or running:
        if stop is None and not os.environ.get("PYVC_ALL") and any(r.get("failure") for r in results.values()):
            first = first or time.time()
            if time.time() > first + 90 or any(o["status"] == "refuted" for r in results.values() for o in r["obls"]):
                stop = time.time() + 3    # settled: a failing input is known, and a refuted obligation or 90 s more of trying
        if stop is not None and time.time() > stop:
            for p, _, u in running.values():
                p.terminate()
                results[u.name] = _dead(u, "not completed: a failing input was already found")
            for u in pend:
                results[u.name] = _dead(u, "not started: a failing input was already found")
            break
        while pend and len(running) < jobs:
            u = pend.pop(0)
            p = mpc.Process(target=_worker, args=(u, q), daemon=True)
            p.start()
            running[u.name] = (p, time.time(), u)
        try:
            name, s = q.get(timeout=0.5)
            results[name] = json.loads(s)
            p = running.pop(name)[0]
            p.join()
        except Exception:
            pass
        for name in list(running):
            p, ts, u = running[name]
            if not p.is_alive() and q.empty():
                time.sleep(0.2)
                if q.empty() and name in running:
                    running.pop(name)
                    results[name] = _dead(u, "worker ended")
            elif time.time() - t0 > limit_s:
                p.terminate()
                running.pop(name)
                results[name] = _dead(u, "time limit")
        if time.time() - t0 > limit_s and pend:
            for u in pend:
                results[u.name] = _dead(u, "time limit")
            pend = []
    return [results[u.name] for u in units if u.name in results]


def _dead(u, why):
    return {"name": u.name, "unsupported": [why], "evaluations": 0, "failure": None, "obls": [], "assumptions": [], "functions": [],
            "paths": 0, "alarm": False, "wall": 0, "smt": {}, "error": None}


TRUSTED = [
    "real arithmetic stands for IEEE double arithmetic (rounding, overflow and underflow are not modelled)",
    "the numpy/math/builtins stand-ins of /verif/pyvc/npshim.py and loader.py have the semantics of the functions they replace",
    "numba.njit preserves Python semantics; sympy.lambdify's generated code is what runs (its own code object is executed)",
    "z3 5.x and cvc5 1.x; the prime-field identity decision of /verif/pyvc/fp.py (error below 2^-100 per point)",
    "the path explorer and loop cutter of /verif/pyvc",
]


def finish(pid, results, t0, cmd, extra_assumptions=(), replays=None):
    """Verdict, output lines, evidence.  Returns the exit code."""
    obls = [o for r in results for o in r["obls"]]
    total = len(obls)
    proved = sum(o["status"] == "proved" for o in obls)
    bad = [dict(o, unit=r["name"]) for r in results for o in r["obls"] if o["status"] != "proved"]
    errors = [(r["name"], r["error"]) for r in results if r.get("error")]
    unsup = [(r["name"], x) for r in results for x in r["unsupported"]]
    failures = [(r["name"], r["failure"]) for r in results if r["failure"]]
    rc = 0
    lines = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    viol = 0
    for i, (u, f) in enumerate(failures):
        path = os.path.join(rdir, f"{pid}-{i}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "unit": u, "failing": f,
                       "failed_obligations": ([o for o in bad if o["unit"] == u] + [o for o in bad if o["unit"] != u])[:30]},
                      fh, indent=1, default=str)
        lines.append(f"VIOLATION property={pid} replay={path}")
        viol += 1
    if not failures:
        # refuted obligations that no concrete input reproduces
        nfi = [o for r in results for o in r["obls"] if o["status"] == "refuted"
               and (r["alarm"] or o["kind"] == "first step" or (o["kind"] in ("identity", "smt") and o["model"]))]
        nfi = [dict(o) for o in nfi]
        if nfi:
            path = os.path.join(rdir, f"{pid}-obligations.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "failed_obligations": nfi[:60]}, fh, indent=1, default=str)
            lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            viol += 1
    if viol:
        rc = 1
    elif errors and not proved:
        rc = 3          # nothing was decided; otherwise the discharged obligations stand and the evidence lists what was not evaluated
    elif total == 0 and not unsup:
        rc = 3
        errors.append(("all", "no obligation was generated"))
    by = {}
    for o in obls:
        if o["status"] == "proved":
            by[o["backend"]] = by.get(o["backend"], 0) + 1
    smts = {}
    for r in results:
        for k, v in r["smt"].items():
            smts[k] = round(smts.get(k, 0) + v, 3)
    funcs = sorted({o["func"] for o in obls if o["func"]} | {f for r in results for f in r["functions"]})
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": total, "discharged": proved, "checker_cmd": cmd, "trusted_base": TRUSTED,
            "functions_under_contract": funcs,
            "discharged_by_backend": by, "solver": smts,
            "paths_executed_symbolically": sum(r["paths"] for r in results),
            "undischarged": [{k: o[k] for k in ("unit", "name", "status", "detail")} for o in bad][:40],
            "bounded_standins": [f"{u}: {x[:300]}" for u, x in unsup] + [f"{o['unit']}: {o['name']} not discharged; contract evaluated on sampled inputs only" for o in bad][:40],
            "not_evaluated": [f"{u}: {e[:300]}" for u, e in errors],
            "sampled_contract_evaluations_on_compiled_code": sum(r["evaluations"] for r in results),
            "units": {r["name"]: {"obligations": len(r["obls"]), "discharged": sum(o["status"] == "proved" for o in r["obls"]),
                                  "paths": r["paths"], "sampled": r["evaluations"], "wall_s": round(r["wall"], 2)} for r in results},
            "samples": [o["name"] for o in obls[:: max(1, total // 12)]][:12],
        },
        "assumptions": sorted(set(extra_assumptions) | {a for r in results for a in r["assumptions"]}),
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{pid}: {proved}/{total} obligations discharged, {sum(r['evaluations'] for r in results)} sampled evaluations, "
          f"{len(unsup)} units outside the verifier's subset, {ev['wall_s']} s")
    for o in bad[:12]:
        print(f"  undischarged [{o['status']}] {o['unit']}: {o['name']}: {o['detail']}"[:400])
    for u, x in unsup[:6]:
        print(f"  bounded only: {u}: {x}"[:600])
    for u, f in failures[:4]:
        print(f"  failing input in {u}: {str(f)[:500]}")
    for u, e in errors[:4]:
        print(f"  ERROR {u}: {e}"[:2000])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc
