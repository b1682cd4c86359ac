"""z3 / cvc5 back end."""
import time
import subprocess
import tempfile
import os
from fractions import Fraction
import sys
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)
import z3
from . import terms as T
from .terms import Unsupported


class Stats:
    z3_calls = 0
    z3_time = 0.0
    cvc5_calls = 0
    cvc5_time = 0.0
    by = {}


_z = {}        # uid -> z3 expr
_ax = {}       # uid -> list of z3 axioms introduced by that node
_half = {}


def _rv(name):
    return z3.Real(name)


PIV = z3.Real("pi")
PI_AX = [PIV > z3.RealVal("3.14159265358"), PIV < z3.RealVal("3.14159265359")]


OPAQUE = ("uf", "buf", "isnan")


def otopo(roots):
    """Children before parents; applications of uninterpreted functions are leaves."""
    out, seen, stack = [], set(), [(r, False) for r in reversed(list(roots))]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.uid in seen:
            continue
        seen.add(n.uid)
        if n.op in OPAQUE or not n.args:
            out.append(n)
            continue
        stack.append((n, True))
        for a in n.args:
            if a.uid not in seen:
                stack.append((a, False))
    return out


def tr(node):
    if node.uid in _z:
        return _z[node.uid]
    for n in otopo([node]):
        if n.uid not in _z:
            _z[n.uid], _ax[n.uid] = _tr1(n)
    return _z[node.uid]


def _q(f):
    return z3.RealVal(f"{f.numerator}/{f.denominator}" if f.denominator != 1 else str(f.numerator))


def _tr1(n):
    op = n.op
    a = [_z[x.uid] for x in n.args] if op not in OPAQUE else []
    ax = []
    if op == "c":
        return _q(n.data), ax
    if op == "pi":
        return PIV, PI_AX
    if op == "v":
        v = _rv("v_" + n.data[0])
        d = dict(n.data[1])
        if d.get("pos"):
            ax.append(v > 0)
        if d.get("nonneg"):
            ax.append(v >= 0)
        if d.get("unit"):
            ax += [v > 0, v < 1]
        if d.get("integer"):
            k = z3.Int("i_" + n.data[0])
            return z3.ToReal(k), ax
        return v, ax
    if op == "+":
        return a[0] + a[1], ax
    if op == "*":
        return a[0] * a[1], ax
    if op == "/":
        y = _rv(f"q{n.uid}")
        # y*b = a whenever b != 0
        return y, [z3.Implies(a[1] != 0, y * a[1] == a[0])]
    if op == "pow":
        r = a[0]
        for _ in range(n.data - 1):
            r = r * a[0]
        return r, ax
    if op == "sqrt":
        y = _rv(f"s{n.uid}")
        return y, [y >= 0, z3.Implies(a[0] >= 0, y * y == a[0])]
    if op == "abs":
        return z3.If(a[0] >= 0, a[0], -a[0]), ax
    if op == "sign":
        return z3.If(a[0] > 0, z3.RealVal(1), z3.If(a[0] < 0, z3.RealVal(-1), z3.RealVal(0))), ax
    if op in ("sin", "cos"):
        u = n.args[0].uid
        s, c = _rv(f"sin{u}"), _rv(f"cos{u}")
        x = a[0]
        ax = [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
        if len(T.topo([n.args[0]])) <= 6:
            ax += PI_AX
            ax += [z3.Implies(z3.And(x > 0, x < PIV), s > 0), z3.Implies(z3.And(x < 0, x > -PIV), s < 0),
                   z3.Implies(z3.And(x > -PIV / 2, x < PIV / 2), c > 0), z3.Implies(x == 0, z3.And(s == 0, c == 1))]
        arg = n.args[0]
        if arg.op == "atan2":
            yy, xx = _z[arg.args[0].uid], _z[arg.args[1].uid]
            r = _rv(f"hyp{arg.uid}")
            ax += [r >= 0, r * r == xx * xx + yy * yy, z3.Implies(r > 0, z3.And(r * s == yy, r * c == xx))]
        if arg.op == "acos":
            ax += [c == _z[arg.args[0].uid], s >= 0]
        return (s if op == "sin" else c), ax
    if op == "atan2":
        t = _rv(f"at{n.uid}")
        y, x = a
        return t, PI_AX + [t <= PIV, t > -PIV, z3.Implies(y > 0, z3.And(t > 0, t < PIV)), z3.Implies(y < 0, t < 0),
                           z3.Implies(z3.And(y == 0, x >= 0), t == 0), z3.Implies(z3.And(y == 0, x < 0), t == PIV),
                           z3.Implies(x > 0, z3.And(t < PIV / 2, t > -PIV / 2)), z3.Implies(z3.And(x < 0, y > 0), t > PIV / 2),
                           z3.Implies(z3.And(x < 0, y < 0), t < -PIV / 2)]
    if op == "acos":
        t = _rv(f"ac{n.uid}")
        c = a[0]
        ax = PI_AX + [t >= 0, t <= PIV, (c == 1) == (t == 0), (c == -1) == (t == PIV), (c > 0) == (t < PIV / 2)]
        if n.args[0].op == "cos":
            x = _z[n.args[0].args[0].uid]
            k = z3.Int(f"k{n.uid}")
            ax += [z3.Or(t == x - 2 * PIV * z3.ToReal(k), t == -(x - 2 * PIV * z3.ToReal(k)))]
        return t, ax
    if op == "asin":
        t = _rv(f"as{n.uid}")
        return t, PI_AX + [t >= -PIV / 2, t <= PIV / 2, (a[0] > 0) == (t > 0), (a[0] < 0) == (t < 0)]
    if op == "exp":
        y = _rv(f"e{n.uid}")
        return y, [y > 0, (a[0] > 0) == (y > 1), (a[0] < 0) == (y < 1)]
    if op == "log":
        y = _rv(f"l{n.uid}")
        return y, [(a[0] > 1) == (y > 0), (a[0] == 1) == (y == 0)]
    if op == "rpow":
        y = _rv(f"p{n.uid}")
        b, e = a
        ax = [z3.Implies(b > 0, y > 0), z3.Implies(z3.And(b == 0, e > 0), y == 0), z3.Implies(b == 1, y == 1),
              z3.Implies(z3.And(b > 1, e > 0), y > 1)]
        if n.args[1].op == "c":
            f = n.args[1].data
            if f.numerator == 1 and f.denominator in (3,):
                ax.append(z3.Implies(b >= 0, y * y * y == b))
        return y, ax
    if op == "floor":
        k = z3.Int(f"f{n.uid}")
        kr = z3.ToReal(k)
        return kr, [kr <= a[0], a[0] < kr + 1]
    if op == "uf":
        return _rv(f"u_{n.data}_{n.uid}"), ax
    if op == "buf":
        return z3.Bool(f"b_{n.data}_{n.uid}"), ax
    if op == "bv":
        return z3.Bool("bv_" + n.data), ax
    if op == "isnan":
        return z3.Bool(f"nan{n.uid}"), ax
    if op == "ite":
        return z3.If(a[0], a[1], a[2]), ax
    if op == "bc":
        return z3.BoolVal(n.data), ax
    if op == "lt":
        return a[0] < a[1], ax
    if op == "le":
        return a[0] <= a[1], ax
    if op == "eq":
        return a[0] == a[1], ax
    if op == "not":
        return z3.Not(a[0]), ax
    if op == "and":
        return z3.And(*a), ax
    if op in ("nan", "inf", "ninf"):
        # never compared (folded); an opaque real
        return _rv(f"special_{op}"), ax
    raise Unsupported(f"smt: {op}")


def axioms(nodes):
    out, seen = [], set()
    order = otopo(nodes)
    for n in order:
        if n.uid not in _z:
            tr(n)
        for x in _ax[n.uid]:
            i = x.get_id()
            if i not in seen:
                seen.add(i)
                out.append(x)
    # angle halving links
    args = {}
    for n in order:
        if n.op in ("sin", "cos"):
            args[n.args[0].uid] = n.args[0]
    for u, arg in args.items():
        if arg.op == "*" and arg.args[0].op == "c" and arg.args[1].uid in args:
            c = arg.args[0].data
            x = arg.args[1].uid
            if c == Fraction(1, 2):
                s, co, s2, c2 = _rv(f"sin{x}"), _rv(f"cos{x}"), _rv(f"sin{u}"), _rv(f"cos{u}")
                out += [s == 2 * s2 * c2, co == 2 * c2 * c2 - 1]
            if c == 2:
                s, co, s2, c2 = _rv(f"sin{u}"), _rv(f"cos{u}"), _rv(f"sin{x}"), _rv(f"cos{x}")
                out += [s == 2 * s2 * c2, co == 2 * c2 * c2 - 1]
    return out


def _vars(n, memo={}):
    if n.uid in memo:
        return memo[n.uid]
    r = frozenset(x.uid for x in otopo([n]) if (not x.args or x.op in OPAQUE) and x.op not in ("c", "bc", "pi", "inf", "ninf", "nan"))
    memo[n.uid] = r
    return r


def slice_(pc, goal_nodes):
    """Assumptions connected to the goal through shared variables."""
    rel = set()
    for g in goal_nodes:
        rel |= _vars(g)
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        nrest = []
        for c in rest:
            v = _vars(c)
            if not v or v & rel:
                out.append(c)
                if not v <= rel:
                    rel |= v
                    changed = True
            else:
                nrest.append(c)
        rest = nrest
    return out


def check(conj, timeout_ms=2000, want_model=False, tactic=None):
    """sat / unsat / unknown of a conjunction of BNodes."""
    conj = [c for c in conj if c is not T.TRUE]
    if any(c is T.FALSE for c in conj):
        return ("unsat", None)
    t0 = time.time()
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set("timeout", timeout_ms)
    for c in conj:
        s.add(tr(c))
    for a in axioms(conj):
        s.add(a)
    r = s.check()
    Stats.z3_calls += 1
    Stats.z3_time += time.time() - t0
    res = str(r)
    m = None
    if res == "sat" and want_model:
        m = s.model()
    return (res, m)


_feas = {}


def feasible(pc, timeout_ms=400):
    key = tuple(sorted({c.uid for c in pc}))
    if key in _feas:
        return _feas[key]
    r, _ = check(pc, timeout_ms)
    _feas[key] = r
    return r


def cvc5_check(conj, timeout_s=20):
    s = z3.Solver()
    for c in conj:
        s.add(tr(c))
    for a in axioms(conj):
        s.add(a)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        out = subprocess.run(["cvc5", f"--tlimit={int(timeout_s*1000)}", f.name], capture_output=True, text=True,
                             timeout=timeout_s + 5).stdout.strip().split("\n")[0]
    except (subprocess.TimeoutExpired, FileNotFoundError):
        out = "unknown"
    finally:
        os.unlink(f.name)
    Stats.cvc5_calls += 1
    Stats.cvc5_time += time.time() - t0
    return out if out in ("sat", "unsat") else "unknown"


_absvar = {}


def abstract(roots):
    """Generalise: every non-linear subterm becomes an unconstrained variable (sound for validity)."""
    m = {}
    for n in otopo(roots):
        if isinstance(n, T.BNode):
            if n.op == "buf":
                m[n.uid] = _absvar.setdefault(n.uid, T.bvar(f"abs!{n.uid}"))
            continue
        if n.op in ("c", "v", "+", "ite", "abs", "pi", "inf", "ninf", "nan") or (n.op == "*" and n.args[0].op == "c"):
            continue
        if n.uid not in _absvar:
            kw = {"nonneg": True} if n.op == "sqrt" or (n.op == "pow" and n.data % 2 == 0 and n.data > 0) else {"pos": True} if n.op == "exp" else {}
            _absvar[n.uid] = T.var(f"abs!{n.uid}", **kw)
        m[n.uid] = _absvar[n.uid]
    if not m:
        return None
    old = T.HOOKS["defined"], T.HOOKS["branch"]
    T.HOOKS["defined"] = T.HOOKS["branch"] = None
    try:
        return T.substitute(list(roots), m)
    finally:
        T.HOOKS["defined"], T.HOOKS["branch"] = old


def prove(pc, goal, timeout_ms=4000, want_model=True, use_cvc5=True):
    """Returns (status, backend, model).  status: proved | refuted | unknown."""
    if goal is T.TRUE:
        return ("proved", "constant folding", None)
    ng = T.bnot(goal)
    sl = slice_(pc, [ng])
    # a light query first: only the assumptions whose variables all occur in the goal
    ab = abstract(sl + [ng])
    if ab is not None:
        try:
            if check(ab, min(timeout_ms, 1000))[0] == "unsat":
                return ("proved", "z3 (non-linear terms generalised)", None)
        except z3.Z3Exception:
            pass
    gv = _vars(ng)
    light = [c for c in pc if _vars(c) <= gv]
    tried = set()
    for conj, to, tac in ((light + [ng], min(timeout_ms, 1500), None), (sl + [ng], timeout_ms, None),
                          (sl + [ng], timeout_ms, "qfnra-nlsat")):
        key = (tuple(sorted({c.uid for c in conj})), tac)
        if key in tried:
            continue
        tried.add(key)
        try:
            r, m = check(conj, to, want_model, tac)
        except z3.Z3Exception:
            continue
        if r == "unsat":
            return ("proved", "z3" + (":" + tac if tac else ""), None)
        if r == "sat" and set(c.uid for c in sl) <= set(c.uid for c in conj):
            return ("refuted", "z3", m)
    if use_cvc5:
        r = cvc5_check(sl + [ng], timeout_ms / 1000 * 2)
        if r == "unsat":
            return ("proved", "cvc5", None)
    return ("unknown", "z3", None)


def model_value(m, node):
    v = m.eval(tr(node), model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None
