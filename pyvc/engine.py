"""Path exploration: execute a Python callable on symbolic values, forking at symbolic branches."""
import random
import time
from . import terms as T
from . import smt
from .terms import Unsupported, Undefined


class Infeasible(Exception):
    pass


class PathLimit(Exception):
    pass


class Path:
    __slots__ = ("result", "exc", "pc", "defs", "events", "decisions", "extra")

    def __init__(s, **k):
        for n in s.__slots__:
            setattr(s, n, k.get(n))


class Ctx:
    cur = None

    def __init__(self, pre, prefix, feas_ms=400):
        self.pre = list(pre)
        self.pc = list(pre)
        self.prefix = prefix
        self.trail = []          # (choice, alternative feasible)
        self.defs = []
        self.events = []
        self.fresh = {}
        self.assumed = []
        self.feas_ms = feas_ms
        self.extra = {}
        self._known = {}

    def name(self, base):
        k = self.fresh.get(base, 0)
        self.fresh[base] = k + 1
        return base if k == 0 else f"{base}~{k}"

    def assume(self, b):
        b = T._b(b)
        if b is T.FALSE:
            raise Infeasible()
        if b is not T.TRUE:
            self.pc.append(b)

    def branch(self, b):
        # already decided on this path?
        for c in self.pc:
            if c is b:
                return True
        nb = T.bnot(b)
        for c in self.pc:
            if c is nb:
                return False
        i = len(self.trail)
        if i < len(self.prefix):
            choice = self.prefix[i]
            self.trail.append((choice, False))
        else:
            t = smt.feasible(smt.slice_(self.pc, [b]) + [b], self.feas_ms) != "unsat"
            f = smt.feasible(smt.slice_(self.pc, [nb]) + [nb], self.feas_ms) != "unsat"
            if not t and not f:
                raise Infeasible()
            choice = t
            self.trail.append((choice, t and f))
        self.pc.append(b if choice else nb)
        return choice

    def defined(self, kind, b):
        if b is T.TRUE:
            return
        self.defs.append((kind, b, list(self.pc)))


def ctx():
    return Ctx.cur


def explore(fn, pre=(), max_paths=4000, catch=(), feas_ms=400, deadline=None, sample=None):
    """All feasible paths of fn() under the assumptions pre."""
    stack = [[]]
    paths = []
    rng = random.Random(7)
    old = (T.HOOKS["branch"], T.HOOKS["defined"], Ctx.cur)
    try:
        while stack:
            if sample is not None:
                if len(paths) >= sample:
                    break
                k = rng.randrange(len(stack))
                stack[k], stack[-1] = stack[-1], stack[k]
            prefix = stack.pop()
            c = Ctx(pre, prefix, feas_ms)
            Ctx.cur = c
            T.HOOKS["branch"] = c.branch
            T.HOOKS["defined"] = c.defined
            res = exc = None
            dead = False
            try:
                res = fn()
            except Infeasible:
                dead = True
            except Unsupported:
                raise
            except Exception as e:          # an exception of the code under verification is an outcome of the path
                import traceback
                e.pyvc_tb = traceback.format_exc()
                exc = e
            T.HOOKS["branch"] = T.HOOKS["defined"] = None
            for i in range(len(prefix), len(c.trail)):
                ch, alt = c.trail[i]
                if alt:
                    stack.append([t[0] for t in c.trail[:i]] + [not ch])
            if not dead:
                paths.append(Path(result=res, exc=exc, pc=c.pc, defs=c.defs, events=c.events,
                                  decisions=[t[0] for t in c.trail], extra=c.extra))
            if len(paths) > max_paths or (deadline and time.time() > deadline):
                raise Unsupported(f"more than {max_paths} paths")
        return paths
    finally:
        T.HOOKS["branch"], T.HOOKS["defined"], Ctx.cur = old
