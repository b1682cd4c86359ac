"""Decision of algebraic identities by evaluation in a prime field.

p = 2q+1, q = 2r+1, r prime, all about 127 bits.  "x > 0" is read as "x is a quadratic residue", which is multiplicative and,
since p = 3 (mod 4), changes under negation; sqrt is the residue root, so sqrt(x)*sqrt(y) = sqrt(x*y) and sqrt(x^2) = |x|.
Real powers of positive values are powers in the residue group (order q); exponents are evaluated in F_q.  exp(x) = g^(x in F_q).
Angles are evaluated only through (cos, sin): variables through rational points of the circle at 1/24 of the angle.
An angle used as a plain number is an independent element (it is transcendental over its sine and cosine).
"""
import hashlib
import random
from fractions import Fraction
from . import terms as T
from .terms import Unsupported

CHAINS = [
    (28892854979897913671800087197003514199, 57785709959795827343600174394007028399, 115571419919591654687200348788014056799),
    (37770461521671806071171952805063623081, 75540923043343612142343905610127246163, 151081846086687224284687811220254492327),
    (29174818136192709044540095483525298891, 58349636272385418089080190967050597783, 116699272544770836178360381934101195567),
]
UNIT = 24


class Reject(Exception):
    pass


class Sample:
    def __init__(self, seed, chain=0, level=2, shared=None):
        self.mods = CHAINS[chain]
        self.level = level
        self.p = self.mods[level]
        self.h = (self.p + 1) // 4          # sqrt exponent (p = 3 mod 4)
        self.e = (self.p - 1) // 2
        self.seed = f"{seed}/{chain}/{level}"
        self.chain = chain
        self.oseed = seed
        self.rng = random.Random(self.seed)
        self.memo = {}
        self.cmemo = {}
        self.amemo = {}
        self._dual = None
        self.g = pow(self._hash("g"), 2, self.p)
        self.poscache = set()

    @property
    def dual(self):
        if self._dual is None:
            if self.level == 0:
                raise Unsupported("exponent tower too high for the identity decision")
            self._dual = Sample(self.oseed, self.chain, self.level - 1)
            self._dual.positives = getattr(self, "positives", ())
        return self._dual

    def _hash(self, *key):
        s = hashlib.sha256((self.seed + "|" + "|".join(map(str, key))).encode()).digest()
        return int.from_bytes(s, "big") % self.p

    def chi(self, x):
        if x % self.p == 0:
            return 0
        return 1 if pow(x, self.e, self.p) == 1 else -1

    def sqrt(self, x):
        x %= self.p
        if x == 0:
            return 0
        r = pow(x, self.h, self.p)
        if r * r % self.p != x:
            raise Reject()
        # r is a residue itself because p = 3 mod 4: x^((p+1)/4) with x a residue
        return r

    def inv(self, x):
        x %= self.p
        if x == 0:
            raise Reject()
        return pow(x, -1, self.p)

    def frac(self, f):
        return f.numerator * pow(f.denominator, -1, self.p) % self.p

    # ---------------------------------------------------------------- angles
    def lin(self, n):
        """n as sum coeff*atom + k*pi."""
        out = {}
        pi = Fraction(0)
        stack = [(n, Fraction(1))]
        while stack:
            x, c = stack.pop()
            if x.op == "+":
                stack.append((x.args[0], c)); stack.append((x.args[1], c))
            elif x.op == "*" and x.args[0].op == "c":
                stack.append((x.args[1], c * x.args[0].data))
            elif x.op == "pi":
                pi += c
            elif x.op == "c":
                if x.data != 0:
                    k = ("one",)
                    out[k] = out.get(k, 0) + c * x.data
            elif x.op == "ite":
                b = self.truth(x.args[0])
                stack.append((x.args[1] if b else x.args[2], c))
            else:
                out[x.uid] = out.get(x.uid, 0) + c
                self.amemo.setdefault(x.uid, x)
        return {k: v for k, v in out.items() if v != 0}, pi

    def cmul(self, a, b):
        p = self.p
        return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)

    def cpow(self, a, n):
        if n < 0:
            a = (a[0], -a[1] % self.p)
            n = -n
        r = (1, 0)
        while n:
            if n & 1:
                r = self.cmul(r, a)
            a = self.cmul(a, a)
            n >>= 1
        return r

    def circle(self, t):
        d = self.inv(1 + t * t)
        return ((1 - t * t) * d % self.p, 2 * t * d % self.p)

    def half(self, cs):
        c = self.sqrt((1 + cs[0]) * self.inv(2))
        return (c, cs[1] * self.inv(2 * c) % self.p)

    def atom_cis(self, key, coef):
        if key == ("one",):
            num = coef * UNIT
            if num.denominator != 1:
                num = coef * UNIT * 5 * 7
                if num.denominator != 1:
                    raise Unsupported("angle constant")
                return self.cpow(self.circle(self._hash("angle-one35")), int(num))
            return self.cpow(self.circle(self._hash("angle-one35")), int(num) * 35)
        n = self.amemo[key]
        if n.op in ("atan2", "acos", "asin"):
            k = ("cis", key, 1)
            if k not in self.cmemo:
                if n.op == "atan2":
                    y, x = self.ev(n.args[0]), self.ev(n.args[1])
                    ri = self.inv(self.sqrt((x * x + y * y) % self.p))
                    self.cmemo[k] = (x * ri % self.p, y * ri % self.p)
                elif n.op == "acos":
                    c = self.ev(n.args[0])
                    self.cmemo[k] = (c, self.sqrt((1 - c * c) % self.p))
                else:
                    s = self.ev(n.args[0])
                    self.cmemo[k] = (self.sqrt((1 - s * s) % self.p), s)
            cs, d = self.cmemo[k], coef.denominator
            m = 1
            while d > 1:
                if d % 2:
                    raise Unsupported("fraction of an inverse trigonometric angle")
                m *= 2
                kk = ("cis", key, m)
                if kk not in self.cmemo:
                    self.cmemo[kk] = self.half(cs)
                cs = self.cmemo[kk]
                d //= 2
            return self.cpow(cs, coef.numerator)
        num = coef * UNIT
        if num.denominator != 1:
            raise Unsupported("angle fraction")
        k = ("unit", key)
        if k not in self.cmemo:
            if n.op == "v":
                t = self._hash("angle", n.data[0])
            else:
                t = self._hash("angleval", self.ev(n))
            self.cmemo[k] = self.circle(t)
        return self.cpow(self.cmemo[k], int(num))

    def cis(self, n):
        if n.uid in self.cmemo:
            return self.cmemo[n.uid]
        atoms, pi = self.lin(n)
        r = (1, 0)
        for k, c in sorted(atoms.items(), key=lambda kv: str(kv[0])):
            r = self.cmul(r, self.atom_cis(k, c))
        pi %= 2
        if pi:
            q = pi * 2
            if q.denominator == 1:
                r = self.cmul(r, [(1, 0), (0, 1), (-1, 0), (0, -1)][int(q)])
            elif (pi * 4).denominator == 1:
                s = self.inv(self.sqrt(2)) if self.chi(2) == 1 else None
                if s is None:
                    raise Unsupported("multiple of pi/4")
                r = self.cmul(r, self.cpow((s, s), int(pi * 4)))
            else:
                raise Unsupported("multiple of pi")
        self.cmemo[n.uid] = r
        return r

    def angle_number(self, key):
        """Plain-number value of an inverse-trigonometric angle: determined by its (cos, sin), odd in sin."""
        c, s = self.atom_cis(key, Fraction(1))
        k = self.chi(s)
        return (self._hash("num", c, s * k % self.p) * k) % self.p

    # ---------------------------------------------------------------- values
    def truth(self, b):
        op = b.op
        if op == "bc":
            return b.data
        if op == "not":
            return not self.truth(b.args[0])
        if op == "and":
            return all(self.truth(x) for x in b.args)
        if op in ("lt", "le"):
            k = self.chi(self.ev(b.args[1]) - self.ev(b.args[0]))
            return k == 1 or (op == "le" and k == 0)
        if op == "eq":
            return (self.ev(b.args[0]) - self.ev(b.args[1])) % self.p == 0
        if op == "bv":
            return self._hash("bv", b.data) & 1 == 1
        if op == "buf":
            return self._hash("buf", b.data, *[self.ev(a) for a in b.args]) & 1 == 1
        if op == "isnan":
            return False
        raise Unsupported(op)

    def ev(self, root):
        memo = self.memo
        if root.uid in memo:
            return memo[root.uid]
        p = self.p
        for n in T.topo([root]):
            if n.uid in memo or isinstance(n, T.BNode):
                continue
            memo[n.uid] = self._ev1(n) % p
        return memo[root.uid]

    def _ev1(self, n):
        op, p, memo = n.op, self.p, self.memo
        a = n.args
        if op == "c":
            return self.frac(n.data)
        if op == "v":
            name, attrs = n.data
            x = self._hash("var", name)
            d = dict(attrs)
            if d.get("unit"):           # a point with x, 1 - x and 1 + x residues (sub-sampling of the admissible points)
                k = 0
                while not (self.chi(x) == self.chi(1 - x) == self.chi(1 + x) == 1):
                    k += 1
                    x = self._hash("var", name, k)
            elif d.get("pos"):
                x = x * x % p
            return x
        if op == "+":
            return memo[a[0].uid] + memo[a[1].uid]
        if op == "*":
            return memo[a[0].uid] * memo[a[1].uid]
        if op == "/":
            return memo[a[0].uid] * self.inv(memo[a[1].uid])
        if op == "pow":
            return pow(memo[a[0].uid], n.data, p)
        if op == "sqrt":
            return self.sqrt(memo[a[0].uid])
        if op == "abs":
            x = memo[a[0].uid]
            return x * self.chi(x)
        if op == "sign":
            return self.chi(memo[a[0].uid])
        if op == "sin":
            return self.cis(a[0])[1]
        if op == "cos":
            return self.cis(a[0])[0]
        if op in ("atan2", "acos", "asin"):
            self.amemo.setdefault(n.uid, n)
            return self.angle_number(n.uid)
        if op == "pi":
            return self._hash("pi")
        if op == "rpow":
            b = memo[a[0].uid]
            if b == 0 or self.chi(b) != 1:
                raise Reject()
            return pow(b, self.dual.ev(a[1]), p)
        if op == "exp":
            return pow(self.g, self.dual.ev(a[0]), p)
        if op == "log":
            x = memo[a[0].uid]
            if self.chi(x) != 1:
                raise Reject()
            return self._hash("log", x)
        if op == "floor":
            return self._hash("floor", memo[a[0].uid])
        if op == "uf":
            return self._hash("uf", n.data, *[memo[x.uid] for x in a])
        if op == "ite":
            return memo[a[1].uid] if self.truth(a[0]) else memo[a[2].uid]
        if op == "nan":
            raise Unsupported("nan in an identity")
        raise Unsupported(op)

    def admit(self, b):
        """Impose an assumption; inequalities become residue conditions, the rest is dropped (which only weakens)."""
        op = b.op
        if op == "and":
            for x in b.args:
                self.admit(x)
        elif op in ("lt", "le"):
            if any(x.op in ("inf", "ninf", "nan") for x in b.args):
                return
            if self.chi(self.ev(b.args[1]) - self.ev(b.args[0])) == -1:
                raise Reject()
        elif op == "not" and b.args[0].op in ("lt", "le"):
            c = b.args[0]
            if any(x.op in ("inf", "ninf", "nan") for x in c.args):
                return
            if self.chi(self.ev(c.args[0]) - self.ev(c.args[1])) == -1:
                raise Reject()


def make_samples(constraints, n, seed=1, chain=0, tries=20000, need=()):
    out = []
    k = 0
    cons = [c for c in constraints]
    while len(out) < n and k < tries:
        k += 1
        s = Sample(f"{seed}:{k}", chain)
        try:
            for c in cons:
                s.admit(c)
            for r in need:
                s.ev(r)
        except Reject:
            continue
        out.append(s)
    return out


class Stats:
    evals = 0
    rejected = 0


def decide(pairs, constraints=(), n=24, seed=1, chain=0, tries=30000):
    """Is lhs == rhs for every pair?  Returns (True, None) | (False, index of failing pair) | (None, reason)."""
    got = 0
    for k in range(tries):
        s = Sample(f"{seed}:{k}", chain)
        try:
            for c in constraints:
                s.admit(c)
            for i, (l, r) in enumerate(pairs):
                Stats.evals += 1
                if (s.ev(l) - s.ev(r)) % s.p:
                    # make sure the other pairs do not reject this point before reporting
                    for l2, r2 in pairs[i + 1:]:
                        s.ev(l2), s.ev(r2)
                    return False, i
        except Reject:
            Stats.rejected += 1
            continue
        got += 1
        if got >= n:
            return True, None
    return None, f"only {got} of {n} admissible points in {tries} tries"
