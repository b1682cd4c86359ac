"""Hash-consed term graph: the symbolic values on which the code of /repo is executed."""
import math
from fractions import Fraction


class Unsupported(Exception):
    """The code under verification left the subset the verifier handles."""


class Undefined(Exception):
    """The code evaluates something undefined on this path (raised by real Python/numba as well)."""


_table = {}
HOOKS = {"branch": None, "defined": None}


def _simplest_fraction(x):
    """The fraction of smallest denominator that rounds to the double x."""
    f = Fraction(x)
    if f.denominator == 1:
        return f
    n, d = abs(f.numerator), f.denominator
    ax = abs(x)
    h0, h1, k0, k1 = 0, 1, 1, 0
    a, b = n, d
    while b:
        q = a // b
        h0, h1 = h1, q * h1 + h0
        k0, k1 = k1, q * k1 + k0
        if k1 and h1 / k1 == ax:
            break
        a, b = b, a % b
    r = Fraction(h1, k1)
    if r.denominator > 10000:
        # sympy prints 15 significant digits of its own rationals' decimal values (0.333333333333333)
        c = f.limit_denominator(10000)
        if abs(abs(c) - abs(f)) <= abs(f) * Fraction(1, 10 ** 14):
            return c
    return r if x > 0 else -r


class Node:
    __slots__ = ("op", "args", "data", "uid", "__weakref__")
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __new__(cls, op, args=(), data=None):
        key = (op, tuple(a.uid for a in args), data)
        n = _table.get(key)
        if n is None:
            n = object.__new__(cls)
            n.op, n.args, n.data, n.uid = op, tuple(args), data, len(_table)
            _table[key] = n
        return n

    # -- arithmetic
    def _bin(self, other, f, rev=False):
        if _is_arr(other):
            return _map_arr(other, (lambda o: f(lift(o), self)) if rev else (lambda o: f(self, lift(o))))
        try:
            o = lift(other)
        except TypeError:
            return NotImplemented
        return f(o, self) if rev else f(self, o)

    def __add__(s, o): return s._bin(o, add)
    def __radd__(s, o): return s._bin(o, add, True)
    def __sub__(s, o): return s._bin(o, sub)
    def __rsub__(s, o): return s._bin(o, sub, True)
    def __mul__(s, o): return s._bin(o, mul)
    def __rmul__(s, o): return s._bin(o, mul, True)
    def __truediv__(s, o): return s._bin(o, div)
    def __rtruediv__(s, o): return s._bin(o, div, True)
    def __pow__(s, o): return s._bin(o, power)
    def __rpow__(s, o): return s._bin(o, power, True)
    def __mod__(s, o): return s._bin(o, mod)
    def __rmod__(s, o): return s._bin(o, mod, True)
    def __floordiv__(s, o): return s._bin(o, lambda a, b: floor(div(a, b)))
    def __rfloordiv__(s, o): return s._bin(o, lambda a, b: floor(div(a, b)), True)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __abs__(s): return absn(s)

    # -- comparisons
    def __lt__(s, o): return s._bin(o, lt)
    def __le__(s, o): return s._bin(o, le)
    def __gt__(s, o): return s._bin(o, lambda a, b: lt(b, a))
    def __ge__(s, o): return s._bin(o, lambda a, b: le(b, a))

    def __eq__(s, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, (BNode, bool)):
            o = b2n(o)
        return s._bin(o, eq)

    def __ne__(s, o):
        if o is None or isinstance(o, str):
            return True
        r = s.__eq__(o)
        return _map_arr(r, bnot) if _is_arr(r) else bnot(r)

    __hash__ = object.__hash__

    def __bool__(s):
        return bool(bnot(eq(s, ZERO)))

    def __float__(s):
        if s.op == "c":
            return float(s.data)
        raise Unsupported("float() of a symbolic value")

    def __int__(s):
        if s.op == "c" and s.data.denominator == 1:
            return int(s.data)
        raise Unsupported("int() of a symbolic value")

    __index__ = __int__

    def __round__(s, n=None):
        if s.op == "c":
            return round(s.data, n)
        raise Unsupported("round() of a symbolic value")

    def __format__(s, spec):
        return "<sym>"

    def __repr__(s):
        return show(s)

    def __iter__(s):
        raise TypeError("symbolic scalar is not iterable")

    def __len__(s):
        raise TypeError("symbolic scalar has no len()")

    def __copy__(s): return s
    def __deepcopy__(s, m): return s
    # numpy object-array ufuncs look these up by name
    def sqrt(s): return sqrt(s)
    def sin(s): return sin(s)
    def cos(s): return cos(s)
    def tan(s): return tan(s)
    def exp(s): return exp(s)
    def conjugate(s): return s
    def item(s): return s
    def copy(s): return s
    def tolist(s): return s
    def is_integer(s): raise Unsupported("is_integer of a symbolic value")
    @property
    def real(s): return s
    @property
    def shape(s): return ()
    @property
    def ndim(s): return 0
    @property
    def size(s): return 1
    @property
    def dtype(s):
        import numpy
        return numpy.dtype(float)


class BNode(Node):
    """Boolean term."""
    __slots__ = ()

    def __bool__(s):
        if s.op == "bc":
            return s.data
        h = HOOKS["branch"]
        if h is None:
            raise Unsupported("branch on a symbolic condition outside of an exploration")
        return h(s)

    def __and__(s, o): return band(s, o)
    __rand__ = __and__
    def __or__(s, o): return bor(s, o)
    __ror__ = __or__
    def __invert__(s): return bnot(s)

    def __eq__(s, o):
        if isinstance(o, (bool,)) or type(o).__name__ in ("bool_", "bool"):
            return s if bool(o) else bnot(s)
        if isinstance(o, BNode):
            return bor(band(s, o), band(bnot(s), bnot(o)))
        if isinstance(o, (int, float, Node)):
            return eq(b2n(s), lift(o))
        return False

    def __ne__(s, o):
        r = s.__eq__(o)
        return bnot(r)

    __hash__ = object.__hash__

    def _bin(self, other, f, rev=False):
        return b2n(self)._bin(other, f, rev)

    def __neg__(s): return neg(b2n(s))

    @property
    def dtype(s):
        import numpy
        return numpy.dtype(bool)


def _is_arr(x):
    return type(x).__name__ == "ndarray" or (hasattr(x, "__array__") and hasattr(x, "ndim") and getattr(x, "ndim") > 0)


def _map_arr(a, f):
    import numpy
    out = numpy.empty(a.shape, dtype=object)
    for i in numpy.ndindex(*a.shape):
        out[i] = f(a[i])
    return out


# ------------------------------------------------------------------ constructors
def const(q):
    return Node("c", (), Fraction(q))


ZERO, ONE, TWO = const(0), const(1), const(2)
HALF = const(Fraction(1, 2))
PI = Node("pi")
INF = Node("inf")
NINF = Node("ninf")
NAN = Node("nan")
TRUE = BNode("bc", (), True)
FALSE = BNode("bc", (), False)


def b2n(b):
    if isinstance(b, BNode):
        if b.op == "bc":
            return ONE if b.data else ZERO
        return Node("ite", (b, ONE, ZERO))
    return ONE if b else ZERO


def lift(x):
    if isinstance(x, BNode):
        return b2n(x)
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    t = type(x).__name__
    if t == "bool_":
        return ONE if bool(x) else ZERO
    if isinstance(x, float) or t.startswith("float"):
        x = float(x)
        if x != x:
            return NAN
        if x == math.inf:
            return INF
        if x == -math.inf:
            return NINF
        if x != 0.0:
            r = x / math.pi
            f = Fraction(r).limit_denominator(48)
            if f != 0 and abs(f) < 64 and float(f) * math.pi == x and x != round(x, 6):
                return mul(const(f), PI)
        return const(_simplest_fraction(x))
    if t.startswith("int") or t.startswith("uint"):
        return const(int(x))
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        return lift(x.item())
    raise TypeError(f"cannot lift {type(x)}")


def var(name, **attrs):
    return Node("v", (), (name, tuple(sorted(attrs.items()))))


def uf(name, *args):
    return Node("uf", tuple(lift(a) for a in args), name)


def bvar(name):
    return BNode("bv", (), name)


def buf(name, *args):
    return BNode("buf", tuple(lift(a) for a in args), name)


_special = ("nan", "inf", "ninf")


def _neg_special(a):
    return {"nan": NAN, "inf": NINF, "ninf": INF}[a.op]


def add(a, b):
    if a.op == "nan" or b.op == "nan":
        return NAN
    if a.op in _special or b.op in _special:
        if a.op in _special and b.op in _special:
            return a if a is b else NAN
        return a if a.op in _special else b
    if a.op == "c" and b.op == "c":
        return const(a.data + b.data)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    # cancellation x + (-1)*x and c + (c' + x)
    if _negof(a) is b or _negof(b) is a:
        return ZERO
    if a.op == "c" and b.op == "+" and b.args[0].op == "c":
        return add(const(a.data + b.args[0].data), b.args[1])
    if b.op == "c":
        a, b = b, a
        if b.op == "+" and b.args[0].op == "c":
            return add(const(a.data + b.args[0].data), b.args[1])
    # (y - x) + x and x + (y - x)
    for p, q in ((a, b), (b, a)):
        if p.op == "+":
            if p.args[0] is _negof(q) or _negof(p.args[0]) is q:
                return p.args[1]
            if p.args[1] is _negof(q) or _negof(p.args[1]) is q:
                return p.args[0]
    return Node("+", (a, b))


def _negof(a):
    if a.op == "c":
        return const(-a.data)
    if a.op == "*" and a.args[0].op == "c":
        if a.args[0].data == -1:
            return a.args[1]
        return Node("*", (const(-a.args[0].data), a.args[1]))
    return Node("*", (const(-1), a))


def neg(a):
    if a.op in _special:
        return _neg_special(a)
    return _negof(a)


def sub(a, b):
    if a is b and a.op not in _special:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == "nan" or b.op == "nan":
        return NAN
    if a.op in _special or b.op in _special:
        if b.op not in _special:
            a, b = b, a
        if a.op == "c":
            if a.data == 0:
                return NAN
            return b if a.data > 0 else _neg_special(b)
        if a.op in _special:
            return INF if a is b else NINF
        if lt(ZERO, a):             # forks on the sign during an exploration
            return b
        return _neg_special(b) if lt(a, ZERO) else NAN
    if a.op == "c" and b.op == "c":
        return const(a.data * b.data)
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.data == 0:
            return ZERO
        if a.data == 1:
            return b
        if b.op == "*" and b.args[0].op == "c":
            return mul(const(a.data * b.args[0].data), b.args[1])
        return Node("*", (a, b))
    # pull constants out
    ca, a = (a.args[0], a.args[1]) if a.op == "*" and a.args[0].op == "c" else (None, a)
    cb, b = (b.args[0], b.args[1]) if b.op == "*" and b.args[0].op == "c" else (None, b)
    if a is b:
        r = Node("pow", (a,), 2)
    elif a.uid <= b.uid:
        r = Node("*", (a, b))
    else:
        r = Node("*", (b, a))
    c = (ca.data if ca is not None else 1) * (cb.data if cb is not None else 1)
    return r if c == 1 else mul(const(c), r)


def _defined(kind, node):
    h = HOOKS["defined"]
    if h is not None:
        h(kind, node)


def div(a, b):
    if b.op == "c":
        if b.data == 0:
            _defined("division by zero", bnot(eq(b, ZERO)))
            return NAN
        return mul(const(1 / b.data), a)
    if a.op == "nan" or b.op == "nan":
        return NAN
    if b.op in _special:
        return ZERO if a.op not in _special else NAN
    _defined("division by zero", bnot(eq(b, ZERO)))
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    ca, a1 = (a.args[0].data, a.args[1]) if a.op == "*" and a.args[0].op == "c" else (Fraction(1), a)
    cb, b1 = (b.args[0].data, b.args[1]) if b.op == "*" and b.args[0].op == "c" else (Fraction(1), b)
    if a1.op == "c":
        ca, a1 = ca * a1.data, ONE
    c = ca / cb
    r = ONE if a1 is b1 else Node("/", (a1, b1))
    return r if c == 1 else mul(const(c), r)


def ipow(a, n):
    if n == 0:
        return ONE
    if n == 1:
        return a
    if n < 0:
        return div(ONE, ipow(a, -n))
    if a.op == "c":
        return const(a.data ** n)
    if a.op == "*" and a.args[0].op == "c":
        return mul(const(a.args[0].data ** n), ipow(a.args[1], n))
    if a.op == "pow":
        return Node("pow", a.args, a.data * n)
    return Node("pow", (a,), n)


def power(a, b):
    if a.op == "nan" or b.op == "nan":
        return NAN
    if b.op == "c":
        if b.data.denominator == 1:
            return ipow(a, int(b.data))
        if b.data == Fraction(1, 2):
            return sqrt(a)
        if b.data == Fraction(-1, 2):
            return div(ONE, sqrt(a))
        if a.op == "c" and a.data == 1:
            return ONE
        _defined("real power of a negative base", le(ZERO, a) if b.data > 0 else lt(ZERO, a))
        return Node("rpow", (a, b))
    if a is ONE:
        return ONE
    _defined("real power of a negative base", bor(lt(ZERO, a), band(eq(a, ZERO), lt(ZERO, b))))
    if a is ZERO:
        return ZERO
    return Node("rpow", (a, b))


def _isqrt(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    a = lift(a)
    if a.op == "nan" or a.op == "inf":
        return a
    if a.op == "c":
        if a.data < 0:
            _defined("square root of a negative value", le(ZERO, a))
            return NAN
        n, d = _isqrt(a.data.numerator), _isqrt(a.data.denominator)
        if n is not None and d is not None:
            return const(Fraction(n, d))
        return Node("sqrt", (a,))
    _defined("square root of a negative value", le(ZERO, a))
    return Node("sqrt", (a,))


def absn(a):
    a = lift(a)
    if a.op == "c":
        return const(abs(a.data))
    if a.op in _special:
        return NAN if a is NAN else INF
    if a.op == "*" and a.args[0].op == "c":
        return mul(const(abs(a.args[0].data)), absn(a.args[1]))
    if a.op in ("abs", "sqrt", "exp", "pi"):
        return a
    return Node("abs", (a,))


def sign(a):
    a = lift(a)
    if a.op == "c":
        return const((a.data > 0) - (a.data < 0))
    if a.op == "*" and a.args[0].op == "c":
        return mul(sign(a.args[0]), sign(a.args[1]))
    if a.op == "nan":
        return NAN
    return Node("sign", (a,))


def _pi_coeff(a):
    if a is ZERO:
        return Fraction(0)
    if a is PI:
        return Fraction(1)
    if a.op == "*" and a.args[0].op == "c" and a.args[1] is PI:
        return a.args[0].data
    return None


def sin(a):
    a = lift(a)
    if a.op in _special:
        return NAN
    k = _pi_coeff(a)
    if k is not None:
        k = k % 2
        if k in (0, 1):
            return ZERO
        if k == Fraction(1, 2):
            return ONE
        if k == Fraction(3, 2):
            return const(-1)
    if a.op == "*" and a.args[0].op == "c" and a.args[0].data < 0:
        return neg(sin(neg(a)))
    return Node("sin", (a,))


def cos(a):
    a = lift(a)
    if a.op in _special:
        return NAN
    k = _pi_coeff(a)
    if k is not None:
        k = k % 2
        if k == 0:
            return ONE
        if k == 1:
            return const(-1)
        if k in (Fraction(1, 2), Fraction(3, 2)):
            return ZERO
    if a.op == "*" and a.args[0].op == "c" and a.args[0].data < 0:
        return cos(neg(a))
    return Node("cos", (a,))


def tan(a):
    a = lift(a)
    c = cos(a)
    return div(sin(a), c)


def atan2(y, x):
    y, x = lift(y), lift(x)
    if y.op == "nan" or x.op == "nan":
        return NAN
    if y.op == "c" and x.op == "c":
        if y.data == 0:
            return ZERO if x.data >= 0 else PI
        if x.data == 0:
            return mul(const(Fraction(1 if y.data > 0 else -1, 2)), PI)
    return Node("atan2", (y, x))


def atan(y):
    return atan2(lift(y), ONE)


def acos(c):
    c = lift(c)
    if c.op == "nan":
        return NAN
    _defined("inverse cosine outside [-1, 1]", band(le(const(-1), c), le(c, ONE)))
    if c.op == "c":
        if c.data == 1:
            return ZERO
        if c.data == -1:
            return PI
        if c.data == 0:
            return mul(HALF, PI)
        if abs(c.data) > 1:
            return NAN
    return Node("acos", (c,))


def asin(c):
    c = lift(c)
    if c.op == "nan":
        return NAN
    _defined("inverse sine outside [-1, 1]", band(le(const(-1), c), le(c, ONE)))
    if c is ZERO:
        return ZERO
    return Node("asin", (c,))


def exp(a):
    a = lift(a)
    if a is ZERO:
        return ONE
    if a.op == "ninf":
        return ZERO
    if a.op in _special:
        return a
    return Node("exp", (a,))


def log(a):
    a = lift(a)
    if a is ONE:
        return ZERO
    _defined("logarithm of a non-positive value", lt(ZERO, a))
    return Node("log", (a,))


def floor(a):
    a = lift(a)
    if a.op == "c":
        return const(math.floor(a.data))
    if a.op in _special:
        return NAN
    return Node("floor", (a,))


def mod(a, b):
    if a.op == "c" and b.op == "c" and b.data != 0:
        return const(a.data - b.data * math.floor(a.data / b.data))
    return sub(a, mul(b, floor(div(a, b))))


def ite(c, a, b):
    a, b = lift(a), lift(b)
    if not isinstance(c, BNode):
        return a if c else b
    if c.op == "bc":
        return a if c.data else b
    if a is b:
        return a
    if c.op == "not":
        return Node("ite", (c.args[0], b, a))
    return Node("ite", (c, a, b))


def minn(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return ite(lt(b, a), b, a)


def maxn(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return ite(lt(a, b), b, a)


# ------------------------------------------------------------------ booleans
def _b(x):
    if isinstance(x, BNode):
        return x
    if isinstance(x, Node):
        return bnot(eq(x, ZERO))
    return TRUE if bool(x) else FALSE


def lt(a, b):
    a, b = lift(a), lift(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.data < b.data else FALSE
    if a is b or a.op == "inf" or b.op == "ninf":
        return FALSE
    if a.op == "ninf" or b.op == "inf":
        return TRUE
    return BNode("lt", (a, b))


def le(a, b):
    a, b = lift(a), lift(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.data <= b.data else FALSE
    if a is b or a.op == "ninf" or b.op == "inf":
        return TRUE
    if a.op == "inf" or b.op == "ninf":
        return FALSE
    return BNode("le", (a, b))


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return FALSE
    if a.op in _special or b.op in _special:
        return FALSE
    # ite(c,1,0) == 1
    for p, q in ((a, b), (b, a)):
        if p.op == "ite" and q.op == "c" and p.args[1].op == "c" and p.args[2].op == "c":
            t, e = p.args[1].data == q.data, p.args[2].data == q.data
            if t and e:
                return TRUE
            if t:
                return p.args[0]
            if e:
                return bnot(p.args[0])
            return FALSE
    if a.uid > b.uid:
        a, b = b, a
    return BNode("eq", (a, b))


def bnot(a):
    a = _b(a)
    if a.op == "bc":
        return FALSE if a.data else TRUE
    if a.op == "not":
        return a.args[0]
    return BNode("not", (a,))


def band(*xs):
    out = []
    for x in xs:
        x = _b(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    uniq = list({o.uid: o for o in out}.values())
    ids = {o.uid for o in uniq}
    for o in uniq:
        if o.op == "not" and o.args[0].uid in ids:
            return FALSE
    if not uniq:
        return TRUE
    if len(uniq) == 1:
        return uniq[0]
    return BNode("and", tuple(sorted(uniq, key=lambda n: n.uid)))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    return band(implies(a, b), implies(b, a))


def isnan(a):
    a = lift(a)
    if a.op == "nan":
        return TRUE
    if a.op in ("c", "pi", "inf", "ninf"):
        return FALSE
    if a.op in ("uf", "v"):
        return BNode("isnan", (a,))
    # nan propagates through arithmetic
    out, st, seen = [], [a], set()
    while st:
        n = st.pop()
        if n.uid in seen or isinstance(n, BNode):
            continue
        seen.add(n.uid)
        if n.op == "uf":
            out.append(BNode("isnan", (n,)))
        elif n.op == "nan":
            out.append(TRUE)
        elif n.op == "ite":
            c, x, y = n.args
            out.append(bor(band(c, isnan(x)), band(bnot(c), isnan(y))))
        else:
            st.extend(n.args)
    return bor(*out) if out else FALSE


# ------------------------------------------------------------------ traversal
def topo(roots):
    out, seen, stack = [], set(), [(r, False) for r in reversed(list(roots))]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.uid in seen:
            continue
        seen.add(n.uid)
        stack.append((n, True))
        for a in n.args:
            if a.uid not in seen:
                stack.append((a, False))
    return out


def rebuild(op, args, data, orig):
    if op == "+": return add(*args)
    if op == "*": return mul(*args)
    if op == "/": return div(*args)
    if op == "pow": return ipow(args[0], data)
    if op == "rpow": return power(*args)
    if op == "sqrt": return sqrt(*args)
    if op == "abs": return absn(*args)
    if op == "sign": return sign(*args)
    if op == "sin": return sin(*args)
    if op == "cos": return cos(*args)
    if op == "atan2": return atan2(*args)
    if op == "acos": return acos(*args)
    if op == "asin": return asin(*args)
    if op == "exp": return exp(*args)
    if op == "log": return log(*args)
    if op == "floor": return floor(*args)
    if op == "ite": return ite(*args)
    if op == "lt": return lt(*args)
    if op == "le": return le(*args)
    if op == "eq": return eq(*args)
    if op == "not": return bnot(*args)
    if op == "and": return band(*args)
    if op == "isnan": return isnan(*args)
    return type(orig)(op, args, data)


def substitute(roots, mapping):
    """mapping: {uid: node}. Returns list of substituted roots (hooks for definedness are silenced)."""
    h = HOOKS["defined"]
    HOOKS["defined"] = None
    try:
        memo = dict(mapping)
        for n in topo(roots):
            if n.uid in memo:
                continue
            if not n.args:
                memo[n.uid] = n
                continue
            args = [memo[a.uid] for a in n.args]
            if all(x is y for x, y in zip(args, n.args)):
                memo[n.uid] = n
            else:
                memo[n.uid] = rebuild(n.op, tuple(args), n.data, n)
        return [memo[r.uid] for r in roots]
    finally:
        HOOKS["defined"] = h


def diff(node, v):
    """Partial derivative of node with respect to variable node v."""
    h = HOOKS["defined"]
    HOOKS["defined"] = None
    try:
        d = {}
        for n in topo([node]):
            d[n.uid] = _diff1(n, v, d)
        return d[node.uid]
    finally:
        HOOKS["defined"] = h


def _diff1(n, v, d):
    if n is v:
        return ONE
    if not n.args or isinstance(n, BNode):
        return ZERO
    a = n.args
    da = [d[x.uid] for x in a]
    if all(x is ZERO for x in da):
        return ZERO
    op = n.op
    if op == "+": return add(da[0], da[1])
    if op == "*": return add(mul(da[0], a[1]), mul(a[0], da[1]))
    if op == "/": return div(sub(mul(da[0], a[1]), mul(a[0], da[1])), ipow(a[1], 2))
    if op == "pow": return mul(mul(const(n.data), ipow(a[0], n.data - 1)), da[0])
    if op == "rpow":
        r = mul(mul(a[1], power(a[0], sub(a[1], ONE))), da[0])
        if da[1] is not ZERO:
            r = add(r, mul(mul(n, log(a[0])), da[1]))
        return r
    if op == "sqrt": return div(da[0], mul(TWO, n))
    if op == "abs": return mul(div(a[0], n), da[0])
    if op == "sign": return ZERO
    if op == "sin": return mul(cos(a[0]), da[0])
    if op == "cos": return neg(mul(sin(a[0]), da[0]))
    if op == "atan2":
        return div(sub(mul(a[1], da[0]), mul(a[0], da[1])), add(ipow(a[0], 2), ipow(a[1], 2)))
    if op == "acos": return neg(div(da[0], sqrt(sub(ONE, ipow(a[0], 2)))))
    if op == "asin": return div(da[0], sqrt(sub(ONE, ipow(a[0], 2))))
    if op == "exp": return mul(n, da[0])
    if op == "log": return div(da[0], a[0])
    if op == "ite": return ite(a[0], da[1], da[2])
    if op == "floor": return ZERO
    raise Unsupported(f"derivative of {op}")


def show(n, depth=4):
    if n.op == "c":
        return str(n.data)
    if n.op == "v":
        return n.data[0]
    if n.op in ("bv",):
        return n.data
    if n.op == "bc":
        return str(n.data)
    if not n.args:
        return n.op if n.op != "uf" else f"{n.data}()"
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in n.args]
    sym = {"+": "+", "*": "*", "/": "/", "lt": "<", "le": "<=", "eq": "==", "and": "and"}
    if n.op in sym:
        return "(" + f" {sym[n.op]} ".join(a) + ")"
    if n.op == "pow":
        return f"{a[0]}**{n.data}"
    return f"{n.data if n.op in ('uf','buf') else n.op}({', '.join(a)})"


def evalf(roots, env, ufs=None):
    """Float evaluation. env: {name: float}. nan/inf semantics as numpy."""
    val = {}
    m = math
    for n in topo(roots):
        a = [val[x.uid] for x in n.args]
        op = n.op
        try:
            if op == "c": r = float(n.data)
            elif op == "pi": r = m.pi
            elif op == "inf": r = m.inf
            elif op == "ninf": r = -m.inf
            elif op == "nan": r = m.nan
            elif op == "v": r = env[n.data[0]]
            elif op in ("uf", "buf", "bv", "isnan"):
                r = ufs(n, a) if ufs else (False if op == "isnan" else env[n.data])
            elif op == "+": r = a[0] + a[1]
            elif op == "*": r = a[0] * a[1]
            elif op == "/": r = a[0] / a[1]
            elif op == "pow": r = a[0] ** n.data
            elif op == "rpow": r = a[0] ** a[1] if a[0] >= 0 else m.nan
            elif op == "sqrt": r = m.sqrt(a[0])
            elif op == "abs": r = abs(a[0])
            elif op == "sign": r = (a[0] > 0) - (a[0] < 0)
            elif op == "sin": r = m.sin(a[0])
            elif op == "cos": r = m.cos(a[0])
            elif op == "atan2": r = m.atan2(a[0], a[1])
            elif op == "acos": r = m.acos(a[0])
            elif op == "asin": r = m.asin(a[0])
            elif op == "exp": r = m.exp(a[0])
            elif op == "log": r = m.log(a[0])
            elif op == "floor": r = m.floor(a[0])
            elif op == "ite": r = a[1] if a[0] else a[2]
            elif op == "lt": r = a[0] < a[1]
            elif op == "le": r = a[0] <= a[1]
            elif op == "eq": r = a[0] == a[1]
            elif op == "not": r = not a[0]
            elif op == "and": r = all(a)
            elif op == "bc": r = n.data
            else: raise Unsupported(op)
        except (ZeroDivisionError, ValueError, OverflowError):
            r = m.nan
        val[n.uid] = r
    return [val[r.uid] for r in roots]
