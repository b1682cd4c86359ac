"""numpy / math stand-ins working on symbolic values (real numpy object arrays underneath)."""
import math as _math
import numpy as _np
from . import terms as T
from .terms import Node, BNode, Unsupported, lift


def is_sym(x):
    return isinstance(x, Node)


def obj(a):
    """Any nested sequence / scalar to an object array of terms."""
    if isinstance(a, _np.ndarray) and a.dtype == object:
        return a
    if isinstance(a, Node):
        r = _np.empty((), dtype=object)
        r[()] = a
        return r
    if isinstance(a, _np.ndarray):
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(*a.shape):
            out[i] = lift(a[i])
        return out
    if hasattr(a, "__pyvc_array__"):
        return a.__pyvc_array__()
    if isinstance(a, (list, tuple)) or (hasattr(a, "__len__") and hasattr(a, "__getitem__")):
        items = [obj(x) for x in a]
        if not items:
            return _np.empty((0,), dtype=object)
        shp = items[0].shape
        for x in items:
            if x.shape != shp:
                raise ValueError("inhomogeneous array")
        out = _np.empty((len(items),) + shp, dtype=object)
        for k, x in enumerate(items):
            if shp == ():
                out[k] = x[()]
            else:
                out[k] = x
        return out
    r = _np.empty((), dtype=object)
    r[()] = lift(a) if not isinstance(a, (bool, _np.bool_)) else (T.TRUE if a else T.FALSE)
    return r


def unwrap(a):
    if isinstance(a, _np.ndarray) and a.ndim == 0:
        return a[()]
    return a


def ew1(f):
    def g(x, *args, **kw):
        if kw:
            raise Unsupported(f"numpy keyword {list(kw)}")
        if isinstance(x, Node) or isinstance(x, (int, float, _np.floating, _np.integer, bool)):
            return f(lift(x))
        a = obj(x)
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(*a.shape):
            out[i] = f(lift(a[i]))
        return unwrap(out)
    return g


def ew2(f):
    def g(x, y, *args, **kw):
        if kw or args:
            raise Unsupported(f"numpy keyword {list(kw)}")
        a, b = obj(x), obj(y)
        a, b = _np.broadcast_arrays(a, b)
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(*a.shape):
            out[i] = f(lift(a[i]), lift(b[i]))
        return unwrap(out)
    return g


def _reduce(a, f, init, axis=None):
    a = obj(a)
    if axis is None:
        r = init
        for i in _np.ndindex(*a.shape):
            r = a[i] if r is None else f(lift(r), lift(a[i]))
        return r
    a = _np.moveaxis(a, axis, 0)
    out = _np.empty(a.shape[1:], dtype=object)
    for i in _np.ndindex(*a.shape[1:]):
        r = init
        for k in range(a.shape[0]):
            r = a[(k,) + i] if r is None else f(lift(r), lift(a[(k,) + i]))
        out[i] = r
    return unwrap(out)


def dot(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return unwrap(_arr(a) * _arr(b)) if a.ndim or b.ndim else T.mul(a[()], b[()])
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("shapes not aligned")
        r = T.ZERO
        for x, y in zip(a, b):
            r = T.add(r, T.mul(lift(x), lift(y)))
        return r
    if a.ndim == 2 and b.ndim == 1:
        out = _np.empty((a.shape[0],), dtype=object)
        for i in range(a.shape[0]):
            out[i] = dot(a[i], b)
        return out
    if a.ndim == 1 and b.ndim == 2:
        out = _np.empty((b.shape[1],), dtype=object)
        for i in range(b.shape[1]):
            out[i] = dot(a, b[:, i])
        return out
    if a.ndim == 2 and b.ndim == 2:
        out = _np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = dot(a[i], b[:, j])
        return out
    raise Unsupported("dot of higher rank")


def _arr(a):
    return a


def cross(a, b, **kw):
    if kw:
        raise Unsupported("cross keywords")
    a, b = obj(a), obj(b)
    if a.shape == (3,) and b.shape == (3,):
        a = [lift(x) for x in a]
        b = [lift(x) for x in b]
        return obj([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    raise Unsupported("cross of other shapes")


def norm(a, ord=None, axis=None):
    if axis is not None or ord not in (None, 2):
        raise Unsupported("norm options")
    a = obj(a)
    s = T.ZERO
    for i in _np.ndindex(*a.shape):
        s = T.add(s, T.ipow(lift(a[i]), 2))
    return T.sqrt(s)


def linspace(a, b, n=50, endpoint=True, **kw):
    if kw:
        raise Unsupported("linspace keywords")
    if hasattr(n, "__pyvc_linspace__"):
        return n.__pyvc_linspace__(lift(a), lift(b), endpoint)
    n = int(n)
    a, b = lift(a), lift(b)
    d = n - 1 if endpoint else n
    out = _np.empty((n,), dtype=object)
    for k in range(n):
        if k == n - 1 and endpoint:
            out[k] = b if n > 1 else a
        else:
            out[k] = T.add(a, T.mul(T.const(T.Fraction(k, d)), T.sub(b, a))) if d else a
    return out


def arange(*args):
    args = [lift(a) for a in args]
    if all(a.op == "c" for a in args):
        vals = [a.data for a in args]
        s, e, st = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else 1)
        out = []
        x = s
        while (x < e) if st > 0 else (x > e):
            out.append(T.const(x))
            x += st
        return obj(out)
    raise Unsupported("arange of symbolic bounds")


class _Mgrid:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        axes = []
        for s in key:
            if isinstance(s.step, complex):
                axes.append(linspace(s.start, s.stop, int(abs(s.step))))
            else:
                axes.append(arange(s.start or 0, s.stop, s.step or 1))
        g = _np.empty((len(axes),) + tuple(len(a) for a in axes), dtype=object)
        for k, a in enumerate(axes):
            for i in _np.ndindex(*g.shape[1:]):
                g[(k,) + i] = a[i[k]]
        return g if len(key) > 1 else g[0]


def _full(shape, v):
    out = _np.empty(shape if not is_sym(shape) else int(shape), dtype=object)
    out[...] = v
    return out


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    return (int(s),)


def clip(x, lo, hi, **kw):
    if kw:
        raise Unsupported("clip keywords")
    f = ew2(T.maxn)
    g = ew2(T.minn)
    r = x
    if lo is not None:
        r = f(r, lo)
    if hi is not None:
        r = g(r, hi)
    return r


def hypot(x, y):
    return T.sqrt(T.add(T.ipow(x, 2), T.ipow(y, 2)))


def rem(a, b):
    return T.mod(a, b)


def _cmp(f):
    return ew2(f)


def where(c, *ab):
    if not ab:
        raise Unsupported("where with one argument")
    c, a, b = obj(c), obj(ab[0]), obj(ab[1])
    c, a, b = _np.broadcast_arrays(c, a, b)
    out = _np.empty(c.shape, dtype=object)
    for i in _np.ndindex(*c.shape):
        out[i] = T.ite(T._b(c[i]), lift(a[i]), lift(b[i]))
    return unwrap(out)


def _all(a, axis=None):
    if axis is not None:
        raise Unsupported("all axis")
    a = obj(a)
    return T.band(*[T._b(a[i]) for i in _np.ndindex(*a.shape)])


def _any(a, axis=None):
    if axis is not None:
        raise Unsupported("any axis")
    a = obj(a)
    return T.bor(*[T._b(a[i]) for i in _np.ndindex(*a.shape)])


def _array(a, dtype=None, copy=True, **kw):
    r = obj(a)
    if r is a or (isinstance(a, _np.ndarray)):
        r = r.copy()
    return unwrap(r) if r.ndim == 0 else r


def _asarray(a, dtype=None, **kw):
    r = obj(a)
    return r


def matmul(a, b):
    return dot(a, b)


def outer(a, b):
    a, b = obj(a).ravel(), obj(b).ravel()
    out = _np.empty((len(a), len(b)), dtype=object)
    for i in range(len(a)):
        for j in range(len(b)):
            out[i, j] = T.mul(lift(a[i]), lift(b[j]))
    return out


def cbrt(x):
    return T.power(x, T.const(T.Fraction(1, 3)))


def _maxred(a, axis=None, **kw):
    return _reduce(a, T.maxn, None, axis)


def _minred(a, axis=None, **kw):
    return _reduce(a, T.minn, None, axis)


def isclose(a, b, rtol=1e-5, atol=1e-8):
    return ew2(lambda x, y: T.le(T.absn(x - y), lift(atol) + lift(rtol) * T.absn(y)))(a, b)


def _isfinite(x):
    if x.op in ("inf", "ninf", "nan"):
        return T.FALSE
    return T.bnot(T.isnan(x))


def _logic(f):
    def g(a, b):
        def bb(x):
            return T._b(x) if isinstance(x, (bool, _np.bool_)) or isinstance(x, T.BNode) else T.bnot(T.eq(lift(x), T.ZERO))
        if not isinstance(a, (_np.ndarray, list, tuple)) and not isinstance(b, (_np.ndarray, list, tuple)):
            return f(bb(a), bb(b))
        A, B = _np.broadcast_arrays(_np.array(a, dtype=object), _np.array(b, dtype=object))
        out = _np.empty(A.shape, dtype=object)
        for i in _np.ndindex(*A.shape):
            out[i] = f(bb(A[i]), bb(B[i]))
        return out
    return g


def fmod(a, b):
    q = T.div(a, b)
    return T.sub(a, T.mul(b, T.ite(T.lt(q, T.ZERO), T.neg(T.floor(T.neg(q))), T.floor(q))))


def _arg(a, better):
    a = list(obj(a).ravel())
    k = 0
    for i in range(1, len(a)):
        if better(lift(a[i]), lift(a[k])):      # forks
            k = i
    return k


def _det(a):
    a = obj(a)
    n = len(a)
    if n == 1:
        return a[0, 0]
    s = T.ZERO
    for j in range(n):
        m = _np.delete(_np.delete(a, 0, 0), j, 1)
        s = T.add(s, T.mul(T.const((-1) ** j), T.mul(lift(a[0, j]), lift(_det(m)))))
    return s


class _Linalg:
    norm = staticmethod(norm)
    det = staticmethod(_det)

    def __getattr__(self, n):
        raise Unsupported(f"numpy.linalg.{n}")


class NP:
    """Stand-in for the numpy module."""
    __name__ = "numpy"
    pi = T.PI
    e = None
    nan = T.NAN
    inf = T.INF
    newaxis = None
    ndarray = _np.ndarray
    float64 = float
    int64 = int
    integer = _np.integer
    floating = _np.floating
    bool_ = bool
    linalg = _Linalg()
    mgrid = _Mgrid()
    sqrt = staticmethod(ew1(T.sqrt))
    cbrt = staticmethod(ew1(cbrt))
    sin = staticmethod(ew1(T.sin))
    cos = staticmethod(ew1(T.cos))
    tan = staticmethod(ew1(T.tan))
    arctan = staticmethod(ew1(T.atan))
    arccos = staticmethod(ew1(T.acos))
    arcsin = staticmethod(ew1(T.asin))
    exp = staticmethod(ew1(T.exp))
    log = staticmethod(ew1(T.log))
    abs = staticmethod(ew1(T.absn))
    absolute = fabs = abs
    sign = staticmethod(ew1(T.sign))
    floor = staticmethod(ew1(T.floor))
    isnan = staticmethod(ew1(T.isnan))
    isfinite = staticmethod(ew1(_isfinite))
    isinf = staticmethod(ew1(lambda x: T.TRUE if x.op in ("inf", "ninf") else T.FALSE))
    square = staticmethod(ew1(lambda x: T.ipow(x, 2)))
    negative = staticmethod(ew1(T.neg))
    deg2rad = radians = staticmethod(ew1(lambda x: x * T.PI / 180))
    rad2deg = degrees = staticmethod(ew1(lambda x: x * 180 / T.PI))
    arctan2 = staticmethod(ew2(T.atan2))
    hypot = staticmethod(ew2(hypot))
    maximum = fmax = staticmethod(ew2(T.maxn))
    minimum = fmin = staticmethod(ew2(T.minn))
    mod = remainder = staticmethod(ew2(rem))
    power = float_power = staticmethod(ew2(T.power))
    add = staticmethod(ew2(T.add))
    subtract = staticmethod(ew2(T.sub))
    multiply = staticmethod(ew2(T.mul))
    divide = true_divide = staticmethod(ew2(T.div))
    less = staticmethod(_cmp(T.lt))
    less_equal = staticmethod(_cmp(T.le))
    greater = staticmethod(_cmp(lambda a, b: T.lt(b, a)))
    greater_equal = staticmethod(_cmp(lambda a, b: T.le(b, a)))
    equal = staticmethod(_cmp(T.eq))
    copysign = staticmethod(ew2(lambda a, b: T.ite(T.lt(b, T.ZERO), T.neg(T.absn(a)), T.absn(a))))
    dot = staticmethod(dot)
    matmul = staticmethod(matmul)
    inner = vdot = staticmethod(dot)
    cross = staticmethod(cross)
    outer = staticmethod(outer)
    linspace = staticmethod(linspace)
    arange = staticmethod(arange)
    clip = staticmethod(clip)
    where = staticmethod(where)
    isclose = staticmethod(isclose)
    array = staticmethod(_array)
    asarray = staticmethod(_asarray)
    atleast_1d = staticmethod(lambda a: _np.atleast_1d(obj(a)))
    all = staticmethod(_all)
    any = staticmethod(_any)

    @staticmethod
    def allclose(a, b, rtol=1e-5, atol=1e-8):
        return _all(isclose(a, b, rtol, atol))

    @staticmethod
    def zeros(s, *a, **k): return _full(_shape(s), T.ZERO)
    @staticmethod
    def ones(s, *a, **k): return _full(_shape(s), T.ONE)
    @staticmethod
    def empty(s, *a, **k): return _full(_shape(s), T.NAN)
    @staticmethod
    def full(s, v, *a, **k): return _full(_shape(s), lift(v))
    @staticmethod
    def zeros_like(a, *_, **k): return _full(obj(a).shape, T.ZERO)
    @staticmethod
    def ones_like(a, *_, **k): return _full(obj(a).shape, T.ONE)
    @staticmethod
    def empty_like(a, *_, **k): return _full(obj(a).shape, T.NAN)
    @staticmethod
    def full_like(a, v, *_, **k): return _full(obj(a).shape, lift(v))

    @staticmethod
    def eye(n, *a, **k):
        out = _full((int(n), int(n)), T.ZERO)
        for i in range(int(n)):
            out[i, i] = T.ONE
        return out
    identity = eye

    @staticmethod
    def diag(v):
        v = obj(v)
        if v.ndim == 1:
            out = _full((len(v), len(v)), T.ZERO)
            for i in range(len(v)):
                out[i, i] = v[i]
            return out
        return obj([v[i, i] for i in range(min(v.shape))])

    @staticmethod
    def concatenate(xs, axis=0): return _np.concatenate([obj(x) for x in xs], axis=axis)
    @staticmethod
    def stack(xs, axis=0): return _np.stack([obj(x) for x in xs], axis=axis)
    @staticmethod
    def vstack(xs): return _np.vstack([obj(x) for x in xs])
    @staticmethod
    def hstack(xs): return _np.hstack([obj(x) for x in xs])
    @staticmethod
    def column_stack(xs): return _np.column_stack([obj(x) for x in xs])
    @staticmethod
    def append(a, b, axis=None):
        if axis is None:
            return _np.concatenate([obj(a).ravel(), obj(b).ravel()])
        return _np.concatenate([obj(a), obj(b)], axis=axis)
    @staticmethod
    def transpose(a, *x): return _np.transpose(obj(a), *x)
    @staticmethod
    def copy(a): return obj(a).copy()
    @staticmethod
    def ravel(a): return obj(a).ravel()
    @staticmethod
    def reshape(a, s): return obj(a).reshape(s)
    @staticmethod
    def tile(a, r): return _np.tile(obj(a), r)
    @staticmethod
    def shape(a): return obj(a).shape
    @staticmethod
    def size(a): return obj(a).size
    @staticmethod
    def ndim(a): return obj(a).ndim
    @staticmethod
    def isscalar(a): return isinstance(a, (Node, int, float))
    @staticmethod
    def sum(a, axis=None, **k): return _reduce(a, T.add, T.ZERO, axis)
    @staticmethod
    def prod(a, axis=None, **k): return _reduce(a, T.mul, T.ONE, axis)
    max = amax = nanmax = staticmethod(_maxred)
    min = amin = nanmin = staticmethod(_minred)
    @staticmethod
    def mean(a, axis=None):
        a = obj(a)
        return _reduce(a, T.add, T.ZERO, axis) / (a.size if axis is None else a.shape[axis])
    @staticmethod
    def diff(a):
        a = obj(a)
        return obj([a[i + 1] - a[i] for i in range(len(a) - 1)])
    @staticmethod
    def cumsum(a):
        a = obj(a)
        out, s = [], T.ZERO
        for x in a:
            s = T.add(s, lift(x))
            out.append(s)
        return obj(out)
    @staticmethod
    def array_equal(a, b):
        a, b = obj(a), obj(b)
        if a.shape != b.shape:
            return False
        return _all(ew2(T.eq)(a, b)) if a.size else True
    @staticmethod
    def errstate(**k):
        import contextlib
        return contextlib.nullcontext()

    @staticmethod
    def einsum(spec, *ops):
        ops = [obj(o) for o in ops]
        ins, out = spec.replace(" ", "").split("->")
        ins = ins.split(",")
        dims = {}
        for t, o in zip(ins, ops):
            for ch, d in zip(t, o.shape):
                dims[ch] = d
        summed = [c for c in dims if c not in out]
        res = _np.empty(tuple(dims[c] for c in out), dtype=object)
        for oi in _np.ndindex(*res.shape):
            env = dict(zip(out, oi))
            s = T.ZERO
            for si in _np.ndindex(*[dims[c] for c in summed]):
                env.update(zip(summed, si))
                t = T.ONE
                for tt, o in zip(ins, ops):
                    t = T.mul(t, lift(o[tuple(env[c] for c in tt)]))
                s = T.add(s, t)
            res[oi] = s
        return unwrap(res)

    ceil = staticmethod(ew1(lambda x: T.neg(T.floor(T.neg(x)))))
    reciprocal = staticmethod(ew1(lambda x: T.div(T.ONE, x)))
    positive = staticmethod(ew1(lambda x: x))
    fmod = staticmethod(ew2(lambda a, b: fmod(a, b)))
    not_equal = staticmethod(_cmp(lambda a, b: T.bnot(T.eq(a, b))))
    logical_and = staticmethod(_logic(lambda a, b: T.band(a, b)))
    logical_or = staticmethod(_logic(lambda a, b: T.bor(a, b)))
    logical_xor = staticmethod(_logic(lambda a, b: T.bor(T.band(a, T.bnot(b)), T.band(T.bnot(a), b))))
    nan_to_num = staticmethod(lambda a, **k: ew1(lambda x: T.ite(T.isnan(x), T.lift(k.get("nan", 0.0)), x))(a))

    @staticmethod
    def logical_not(a):
        return _logic(lambda x, y: T.bnot(x))(a, a)

    @staticmethod
    def meshgrid(*xs, indexing="xy", **k):
        if k.get("sparse"):
            raise Unsupported("numpy.meshgrid(sparse)")
        idx = _np.meshgrid(*[_np.arange(obj(x).size) for x in xs], indexing=indexing)
        return [_np.array([obj(x).ravel()[i] for i in g.ravel()] + [None], dtype=object)[:-1].reshape(g.shape) for x, g in zip(xs, idx)]

    @staticmethod
    def ptp(a, axis=None): return _maxred(a, axis) - _minred(a, axis)
    @staticmethod
    def trace(a):
        a = obj(a)
        return _reduce([a[i, i] for i in range(min(a.shape))], T.add, T.ZERO, None)
    @staticmethod
    def dstack(xs): return _np.dstack([obj(x) for x in xs])
    @staticmethod
    def roll(a, n, axis=None): return _np.roll(obj(a), n, axis)
    @staticmethod
    def flip(a, axis=None): return _np.flip(obj(a), axis)
    @staticmethod
    def repeat(a, n, axis=None): return _np.repeat(obj(a), n, axis)
    @staticmethod
    def expand_dims(a, axis): return _np.expand_dims(obj(a), axis)
    @staticmethod
    def squeeze(a, axis=None): return _np.squeeze(obj(a), axis)
    @staticmethod
    def broadcast_to(a, s): return _np.broadcast_to(obj(a), s)
    @staticmethod
    def atleast_2d(a): return _np.atleast_2d(obj(a))
    @staticmethod
    def swapaxes(a, i, j): return _np.swapaxes(obj(a), i, j)
    @staticmethod
    def moveaxis(a, i, j): return _np.moveaxis(obj(a), i, j)
    @staticmethod
    def split(a, n, axis=0): return _np.split(obj(a), n, axis)
    @staticmethod
    def argmax(a): return _arg(a, lambda x, y: T.lt(y, x))
    @staticmethod
    def argmin(a): return _arg(a, lambda x, y: T.lt(x, y))

    def __getattr__(self, n):
        raise Unsupported(f"numpy.{n}")


NP.ascontiguousarray = NP.asanyarray = NP.asarray
NP.e = T.exp(T.ONE)
np_shim = NP()


class MathShim:
    __name__ = "math"
    pi = T.PI
    inf = T.INF
    nan = T.NAN
    sqrt = staticmethod(lambda x: T.sqrt(x))
    sin = staticmethod(lambda x: T.sin(x))
    cos = staticmethod(lambda x: T.cos(x))
    tan = staticmethod(lambda x: T.tan(x))
    atan = staticmethod(lambda x: T.atan(x))
    atan2 = staticmethod(lambda y, x: T.atan2(y, x))
    acos = staticmethod(lambda x: T.acos(x))
    asin = staticmethod(lambda x: T.asin(x))
    exp = staticmethod(lambda x: T.exp(x))
    log = staticmethod(lambda x: T.log(x))
    fabs = staticmethod(lambda x: T.absn(x))
    floor = staticmethod(lambda x: T.floor(x))
    hypot = staticmethod(lambda x, y: hypot(lift(x), lift(y)))
    isnan = staticmethod(lambda x: T.isnan(x))
    isfinite = staticmethod(lambda x: _isfinite(lift(x)))
    copysign = staticmethod(lambda a, b: NP.copysign(a, b))
    pow = staticmethod(lambda a, b: T.power(lift(a), lift(b)))

    tau = 2 * T.PI
    e = T.exp(T.ONE)
    radians = staticmethod(lambda x: lift(x) * T.PI / 180)
    degrees = staticmethod(lambda x: lift(x) * 180 / T.PI)
    ceil = staticmethod(lambda x: T.neg(T.floor(T.neg(lift(x)))))
    fmod = staticmethod(lambda a, b: fmod(lift(a), lift(b)))
    isinf = staticmethod(lambda x: T.TRUE if lift(x).op in ("inf", "ninf") else T.FALSE)
    fsum = staticmethod(lambda xs: _reduce(obj(list(xs)), T.add, T.ZERO, None))
    prod = staticmethod(lambda xs: _reduce(obj(list(xs)), T.mul, T.ONE, None))
    dist = staticmethod(lambda a, b: norm(obj(list(a)) - obj(list(b))))
    isclose = staticmethod(lambda a, b, rel_tol=1e-9, abs_tol=0.0: T.le(T.absn(lift(a) - lift(b)), T.maxn(lift(rel_tol) * T.maxn(T.absn(lift(a)), T.absn(lift(b))), lift(abs_tol))))

    def __getattr__(self, n):
        raise Unsupported(f"math.{n}")


math_shim = MathShim()
