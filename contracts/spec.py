"""Mathematical specification functions, usable on terms (M = SYM) and on floats (M = FLT)."""
import math
from pyvc import terms as T


class SYM:
    sin, cos, sqrt, exp = staticmethod(T.sin), staticmethod(T.cos), staticmethod(T.sqrt), staticmethod(T.exp)
    tan, atan2, acos = staticmethod(T.tan), staticmethod(T.atan2), staticmethod(T.acos)
    abs = staticmethod(T.absn)
    pi = T.PI
    pow = staticmethod(lambda a, b: T.power(T.lift(a), T.lift(b)))


class FLT:
    sin, cos, sqrt, exp = math.sin, math.cos, math.sqrt, math.exp
    tan, atan2, acos = math.tan, math.atan2, math.acos
    abs = abs
    pi = math.pi
    pow = staticmethod(lambda a, b: a ** b)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def kep_to_mee(M, kep):
    a, e, i, ra, om, ta = kep
    return [a * (1 - e * e), e * M.cos(ra + om), e * M.sin(ra + om), M.tan(i / 2) * M.cos(ra), M.tan(i / 2) * M.sin(ra),
            ra + om + ta]


def perifocal_axes(M, i, ra, om):
    ci, si, cr, sr, co, so = M.cos(i), M.sin(i), M.cos(ra), M.sin(ra), M.cos(om), M.sin(om)
    P = [cr * co - sr * so * ci, sr * co + cr * so * ci, so * si]
    Q = [-cr * so - sr * co * ci, -sr * so + cr * co * ci, co * si]
    W = [sr * si, -cr * si, ci]
    return P, Q, W


def kep_to_rv(M, kep, mu):
    a, e, i, ra, om, ta = kep
    P, Q, W = perifocal_axes(M, i, ra, om)
    p = a * (1 - e * e)
    r = p / (1 + e * M.cos(ta))
    s = M.sqrt(mu / p)
    c, n = M.cos(ta), M.sin(ta)
    return [r * (c * P[k] + n * Q[k]) for k in range(3)] + [s * (-n * P[k] + (e + c) * Q[k]) for k in range(3)]


def mee_to_rv(M, mee, mu):
    p, f, g, h, k, L = mee
    c, s = M.cos(L), M.sin(L)
    al = h * h - k * k
    s2 = 1 + h * h + k * k
    w = 1 + f * c + g * s
    r = p / w
    sm = M.sqrt(mu / p)
    return [r / s2 * (c + al * c + 2 * h * k * s), r / s2 * (s - al * s + 2 * h * k * c), 2 * r / s2 * (h * s - k * c),
            -sm / s2 * (s + al * s - 2 * h * k * c + g - 2 * f * h * k + al * g),
            -sm / s2 * (-c + al * c + 2 * h * k * s - f + 2 * g * h * k + al * f),
            2 * sm / s2 * (h * c + k * s + f * h + g * k)]


def rtn_axes(M, rv):
    r, v = rv[:3], rv[3:]
    rn = M.sqrt(dot(r, r))
    h = cross(r, v)
    hn = M.sqrt(dot(h, h))
    R = [x / rn for x in r]
    N = [x / hn for x in h]
    return R, cross(N, R), N


def ang(x):
    """Angle reduced to (-pi, pi]."""
    return math.atan2(math.sin(x), math.cos(x))


def close(a, b, rtol=1e-8, atol=1e-9):
    if a != a or b != b:
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def allclose(xs, ys, rtol=1e-8, atol=1e-9):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(close(float(x), float(y), rtol, atol) for x, y in zip(xs, ys))
