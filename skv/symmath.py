"""Assumed contracts of the math module (exact arithmetic)."""
import builtins
from fractions import Fraction
from . import term as tm
from .engine import E, Unsupported
from .scalar import SymNum, SymBool, tof, fof, mkbool, isclose_f, ssqrt, sacos, sdiv, spow, kindof

inf = builtins.float('inf')
nan = builtins.float('nan')
e = 2.718281828459045


def _r(t, kind='f'):
    return SymNum(t, kind, False)


def isclose(a, b, *, rel_tol=None, abs_tol=None):
    ta, tb = tof(a), tof(b)
    r = None if rel_tol is None else tof(rel_tol)
    s = None if abs_tol is None else tof(abs_tol)
    neg = []
    if r is not None:
        neg.append(tm.lt(r, tm.ZERO, note=False))
    if s is not None:
        neg.append(tm.lt(s, tm.ZERO, note=False))
    if neg and E.decide(tm.or_(*neg)):
        raise ValueError('tolerances must be non-negative')
    return mkbool(isclose_f(ta, tb, r, s))


def sqrt(x):
    return _r(ssqrt(tof(x), False))


def acos(x):
    return _r(sacos(tof(x), False))


def asin(x):
    t = sacos(tof(x), False)
    return _r(tm.sub(tm.mul(tm.C(Fraction(1, 2)), tm.pi()), t))


def atan2(y, x):
    return _r(tm.fn('atan2', tof(y), tof(x)))


def atan(x):
    return _r(tm.fn('atan2', tof(x), tm.ONE))


def sin(x):
    return _r(tm.fn('sin', tof(x)))


def cos(x):
    return _r(tm.fn('cos', tof(x)))


def tan(x):
    return _r(sdiv(tm.fn('sin', tof(x)), tm.fn('cos', tof(x)), False))


def fabs(x):
    return _r(tm.abs_(tof(x)))


def hypot(*xs):
    s = tm.ZERO
    for x in xs:
        s = tm.add(s, tm.power(tof(x), 2))
    return _r(tm.sqrt(s))


def dist(p, q):
    p, q = list(p), list(q)
    if len(p) != len(q):
        raise ValueError('both points must have the same number of dimensions')
    return hypot(*[a - b for a, b in zip(p, q)])


def degrees(x):
    return _r(tm.div(tm.mul(tm.C(180), tof(x)), tm.pi()))


def radians(x):
    return _r(tm.mul(tm.div(tof(x), tm.C(180)), tm.pi()))


def isnan(x):
    return tof(x) is tm.NAN


def isinf(x):
    return tof(x).op == 'inf'


def isfinite(x):
    return not tm.special(tof(x))


def copysign(x, y):
    a = tm.abs_(tof(x))
    return _r(tm.neg(a)) if E.decide(tm.lt(tof(y), tm.ZERO)) else _r(a)


def floor(x):
    return _r(tm.fn('floor', tof(x)), 'i')


def ceil(x):
    return _r(tm.neg(tm.fn('floor', tm.neg(tof(x)))), 'i')


def trunc(x):
    return _r(tm.fn('trunc', tof(x)), 'i')


def pow(x, y):
    return _r(spow(tof(x), tof(y), 'f', 'f', False))


def fsum(xs):
    s = tm.ZERO
    for x in xs:
        s = tm.add(s, tof(x))
    return _r(s)


def prod(xs, start=1):
    s = tof(start)
    for x in xs:
        s = tm.mul(s, tof(x))
    return _r(s)


def sumprod(p, q):
    s = tm.ZERO
    for x, y in zip(p, q):
        s = tm.add(s, tm.mul(tof(x), tof(y)))
    return _r(s)


def __getattr__(name):
    if name == 'pi':
        return _r(tm.pi())
    if name == 'tau':
        return _r(tm.mul(tm.TWO, tm.pi()))
    if name.startswith('__'):
        raise AttributeError(name)
    raise Unsupported(f'math.{name}')
