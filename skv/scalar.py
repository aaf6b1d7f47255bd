"""Symbolic scalars and booleans seen by the code under verification."""
from fractions import Fraction
import builtins
import numbers
from . import term as tm
from .term import T, F, TRUE, FALSE
from . import nf as N
from . import poly as P
from .engine import E, Unsupported


class SymBool:
    """A boolean value; truth-testing it forks the path."""
    __slots__ = ('f',)
    ndim = 0
    shape = ()

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return E.decide(self.f)

    def __and__(self, o):
        return SymBool(tm.and_(self.f, fof(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(tm.or_(self.f, fof(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(tm.not_(self.f))

    def __xor__(self, o):
        return SymBool(tm.not_(tm.iff(self.f, fof(o))))

    def __eq__(self, o):
        if isinstance(o, (SymBool, builtins.bool)):
            return SymBool(tm.iff(self.f, fof(o)))
        return SymNum(bool_num(self.f), 'i') == o

    def __ne__(self, o):
        r = self == o
        return SymBool(tm.not_(fof(r)))

    def __hash__(self):
        return hash(self.f.id)

    def _n(self):
        return SymNum(bool_num(self.f), 'i')

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __int__(self):
        return 1 if self else 0

    def __index__(self):
        return 1 if self else 0

    def __float__(self):
        return 1.0 if self else 0.0

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def all(self):
        return self

    def any(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return f'SymBool({self.f})'


def bool_num(f):
    """0/1 as a number: forks on the condition."""
    return tm.ONE if E.decide(f) else tm.ZERO


def fof(x):
    """Formula of a truth value."""
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, F):
        return x
    if isinstance(x, builtins.bool):
        return TRUE if x else FALSE
    if isinstance(x, SymNum):
        return tm.not_(tm.eq(x.t, tm.ZERO, note=False))
    return TRUE if x else FALSE


def mkbool(f):
    """Python bool when known syntactically, else symbolic."""
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    return SymBool(f)


NP = 'np'


RANKS = {}      # term id -> the rank number (symlinalg.RankNum) it is the value of


class SymNum:
    """A number: kind 'i' or 'f'; np marks NumPy scalars (division by zero gives nan/inf)."""
    __slots__ = ('t', 'kind', 'np')
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, t, kind='f', np=True):
        self.t = t
        self.kind = kind
        self.np = np

    # ---- arithmetic
    def _b(self, o, op, rev=False):
        if isinstance(o, SymNum):
            b, ok, onp = o.t, o.kind, o.np
        elif isinstance(o, SymBool):
            b, ok, onp = bool_num(o.f), 'i', False
        elif isinstance(o, builtins.bool) or type(o) is int:
            b, ok, onp = tm.C(int(o)), 'i', False
        elif isinstance(o, (builtins.float, Fraction)):
            b, ok, onp = tm.C(o), 'f', False
        elif isinstance(o, complex):
            raise Unsupported('complex arithmetic')
        elif self.np and isinstance(o, (list, tuple)) and op in ('+', '-', '/') or (op == '*' and self.kind == 'f' and self.np
                                                                                   and isinstance(o, (list, tuple))):
            from . import symnp           # a NumPy scalar and a sequence: elementwise
            f = {'+': symnp.add, '-': symnp.subtract, '/': symnp.divide, '*': symnp.multiply}[op]
            return f(symnp.asarray(o), self) if rev else f(self, symnp.asarray(o))
        else:
            return NotImplemented
        a, ak = self.t, self.kind
        np = self.np or onp
        if rev:
            a, b, ak, ok = b, a, ok, ak
        kind = 'i' if ak == ok == 'i' else 'f'
        if op == '+':
            return SymNum(tm.add(a, b), kind, np)
        if op == '-':
            return SymNum(tm.sub(a, b), kind, np)
        if op == '*':
            return SymNum(tm.mul(a, b), kind, np)
        if op == '/':
            return SymNum(sdiv(a, b, np), 'f', np)
        if op == '**':
            return SymNum(spow(a, b, kind, ok, np), kind if op != '/' else 'f', np)
        if op == '//':
            q = sdiv(a, b, np)
            return SymNum(tm.fn('floor', q), kind, np)
        if op == '%':
            q = tm.fn('floor', sdiv(a, b, np))
            return SymNum(tm.sub(a, tm.mul(b, q)), kind, np)
        raise Unsupported(op)

    def __add__(self, o): return self._b(o, '+')
    def __radd__(self, o): return self._b(o, '+', True)
    def __sub__(self, o): return self._b(o, '-')
    def __rsub__(self, o): return self._b(o, '-', True)
    def __mul__(self, o): return self._b(o, '*')
    def __rmul__(self, o): return self._b(o, '*', True)
    def __truediv__(self, o): return self._b(o, '/')
    def __rtruediv__(self, o): return self._b(o, '/', True)
    def __floordiv__(self, o): return self._b(o, '//')
    def __rfloordiv__(self, o): return self._b(o, '//', True)
    def __mod__(self, o): return self._b(o, '%')
    def __rmod__(self, o): return self._b(o, '%', True)
    def __pow__(self, o, mod=None): return self._b(o, '**')
    def __rpow__(self, o): return self._b(o, '**', True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymNum(tm.neg(self.t), self.kind, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(tm.abs_(self.t), self.kind, self.np)

    # ---- comparison
    def _c(self, o, f):
        if isinstance(o, SymNum):
            b = o.t
        elif isinstance(o, SymBool):
            b = bool_num(o.f)
        elif isinstance(o, (int, builtins.float, Fraction)):
            b = tm.C(o)
        else:
            return NotImplemented
        return mkbool(f(self.t, b))

    def _rank(self):
        return RANKS.get(self.t.id) if RANKS and type(self) is SymNum else None

    def __lt__(self, o):
        k = self._rank()
        return self._c(o, tm.lt) if k is None else k.__lt__(o)

    def __le__(self, o):
        k = self._rank()
        return self._c(o, tm.le) if k is None else k.__le__(o)

    def __gt__(self, o):
        k = self._rank()
        return self._c(o, lambda a, b: tm.lt(b, a)) if k is None else k.__gt__(o)

    def __ge__(self, o):
        k = self._rank()
        return self._c(o, lambda a, b: tm.le(b, a)) if k is None else k.__ge__(o)


    def __eq__(self, o):
        k = self._rank()
        if k is not None:
            return k.__eq__(o)
        r = self._c(o, tm.eq)
        return False if r is NotImplemented and not hasattr(o, '__array_wrap__') else r

    def __ne__(self, o):
        k = self._rank()
        if k is not None:
            return k.__ne__(o)
        r = self._c(o, lambda a, b: tm.not_(tm.eq(a, b)))
        return True if r is NotImplemented and not hasattr(o, '__array_wrap__') else r

    def __hash__(self):
        if tm.is_c(self.t):
            return hash(tm.cv(self.t))
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        return not E.decide(tm.eq(self.t, tm.ZERO))

    # ---- conversion
    def concrete(self):
        if tm.is_c(self.t):
            return tm.cv(self.t)
        raise Unsupported(f'concrete value of {self.t} needed')

    def __index__(self):
        v = self.concrete()
        if self.kind != 'i':
            raise TypeError('integer required')
        return int(v)

    def __int__(self):
        return int(self.concrete())

    def __float__(self):
        t = self.t
        if t is tm.NAN:
            return builtins.float('nan')
        if t.op == 'inf':
            return builtins.float('inf') * t.args[0]
        return builtins.float(tm.mp(self.concrete()))

    def __round__(self, n=None):
        return round_num(self, n)

    def __floor__(self):
        return SymNum(tm.fn('floor', self.t), 'i', False)

    def __ceil__(self):
        return SymNum(tm.neg(tm.fn('floor', tm.neg(self.t))), 'i', False)

    def __trunc__(self):
        return SymNum(tm.fn('trunc', self.t), 'i', False)

    # ---- NumPy scalar interface
    def round(self, decimals=0):
        return round_num(self, decimals)

    def item(self):
        return SymNum(self.t, self.kind, False)

    def conjugate(self):
        return self

    def is_integer(self):
        return mkbool(tm.eq(tm.fn('floor', self.t), self.t))

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        from . import symnp
        return symnp.Dtype(self.kind)

    def astype(self, dt):
        from . import symnp
        v = symnp.conv(self.t, self.kind, symnp.kind_of(dt))
        nw = symnp.narrow_of(dt)
        return SymNum(symnp.narrowed(v, nw) if nw else v, symnp.kind_of(dt))

    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return SymNum(self.t, 'f')
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def copy(self): return self
    def squeeze(self): return self
    def flatten(self): return self._arr().reshape(-1)
    ravel = flatten

    def reshape(self, *s): return self._arr().reshape(*s)

    def _arr(self):
        from . import symnp
        return symnp.array(self)

    def all(self): return mkbool(fof(self))
    any = all

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        return self._arr()[i]

    def __repr__(self):
        return f'SymNum({self.t})'

    def __format__(self, spec):
        return repr(self)


numbers.Number.register(SymNum)


def round_num(x, n=None):
    if x.kind == 'i' and (n is None or not isinstance(n, SymNum) and n >= 0):
        return x
    nt = tof(0 if n is None else n)
    if tm.special(x.t):
        return x
    t = round_term(x.t, nt)
    return SymNum(t, 'i' if n is None and not x.np else 'f', x.np)


def round_term(t, nt):
    """Round half to even at nt decimals (nt a constant integer or a symbol)."""
    if tm.is_c(nt):
        s = tm.C(Fraction(10) ** int(tm.cv(nt)))
        return tm.div(tm.fn('round', tm.mul(t, s), tm.ZERO), s)
    return tm.fn('roundn', t, nt)


def tof(x):
    """Term of a number."""
    if isinstance(x, SymNum):
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, SymBool):
        return bool_num(x.f)
    if isinstance(x, (builtins.bool, int, builtins.float, Fraction)):
        return tm.C(x)
    if hasattr(x, '_scalar'):
        return x._scalar().t
    if hasattr(x, '__float__') and not hasattr(x, 'f'):
        return tm.C(builtins.float(x))
    if isinstance(x, (str, bytes)) or x is None:
        raise TypeError(f'must be real number, not {type(x).__name__}')
    raise TypeError(f'must be real number, not {type(x).__name__}')


def kindof(x):
    if isinstance(x, SymNum):
        return x.kind
    if isinstance(x, (SymBool, builtins.bool)):
        return 'b'
    if isinstance(x, int):
        return 'i'
    return 'f'


FREEZE = 300


def frozen(t, a):
    """A quotient with a huge numerator is kept as one number: an opaque one, the same for equal quotients."""
    if tm.CONCRETE[0] or tm.special(a) or tm.special(t) or tm.is_c(a) or a.op in ('v', 'el'):
        return t
    try:
        if len(N.nf(a).num) < FREEZE:
            return t
        key = N.nf(t).key()
    except P.TooBig:
        return t
    if any(n in E.facts.idx for n in t.free):
        return t
    return tm.V('quotient#%d' % _FROZEN.setdefault(key, len(_FROZEN)))


_FROZEN = {}


def sdiv(a, b, np=True):
    """Division with the zero-divisor behaviour of NumPy or Python scalars."""
    if tm.is_c(b) or tm.special(b) or tm.special(a):
        zero = tm.is_c(b) and not tm.cv(b)
        if zero:
            tm._note(b, tm.ZERO)
    else:
        zero = E.decide(tm.eq(b, tm.ZERO))
    if not zero:
        return frozen(tm.div(a, b), a)
    if not np:
        raise ZeroDivisionError('division by zero')
    if tm.special(a):
        return a
    if E.decide(tm.eq(a, tm.ZERO)):
        return tm.NAN
    return tm.PINF if E.decide(tm.lt(tm.ZERO, a)) else tm.NINF


def spow(a, b, kind, bkind, np):
    if not tm.is_c(b):
        raise Unsupported('symbolic exponent')
    e = tm.cv(b)
    if e == Fraction(1, 2):
        if E.decide(tm.lt(a, tm.ZERO)):
            if not np:
                raise Unsupported('complex power')
            return tm.NAN
        return tm.sqrt(a)
    if isinstance(e, Fraction) and e.denominator == 1:
        n = int(e)
        if n >= 0:
            if abs(n) > 64:
                raise Unsupported('large exponent')
            return tm.power(a, n)
        if kind == 'i' and np:
            raise ValueError('Integers to negative integer powers are not allowed.')
        return sdiv(tm.ONE, tm.power(a, -n), np)
    if isinstance(e, Fraction) and e.denominator == 2:
        s = spow(a, tm.C(Fraction(1, 2)), kind, bkind, np)
        if s is tm.NAN:
            return s
        n = e.numerator
        return tm.power(s, n) if n > 0 else sdiv(tm.ONE, tm.power(s, -n), np)
    raise Unsupported(f'exponent {e}')


def ssqrt(t, np=True):
    if tm.special(t):
        if not np and t is tm.NINF:
            raise ValueError('math domain error')
        return tm.sqrt(t)
    if E.decide(tm.lt(t, tm.ZERO)):
        if not np:
            raise ValueError('math domain error')
        return tm.NAN
    return tm.sqrt(t)


def sacos(t, np=True):
    if tm.special(t):
        if t.op == 'inf' and not np:
            raise ValueError('math domain error')
        return tm.NAN
    if not (not tm.is_c(t) and E.facts.ev(tm.le(tm.mul(t, t), tm.ONE)) is True) and \
            E.decide(tm.or_(tm.lt(tm.ONE, t), tm.lt(t, tm.C(-1)))):
        if not np:
            raise ValueError('math domain error')
        return tm.NAN
    r = tm.fn('acos', t)
    return r


def isclose_f(a, b, rel=None, ab=None):
    """The documented formula of math.isclose, as a formula."""
    rel = tm.C(Fraction(1, 10 ** 9)) if rel is None else rel
    ab = tm.ZERO if ab is None else ab
    if tm.special(a) or tm.special(b):
        return TRUE if (a is b and a is not tm.NAN) else FALSE
    d = tm.abs_(tm.sub(a, b))
    x, y = tm.abs_(a), tm.abs_(b)
    # |a-b| <= max(rel*max(|a|,|b|), abs); the operand equal to 0 contributes nothing to the maximum
    parts = []
    for z in (x, y):
        if z is not tm.ZERO:
            parts.append(tm.le(d, tm.mul(rel, z)))
    parts.append(tm.le(d, ab))
    return tm.or_(tm.eq(a, b), *parts)
