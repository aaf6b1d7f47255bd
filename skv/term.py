"""Real-valued terms (hash-consed DAG), formulas, and their normal forms.

Values are mathematical reals.  A term is normalised on demand to a rational
function num/den over *atoms* (variables, array elements, sums over symbolic
axes, square roots, absolute values, indicator functions, opaque functions).
"""
from fractions import Fraction
import mpmath
from . import poly as P

mpmath.mp.prec = 420
EPS = mpmath.mpf(2) ** -300

CONCRETE = [False]      # concrete mode: irrational constants become 420-bit numbers


class NonFiniteUse(BaseException):
    """A nan/inf value was used where the reals are needed."""


# ----------------------------------------------------------------------------------
# Terms
# ----------------------------------------------------------------------------------
_tab = {}
_next = [0]


class T:
    __slots__ = ('op', 'args', 'id', 'free', '_nf', '__weakref__')

    def __repr__(self):
        return show(self)


class F:
    __slots__ = ('op', 'args', 'id', 'free')

    def __repr__(self):
        return show_f(self)


def _mk(op, args, free=None):
    key = (op,) + tuple(a.id if isinstance(a, T) else ('F', a.id) if isinstance(a, F) else a for a in args)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        _next[0] += 1
        t.id = _next[0]
        if free is None:
            free = frozenset()
            for a in args:
                if isinstance(a, (T, F)):
                    free = free | a.free
        t.free = free
        t._nf = None
        _tab[key] = t
    return t


def rationalise(x):
    """The rational a float literal stands for: the short decimal or simple fraction it rounds."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    f = Fraction(x)
    if f.denominator <= 4096:
        return f
    g = f.limit_denominator(1000)
    if float(g) == x:
        return g
    return Fraction(repr(x))


def exact(x):
    """The exact rational value of a float (used for concrete inputs)."""
    return Fraction(x)


def C(x):
    if isinstance(x, mpmath.mpf):
        return _mk('c', (x,))
    if not isinstance(x, Fraction):
        if isinstance(x, float):
            if x != x:
                return NAN
            if x in (float('inf'), float('-inf')):
                return PINF if x > 0 else NINF
            x = rationalise(x)
        else:
            x = Fraction(int(x))
    return _mk('c', (x,))


ints = set()        # ids of integer-valued terms (dims, indices)
positive = set()    # ids of variables known to be > 0 (dims)
nonneg = set()


def V(name, integer=False, pos=False, nn=False):
    t = _mk('v', (name,))
    if integer:
        ints.add(t.id)
    if pos:
        positive.add(t.id)
    if nn:
        nonneg.add(t.id)
    return t


_idx = [0]


def fresh_index(hint='k'):
    _idx[0] += 1
    name = f'{hint}!{_idx[0]}'
    t = _mk('v', (name,), frozenset([name]))
    ints.add(t.id)
    nonneg.add(t.id)
    return t


NAN = _mk('nan', ())
PINF = _mk('inf', (1,))
NINF = _mk('inf', (-1,))


def is_c(t):
    return t.op == 'c'


def cv(t):
    return t.args[0]


def special(t):
    return t.op in ('nan', 'inf')


def clean(x):
    """Snap a high-precision constant that is an integer up to 2^-300 (keeps zero tests exact)."""
    if isinstance(x, mpmath.mpf):
        if abs(x) < EPS:
            return Fraction(0)
    return x


def _c2(op, a, b):
    x, y = a.args[0], b.args[0]
    if isinstance(x, mpmath.mpf) or isinstance(y, mpmath.mpf):
        if isinstance(x, Fraction):
            x = mpmath.mpf(x.numerator) / x.denominator
        if isinstance(y, Fraction):
            y = mpmath.mpf(y.numerator) / y.denominator
        if op in '+-':
            r = x + y if op == '+' else x - y
            if abs(r) <= EPS * max(abs(x), abs(y)):
                return C(Fraction(0))
            return C(r)
        return C(clean(x * y if op == '*' else x / y))
    r = x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else x / y
    if CONCRETE[0] and r.denominator.bit_length() > 900:
        return C(mpmath.mpf(r.numerator) / r.denominator)
    return C(r)


ZERO = C(0)
ONE = C(1)
TWO = C(2)


def add(a, b):
    if special(a) or special(b):
        return _sp_add(a, b)
    if is_c(a):
        if is_c(b):
            return _c2('+', a, b)
        if not cv(a):
            return b
    elif is_c(b) and not cv(b):
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk('+', (a, b))


def _sp_add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a.op == 'inf' and b.op == 'inf':
        return a if a is b else NAN
    return a if a.op == 'inf' else b


def neg(a):
    return mul(C(-1), a)


def sub(a, b):
    if a is b and not special(a):
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if special(a) or special(b):
        if a is NAN or b is NAN:
            return NAN
        if a.op != 'inf':
            a, b = b, a
        if b.op == 'inf':
            return PINF if a.args[0] * b.args[0] > 0 else NINF
        if is_c(b):
            if not cv(b):
                return NAN
            return PINF if (cv(b) > 0) == (a is PINF) else NINF
        raise NonFiniteUse('inf * symbolic')
    if is_c(a):
        if is_c(b):
            return _c2('*', a, b)
        if not cv(a):
            return ZERO
        if cv(a) == 1:
            return b
    elif is_c(b):
        if not cv(b):
            return ZERO
        if cv(b) == 1:
            return a
    if a.id > b.id:
        a, b = b, a
    return _mk('*', (a, b))


def div(a, b):
    """a / b; the caller has established b != 0 (or accepts nan)."""
    if special(a) or special(b):
        if a is NAN or b is NAN or (a.op == 'inf' and b.op == 'inf'):
            return NAN
        if b.op == 'inf':
            return ZERO
        return mul(a, b) if not (is_c(b) and not cv(b)) else a
    if is_c(b):
        if not cv(b):
            if is_c(a) and cv(a):
                return PINF if cv(a) > 0 else NINF
            return NAN
        if is_c(a):
            return _c2('/', a, b)
        if cv(b) == 1:
            return a
        if isinstance(cv(b), Fraction):
            return mul(C(1 / cv(b)), a)
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    return _mk('/', (a, b))


def power(a, n):
    if n == 0:
        return ONE
    if n == 1:
        return a
    if n < 0:
        return div(ONE, power(a, -n))
    if a is NAN:
        return NAN
    if a.op == 'inf':
        return a if n % 2 else PINF
    if is_c(a):
        x = cv(a)
        r = x ** n
        if CONCRETE[0] and isinstance(r, Fraction) and r.denominator.bit_length() > 900:
            r = mpmath.mpf(r.numerator) / r.denominator
        return C(clean(r) if isinstance(r, mpmath.mpf) else r)
    return _mk('^', (a, n))


def mp(x):
    if isinstance(x, Fraction):
        return mpmath.mpf(x.numerator) / x.denominator
    return x


def _isqrt(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    """Square root; the caller has established a >= 0."""
    if special(a):
        return a if a is PINF else NAN
    if is_c(a):
        x = cv(a)
        if x < 0:
            return NAN
        if isinstance(x, Fraction):
            p, q = _isqrt(x.numerator), _isqrt(x.denominator)
            if p is not None and q is not None:
                return C(Fraction(p, q))
            if CONCRETE[0]:
                return C(mpmath.sqrt(mp(x)))
        else:
            return C(mpmath.sqrt(x))
    if a.op == '^' and a.args[1] == 2:
        return abs_(a.args[0])
    return _mk('sqrt', (a,))


def abs_(a):
    if a is NAN:
        return NAN
    if a.op == 'inf':
        return PINF
    if is_c(a):
        return C(abs(cv(a)))
    if a.op in ('sqrt', 'abs'):
        return a
    return _mk('abs', (a,))


def fn(name, *args):
    """An opaque function application (sin, cos, acos, atan2, sign, round, floor, ...)."""
    if any(special(a) for a in args):
        return NAN
    if all(is_c(a) for a in args):
        r = _fold_fn(name, [cv(a) for a in args])
        if r is not None:
            return r
    return _mk('fn', (name,) + args)


def _fold_fn(name, xs):
    if name == 'sign':
        return C((xs[0] > 0) - (xs[0] < 0))
    if name == 'floor':
        return C(int(mpmath.floor(mp(xs[0]))))
    if name == 'round':
        # round half to even at the given number of decimals
        x, n = xs
        if isinstance(x, Fraction):
            return C(Fraction(round(x, int(n))))
        s = mpmath.mpf(10) ** int(n)
        return C(Fraction(int(mpmath.nint(x * s))) / Fraction(10) ** int(n))
    if name == 'sin' and xs[0] == 0:
        return ZERO
    if name == 'cos' and xs[0] == 0:
        return ONE
    if name == 'acos' and xs[0] == 1:
        return ZERO
    if name == 'atan2' and xs[0] == 0 and xs[1] >= 0:
        return ZERO
    if name == 'trunc':
        return C(int(xs[0]))
    if name in ('f32', 'f16'):
        import struct
        c = name == 'f32' and 'f' or 'e'
        try:
            return C(Fraction(struct.unpack(c, struct.pack(c, float(xs[0])))[0]))
        except (OverflowError, ValueError):
            return NAN
    if name in ('i32', 'i16', 'i8'):
        h = 1 << (int(name[1:]) - 1)
        return C((int(xs[0]) + h) % (2 * h) - h)
    if not CONCRETE[0]:
        return None
    x = [mp(v) for v in xs]
    if name in ('sin', 'cos', 'tan', 'atan', 'exp', 'log'):
        return C(clean(getattr(mpmath, name)(x[0])))
    if name == 'acos':
        if abs(x[0]) - 1 > mpmath.mpf(10) ** -40:
            return NAN
        return C(clean(mpmath.acos(max(-1, min(1, x[0])))))
    if name == 'asin':
        if abs(x[0]) - 1 > mpmath.mpf(10) ** -40:
            return NAN
        return C(clean(mpmath.asin(max(-1, min(1, x[0])))))
    if name == 'atan2':
        return C(clean(mpmath.atan2(x[0], x[1])))
    return None


def pi():
    if CONCRETE[0]:
        return C(+mpmath.pi)
    return V('pi', pos=True)


def el(arr, idx):
    """Element of an opaque real array; idx are integer terms."""
    return _mk('el', (arr,) + tuple(idx))


def summ(k, dim, body):
    """Sum of body over 0 <= k < dim (k a fresh index variable)."""
    if body is ZERO:
        return ZERO
    if k.args[0] not in body.free:
        return mul(dim, body)
    return _mk('sum', (k, dim, body), (body.free - k.free) | dim.free)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _mk('ite', (c, a, b))


# ----------------------------------------------------------------------------------
# Formulas
# ----------------------------------------------------------------------------------
_ftab = {}


def _mkf(op, args, free=None):
    key = (op,) + tuple(('T', a.id) if isinstance(a, T) else ('F', a.id) if isinstance(a, F) else a for a in args)
    f = _ftab.get(key)
    if f is None:
        f = F.__new__(F)
        f.op = op
        f.args = args
        _next[0] += 1
        f.id = _next[0]
        if free is None:
            free = frozenset()
            for a in args:
                if isinstance(a, (T, F)):
                    free = free | a.free
        f.free = free
        _ftab[key] = f
    return f


TRUE = _mkf('true', ())
FALSE = _mkf('false', ())

# closest relative margin of a constant comparison since the last reset (concrete mode)
MARGIN = [None]


def reset_margin():
    MARGIN[0] = mpmath.mpf(10) ** 9


def _note(a, b):
    if MARGIN[0] is not None:
        d = abs(mp(cv(a)) - mp(cv(b)))
        s = max(abs(mp(cv(a))), abs(mp(cv(b))))
        m = d if (not cv(a) or not cv(b)) else d / s
        if m < MARGIN[0]:
            MARGIN[0] = m


def lt(a, b, note=True):
    if special(a) or special(b):
        return _sp_cmp('lt', a, b)
    if is_c(a) and is_c(b):
        if note:
            _note(a, b)
        return TRUE if cv(sub(a, b)) < 0 else FALSE
    if a is b:
        return FALSE
    return _mkf('lt', (sub(a, b),))


def le(a, b, note=True):
    if special(a) or special(b):
        return _sp_cmp('le', a, b)
    if is_c(a) and is_c(b):
        if note:
            _note(a, b)
        return TRUE if cv(sub(a, b)) <= 0 else FALSE
    if a is b:
        return TRUE
    return _mkf('le', (sub(a, b),))


def eq(a, b, note=True):
    if special(a) or special(b):
        return TRUE if (a is b and a is not NAN) else FALSE
    if is_c(a) and is_c(b):
        if note:
            _note(a, b)
        return TRUE if cv(sub(a, b)) == 0 else FALSE
    if a is b:
        return TRUE
    return _mkf('eq', (sub(a, b),))


def _sp_cmp(op, a, b):
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return TRUE if op == 'le' else FALSE
    if a.op == 'inf':
        return TRUE if a is NINF else FALSE
    return TRUE if b is PINF else FALSE


def not_(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == 'not':
        return f.args[0]
    return _mkf('not', (f,))


def and_(*fs):
    out = []
    for f in fs:
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        for g in (f.args if f.op == 'and' else (f,)):
            if g not in out:
                out.append(g)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda f: f.id)
    return _mkf('and', tuple(out))


def or_(*fs):
    return not_(and_(*[not_(f) for f in fs]))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return and_(implies(a, b), implies(b, a))


def all_(k, dim, body):
    if body in (TRUE, FALSE):
        return body          # dims are positive
    if k.args[0] not in body.free:
        return body
    if body.op == 'and':
        return and_(*[all_(k, dim, b) for b in body.args])
    return _mkf('all', (k, dim, body), (body.free - k.free) | dim.free)


def pred(name, *args):
    return _mkf('pred', (name,) + args)


# ----------------------------------------------------------------------------------
# Substitution
# ----------------------------------------------------------------------------------
def subst(x, m, cache=None):
    """Replace variables (dict T -> T) in a term or formula."""
    names = frozenset(v.args[0] for v in m if v.op == 'v')
    if cache is None:
        cache = {}
    return _subst(x, m, names, cache)


def _subst(x, m, names, cache):
    r = cache.get(x.id)
    if r is not None:
        return r
    if isinstance(x, T) and x in m:
        r = m[x]
    elif isinstance(x, T) and x.op in ('v', 'c', 'nan', 'inf'):
        r = x
    elif isinstance(x, F) and x.op in ('true', 'false'):
        r = x
    else:
        a = [(_subst(y, m, names, cache) if isinstance(y, (T, F)) else y) for y in x.args]
        op = x.op
        if isinstance(x, T):
            if op == '+':
                r = add(*a)
            elif op == '*':
                r = mul(*a)
            elif op == '/':
                r = div(*a)
            elif op == '^':
                r = power(*a)
            elif op == 'sqrt':
                r = sqrt(*a)
            elif op == 'abs':
                r = abs_(*a)
            elif op == 'fn':
                r = fn(*a)
            elif op == 'el':
                r = el(a[0], a[1:])
            elif op == 'sum':
                r = summ(*a)
            elif op == 'ite':
                r = ite(*a)
            else:
                raise ValueError(op)
        else:
            if op in ('lt', 'le', 'eq'):
                r = dict(lt=lt, le=le, eq=eq)[op](a[0], ZERO)
            elif op == 'not':
                r = not_(a[0])
            elif op == 'and':
                r = and_(*a)
            elif op == 'all':
                r = all_(*a)
            elif op == 'pred':
                r = pred(*a)
            else:
                raise ValueError(op)
    cache[x.id] = r
    return r


# ----------------------------------------------------------------------------------
# Printing
# ----------------------------------------------------------------------------------
def show(t, d=0):
    if d > 7:
        return '…'
    op, a = t.op, t.args
    if op == 'c':
        return str(a[0]) if isinstance(a[0], Fraction) else mpmath.nstr(a[0], 12)
    if op == 'v':
        return a[0]
    if op == 'el':
        return f"{a[0]}[{','.join(show(i, d + 1) for i in a[1:])}]"
    if op in '+*/':
        return '(' + f' {op} '.join(show(x, d + 1) for x in a) + ')'
    if op == '^':
        return f'{show(a[0], d + 1)}^{a[1]}'
    if op in ('sqrt', 'abs'):
        return f'{op}({show(a[0], d + 1)})'
    if op == 'fn':
        return f"{a[0]}({', '.join(show(x, d + 1) for x in a[1:])})"
    if op == 'sum':
        return f'Σ{a[0].args[0]}<{show(a[1])}({show(a[2], d + 1)})'
    if op == 'ite':
        return f'({show_f(a[0], d + 1)} ? {show(a[1], d + 1)} : {show(a[2], d + 1)})'
    return op if op != 'inf' else ('inf' if a[0] > 0 else '-inf')


def show_f(f, d=0):
    op, a = f.op, f.args
    if op in ('lt', 'le', 'eq'):
        return show(a[0], d + 1) + {'lt': ' < 0', 'le': ' <= 0', 'eq': ' == 0'}[op]
    if op == 'not':
        return f'not({show_f(a[0], d + 1)})'
    if op == 'and':
        return '(' + ' and '.join(show_f(x, d + 1) for x in a) + ')'
    if op == 'all':
        return f'∀{a[0].args[0]}<{show(a[1])}: {show_f(a[2], d + 1)}'
    if op == 'pred':
        return f"{a[0]}({', '.join(show(x) if isinstance(x, T) else str(x) for x in a[1:])})"
    return op
