"""Symbolic NumPy: the assumed contracts of the NumPy functions used by the code.

Arrays hold real terms (or formulas, for boolean arrays).  Dimensions are Python ints or
integer terms (unbounded).  The module object of this file *is* `numpy` for the code
under verification.
"""
import builtins
import itertools
from fractions import Fraction
from . import term as tm
from . import nf as N
from . import poly as P
from .term import T, F, TRUE, FALSE
from .engine import E, Unsupported, PathEnd
from .scalar import (SymNum, SymBool, tof, fof, mkbool, kindof, sdiv, spow, ssqrt, sacos, round_term, bool_num)

_int, _float, _bool, _len, _abs, _min, _max, _sum, _any, _all, _round, _range = (
    builtins.int, builtins.float, builtins.bool, builtins.len, builtins.abs, builtins.min, builtins.max,
    builtins.sum, builtins.any, builtins.all, builtins.round, builtins.range)


# ----------------------------------------------------------------------------------
# dtypes
# ----------------------------------------------------------------------------------
class Dtype:
    def __init__(self, kind):
        self.kind = kind
        self.char = {'f': 'd', 'i': 'l', 'b': '?', 'O': 'O'}[kind]
        self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object'}[kind]
        self.itemsize = 8

    @property
    def type(self):
        return {'f': float64, 'i': int64, 'b': bool_, 'O': object_}[self.kind]

    def __eq__(self, o):
        try:
            return not narrow_of(o) and self.kind == kind_of(o)
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"dtype('{self.name}')"


class _ScalarType(type):
    def __instancecheck__(cls, x):
        if cls in (number, generic):
            return isinstance(x, (SymNum, SymBool))
        if cls is bool_:
            return isinstance(x, SymBool)
        if isinstance(x, SymNum) and x.np:
            if cls is floating or cls is float64:
                return x.kind == 'f'
            if cls is integer or cls is int64:
                return x.kind == 'i'
        return False


class generic(metaclass=_ScalarType):
    pass


class number(generic):
    pass


class floating(number):
    pass


class integer(number):
    pass


class float64(floating):
    def __new__(cls, x=0):
        if isinstance(x, ndarray):
            return x.astype('f') if x.ndim else SymNum(x._scalar().t, 'f')
        return SymNum(tof(x), 'f')


class int64(integer):
    def __new__(cls, x=0):
        return SymNum(conv(tof(x), kindof(x), 'i'), 'i')


class bool_(generic):
    def __new__(cls, x=False):
        return mkbool(fof(x))


class object_(generic):
    pass


# narrower types: every value goes through a rounding (or wrapping) function of which the prover knows nothing
def _narrow_type(name, fn, kind, base):
    def __new__(cls, x=0):
        if isinstance(x, ndarray) and x.ndim:
            return x.astype(cls)
        x = x._scalar() if isinstance(x, ndarray) else x
        return SymNum(narrowed(conv(tof(x), kindof(x), kind), fn), kind)
    return type(name, (base,), {'__new__': __new__, '_narrow': fn, '_kind': kind})


float32 = single = _narrow_type('float32', 'f32', 'f', floating)
float16 = half = _narrow_type('float16', 'f16', 'f', floating)
int32 = intc = _narrow_type('int32', 'i32', 'i', integer)
int16 = short = _narrow_type('int16', 'i16', 'i', integer)
int8 = byte = _narrow_type('int8', 'i8', 'i', integer)
_NARROW = {'float32': float32, 'f4': float32, '<f4': float32, 'float16': float16, 'f2': float16, 'e': float16,
           'int32': int32, 'i4': int32, '<i4': int32, 'int16': int16, 'i2': int16, 'h': int16, 'int8': int8, 'i1': int8}


def narrow_of(dt):
    if isinstance(dt, str):
        dt = _NARROW.get(dt)
    return getattr(dt, '_narrow', None)


def narrowed(v, fn):
    return tm.fn(fn, v) if isinstance(v, T) else v


double = float_ = float64
int_ = intp = int64
signedinteger = integer
inexact = floating


def dtype(x):
    return Dtype(wide_kind(x))


def kind_of(dt):
    if dt is None:
        return None
    if isinstance(dt, Dtype):
        return dt.kind
    if isinstance(dt, str):
        if dt in ('f', 'd', 'float', 'float64', 'f8', '<f8', 'double'):
            return 'f'
        if dt in ('i', 'l', 'int', 'int64', 'i8', '<i8'):
            return 'i'
        if dt in ('b', '?', 'bool'):
            return 'b'
        if dt in ('O', 'object'):
            return 'O'
        if dt in _NARROW:
            return _NARROW[dt]._kind
        raise Unsupported(f'dtype {dt}')
    if getattr(dt, '_narrow', None):
        return dt._kind
    if dt in (float64, floating, number) or getattr(dt, '_skv_type', None) == 'float' or dt is _float:
        return 'f'
    if dt in (int64, integer) or getattr(dt, '_skv_type', None) == 'int' or dt is _int:
        return 'i'
    if dt is bool_ or getattr(dt, '_skv_type', None) == 'bool' or dt is _bool:
        return 'b'
    if dt is object or dt is object_:
        return 'O'
    raise Unsupported(f'dtype {dt!r}')


def wide_kind(dt):
    if narrow_of(dt):
        raise Unsupported(f'narrow type {dt}')
    return kind_of(dt)


def conv(v, k0, k1):
    """Value conversion between kinds."""
    if k1 is None or k0 == k1 or k1 == 'O':
        return v
    if k0 == 'b':
        return bool_num(v) if isinstance(v, F) else v
    if k1 == 'b':
        return tm.not_(tm.eq(v, tm.ZERO)) if isinstance(v, T) else v
    if k0 == 'f' and k1 == 'i':
        return tm.fn('trunc', v)
    return v


def join(a, b):
    order = 'bifO'
    return a if order.index(a) >= order.index(b) else b


# ----------------------------------------------------------------------------------
# dimensions and indices
# ----------------------------------------------------------------------------------
def is_int(d):
    return isinstance(d, _int)


def dt_(d):
    return tm.C(d) if is_int(d) else d


def dim(x):
    """A dimension from a user-level integer."""
    if isinstance(x, T):
        return _int(tm.cv(x)) if tm.is_c(x) else linear_dim(x)
    if isinstance(x, SymNum):
        if x.kind != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        r = x.t
        if tm.is_c(r):
            return _int(tm.cv(r))
        return linear_dim(r)
    if isinstance(x, SymBool):
        return 1 if x else 0
    return x.__index__()


def linear_dim(t):
    """One term (or int) for each linear integer expression over dimensions."""
    if t.op == 'v':
        return t
    q = N.nf(t)
    if q.den:
        return t
    if P.is_const(q.num):
        return _int(P.const_val(q.num))
    rest = q.num.get((), 0)
    parts = []
    for m, c in q.num.items():
        if m == ():
            continue
        if _len(m) != 1 or m[0][1] != 1 or Fraction(c).denominator != 1:
            return t
        A = N.atoms[m[0][0]]
        if A.kind != 'v' or not isinstance(A.data, str):
            return t
        parts.append((A.data, c))
    r = None
    for name, c in sorted(parts):
        v = tm._mk('v', (name,), frozenset([name]))
        if c != 1:
            v = tm.mul(tm.C(c), v)
        r = v if r is None else tm.add(r, v)
    return tm.add(r, tm.C(rest)) if rest else r


def udim(d):
    """User-level integer of a dimension."""
    return d if is_int(d) else SymNum(d, 'i', False)


def dsub(a, b):
    if is_int(a) and is_int(b):
        return a - b
    return dim(tm.sub(dt_(a), dt_(b)))


def dadd(a, b):
    if is_int(a) and is_int(b):
        return a + b
    return dim(tm.add(dt_(a), dt_(b)))


def dmul(a, b):
    if is_int(a) and is_int(b):
        return a * b
    return dim(tm.mul(dt_(a), dt_(b)))


def deq(a, b):
    if is_int(a) and is_int(b):
        return a == b
    if a is b:
        return True
    return E.decide(tm.eq(dt_(a), dt_(b)))


def dlt(a, b):
    if is_int(a) and is_int(b):
        return a < b
    return E.decide(tm.lt(dt_(a), dt_(b)))


def ix(i):
    return tm.C(i) if is_int(i) else i


def bshape(s1, s2):
    """Broadcast two shapes."""
    out = []
    n = _max(_len(s1), _len(s2))
    for i in _range(1, n + 1):
        a = s1[-i] if i <= _len(s1) else 1
        b = s2[-i] if i <= _len(s2) else 1
        if is_int(a) and a == 1:
            out.append(b)
        elif is_int(b) and b == 1:
            out.append(a)
        elif deq(a, b):
            out.append(a if is_int(a) else b if is_int(b) else a)
        elif not is_int(a) and deq(a, 1):
            out.append(b)
        elif not is_int(b) and deq(b, 1):
            out.append(a)
        else:
            raise ValueError('operands could not be broadcast together with shapes')
    return tuple(reversed(out))


MAX_DENSE = 512


def size_of(shape):
    n = 1
    for d in shape:
        n = dmul(n, d)
    return n


# ----------------------------------------------------------------------------------
# Buffers
# ----------------------------------------------------------------------------------
class Buf:
    __slots__ = ('shape', 'kind', 'fn', 'dense', 'writes', 'memo', 'origin', 'wcount')

    def __init__(self, shape, kind, fn=None, dense=None, origin=None):
        self.shape = shape
        self.kind = kind
        self.origin = origin
        self.writes = []
        self.memo = {}
        self.wcount = 0
        self.dense = dense
        self.fn = fn
        if dense is None and _all(is_int(d) for d in shape):
            n = 1
            for d in shape:
                n *= d
            if n <= MAX_DENSE:
                self.dense = [fn(i) for i in itertools.product(*[_range(d) for d in shape])]
                self.fn = None

    def flat(self, idx):
        o = 0
        for i, d in zip(idx, self.shape):
            o = o * d + i
        return o

    def get(self, idx):
        if self.dense is not None:
            if _all(is_int(i) for i in idx):
                return self.dense[self.flat(idx)]
            return self._symget(idx)
        k = (tuple(i if is_int(i) else ('t', i.id) for i in idx), _len(self.writes))
        v = self.memo.get(k)
        if v is None:
            v = self._lazy(idx)
            self.memo[k] = v
        return v

    def _lazy(self, idx):
        v = self.fn(idx)
        for match, val in self.writes:
            v = _sel(match(idx), val(idx), v)
        return v

    def _symget(self, idx):
        for p, i in enumerate(idx):
            if not is_int(i):
                v = None
                for j in _range(self.shape[p] - 1, -1, -1):
                    x = self.get(idx[:p] + (j,) + idx[p + 1:])
                    v = x if v is None else _sel(tm.eq(i, tm.C(j), note=False), x, v)
                return v

    def snapshot(self):
        """A getter for the present contents."""
        if self.dense is not None:
            d = list(self.dense)
            b = Buf(self.shape, self.kind, dense=d)
            return b.get
        if not self.writes:
            return self._base_get
        b = Buf.__new__(Buf)
        b.shape, b.kind, b.fn, b.dense, b.origin, b.wcount = self.shape, self.kind, self.fn, None, None, 0
        b.writes = list(self.writes)
        b.memo = {}
        return b.get

    def _base_get(self, idx):
        k = (tuple(i if is_int(i) else ('t', i.id) for i in idx), 0)
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = self.fn(idx)
        return v

    def put(self, match, val):
        """Write val(idx) where the formula match(idx) holds."""
        self.wcount += 1
        if self.dense is not None:
            for i in itertools.product(*[_range(d) for d in self.shape]):
                m = match(i)
                if m is not FALSE:
                    o = self.flat(i)
                    self.dense[o] = _sel(m, val(i), self.dense[o])
        else:
            self.writes.append((match, val))


def _sel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, F) or isinstance(b, F):
        return tm.or_(tm.and_(c, a), tm.and_(tm.not_(c), b))
    return tm.ite(c, a, b)


# ----------------------------------------------------------------------------------
# ndarray
# ----------------------------------------------------------------------------------
class flagsobj:
    def __init__(self, a):
        self.a = a
        self.writeable = True
        self.c_contiguous = True
        self.owndata = True


class ndarray:
    __array_priority__ = 0.0
    _skv_scalar0 = True

    def __new__(cls, shape=(), dtype=float, buffer=None, **kw):
        raise Unsupported('ndarray constructor')

    # ---- construction (internal)
    @staticmethod
    def _make(buf, vmap=None, shape=None, cls=None):
        a = object.__new__(ndarray if cls is None else cls)
        object.__setattr__(a, '_buf', buf)
        object.__setattr__(a, '_vmap', vmap)
        object.__setattr__(a, '_shape', buf.shape if shape is None else shape)
        return a

    def _get(self, idx):
        b = self._buf
        return b.get(idx if self._vmap is None else self._vmap(idx))

    def _snap(self):
        g = self._buf.snapshot()
        vm = self._vmap
        if vm is None:
            return g
        return lambda idx: g(vm(idx))

    @property
    def _kind(self):
        return self._buf.kind

    def _scalar(self):
        if self._shape != ():
            if _all(is_int(d) and d == 1 for d in self._shape):
                return box(self._get(tuple(0 for _ in self._shape)), self._kind)
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return box(self._get(()), self._kind)

    # ---- attributes
    @property
    def shape(self):
        return tuple(udim(d) for d in self._shape)

    @shape.setter
    def shape(self, s):
        b = self.reshape(s)
        object.__setattr__(self, '_vmap', b._vmap)
        object.__setattr__(self, '_shape', b._shape)

    @property
    def ndim(self):
        return _len(self._shape)

    @property
    def size(self):
        return udim(size_of(self._shape))

    @property
    def dtype(self):
        return Dtype(self._kind)

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return self.size * 8

    @property
    def flags(self):
        return flagsobj(self)

    @property
    def base(self):
        return None if self._vmap is None else self._buf

    @property
    def flat(self):
        return iter(self.ravel())

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self

    @property
    def __array_interface__(self):
        return {'data': (id(self._buf), False), 'shape': self.shape}

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, array, context=None, return_scalar=False):
        if return_scalar:
            return array[()]
        return array.view(type(self)) if type(self) is not ndarray else array

    def view(self, cls=None, **kw):
        if cls is None:
            cls = type(self)
        if not (isinstance(cls, type) and issubclass(cls, ndarray)):
            k = wide_kind(cls)
            if k != self._kind:
                raise Unsupported('view as another dtype')
            cls = type(self)
        a = ndarray._make(self._buf, self._vmap, self._shape, cls)
        if cls is not ndarray:
            a.__array_finalize__(self)
        return a

    def _viewlike(self, vmap, shape):
        a = ndarray._make(self._buf, vmap, shape, type(self))
        if type(self) is not ndarray:
            a.__array_finalize__(self)
        return a

    # ---- python protocol
    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        d = self._shape[0]
        if is_int(d):
            return d
        raise Unsupported('len() of a symbolic dimension')

    def _len(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return udim(self._shape[0])

    def __iter__(self):
        if not self._shape:
            raise TypeError('iteration over a 0-d array')
        d = self._shape[0]
        i = 0
        while True:
            if is_int(d):
                if i >= d:
                    return
            else:
                if i > 6:
                    raise Unsupported('iteration over a symbolic dimension')
                if not E.decide(tm.lt(tm.C(i), d)):
                    return
            yield self[i]
            i += 1

    def __contains__(self, x):
        return _bool((self == x).any())

    def __bool__(self):
        if _all(is_int(d) and d == 1 for d in self._shape):
            return _bool(self._scalar())
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __float__(self):
        return _float(self._scalar())

    def __int__(self):
        return _int(self._scalar())

    def __index__(self):
        if self._shape != ():
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return self._scalar().__index__()

    __hash__ = None

    def __repr__(self):
        return array_repr(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    # ---- indexing
    def __getitem__(self, key):
        r = _index(self, key)
        if r[0] == 'view':
            _, vmap, shape = r
            if shape == () and not r[0] == 'viewkeep':
                return box(self._buf.get(vmap(())), self._kind)
            return self._viewlike(vmap, shape)
        _, fn, shape = r
        if shape == ():
            return box(fn(()), self._kind)
        a = ndarray._make(Buf(shape, self._kind, fn), cls=type(self))
        if type(self) is not ndarray:
            a.__array_finalize__(self)
        return a

    def __setitem__(self, key, value):
        _store(self, key, value)

    # ---- arithmetic
    def __add__(self, o): return _bin(add, self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return _bin(subtract, self, o)
    def __rsub__(self, o): return subtract(o, self)
    def __mul__(self, o): return _bin(multiply, self, o)
    def __rmul__(self, o): return multiply(o, self)
    def __truediv__(self, o): return _bin(divide, self, o)
    def __rtruediv__(self, o): return divide(o, self)
    def __floordiv__(self, o): return floor_divide(self, o)
    def __rfloordiv__(self, o): return floor_divide(o, self)
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return mod(o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __neg__(self): return negative(self)
    def __pos__(self): return positive(self)
    def __abs__(self): return absolute(self)
    def __invert__(self): return logical_not(self)
    def __and__(self, o): return logical_and(self, o)
    def __rand__(self, o): return logical_and(o, self)
    def __or__(self, o): return logical_or(self, o)
    def __ror__(self, o): return logical_or(o, self)
    def __lt__(self, o): return less(self, o)
    def __le__(self, o): return less_equal(self, o)
    def __gt__(self, o): return greater(self, o)
    def __ge__(self, o): return greater_equal(self, o)
    def __eq__(self, o): return equal(self, o)
    def __ne__(self, o): return not_equal(self, o)

    def _iop(self, op, o):
        r = op(self, o)
        if kindof_arr(r) == 'f' and self._kind in 'ib':
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        if isinstance(r, ndarray) and r._shape != self._shape:
            if not (_len(r._shape) == _len(self._shape) and _all(deq(a, b) for a, b in zip(r._shape, self._shape))):
                raise ValueError('non-broadcastable output operand')
        self[...] = r
        return self

    def __iadd__(self, o): return self._iop(add, o)
    def __isub__(self, o): return self._iop(subtract, o)
    def __imul__(self, o): return self._iop(multiply, o)
    def __itruediv__(self, o): return self._iop(divide, o)
    def __ipow__(self, o): return self._iop(power, o)

    # ---- methods
    def copy(self, order='C'):
        a = ndarray._make(Buf(self._shape, self._kind, self._snap()), cls=type(self))
        if type(self) is not ndarray:
            a.__array_finalize__(self)
        return a

    def astype(self, dt, copy=True, **kw):
        k = kind_of(dt)
        g, k0 = self._snap(), self._kind
        if k0 == 'b' and k != 'b':
            for d in self._shape:
                if not is_int(d):
                    raise Unsupported('bool to number with symbolic size')
        nw = narrow_of(dt)
        a = ndarray._make(Buf(self._shape, k, (lambda i: narrowed(conv(g(i), k0, k), nw)) if nw else (lambda i: conv(g(i), k0, k))), cls=type(self))
        if type(self) is not ndarray:
            a.__array_finalize__(self)
        return a

    def tolist(self):
        if not self._shape:
            return self._scalar().item()
        return [(x.tolist() if isinstance(x, ndarray) else x.item() if isinstance(x, (SymNum, SymBool)) else x) for x in self]

    def item(self, *a):
        if a:
            return self[a if _len(a) > 1 else a[0]].item()
        return self._scalar().item()

    def fill(self, v):
        self[...] = v

    def transpose(self, *axes):
        if _len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = self.ndim
        if not axes or axes == (None,):
            axes = tuple(reversed(_range(n)))
        inv = [0] * n
        for i, a in enumerate(axes):
            inv[a] = i
        vm = self._vmap

        def vmap(idx):
            j = tuple(idx[inv[p]] for p in _range(n))
            return j if vm is None else vm(j)
        return self._viewlike(vmap, tuple(self._shape[a] for a in axes))

    def swapaxes(self, a, b):
        ax = list(_range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *s, order='C'):
        if _len(s) == 1 and not isinstance(s[0], (_int, SymNum)):
            s = tuple(s[0])
        return _reshape(self, tuple(dim(x) for x in s))

    def ravel(self, order='C'):
        if self.ndim == 1:
            return self._viewlike(self._vmap, self._shape)
        return _reshape(self, (-1,))

    def flatten(self, order='C'):
        return self.ravel().copy()

    def squeeze(self, axis=None):
        s = self._shape
        if axis is None:
            keep = [i for i, d in enumerate(s) if not (is_int(d) and d == 1)]
        else:
            ax = axis % self.ndim
            if not deq(s[ax], 1):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
            keep = [i for i in _range(self.ndim) if i != ax]
        vm = self._vmap
        n = self.ndim

        def vmap(idx):
            j = [0] * n
            for p, i in zip(keep, idx):
                j[p] = i
            j = tuple(j)
            return j if vm is None else vm(j)
        return self._viewlike(vmap, tuple(s[i] for i in keep))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw): return sum(self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **kw)
    def prod(self, axis=None, **kw): return prod(self, axis=axis, **kw)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw): return mean(self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **kw)
    def max(self, axis=None, **kw): return amax(self, axis=axis, **kw)
    def min(self, axis=None, **kw): return amin(self, axis=axis, **kw)
    def argmax(self, axis=None): return argmax(self, axis=axis)
    def argmin(self, axis=None): return argmin(self, axis=axis)
    def all(self, axis=None, **kw): return all(self, axis=axis, **kw)
    def any(self, axis=None, **kw): return any(self, axis=axis, **kw)
    def dot(self, o): return dot(self, o)
    def trace(self): return trace(self)
    def round(self, decimals=0, out=None): return around(self, decimals, out)
    def clip(self, lo=None, hi=None, out=None): return clip(self, lo, hi)
    def cumsum(self, axis=None): return cumsum(self, axis)
    def conj(self): return self
    def var(self, axis=None): return var(self, axis)
    def std(self, axis=None): return std(self, axis)
    def ptp(self, axis=None): return self.max(axis) - self.min(axis)
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def diagonal(self): return diag(self)
    def setflags(self, **kw): pass

    def sort(self, axis=-1):
        r = sort(self, axis)
        self[...] = r

    def nonzero(self):
        return where(self)


def kindof_arr(r):
    return r._kind if isinstance(r, ndarray) else kindof(r)


def box(v, kind):
    """An element as a NumPy scalar."""
    if isinstance(v, F):
        return mkbool(v)
    return SymNum(v, kind if kind != 'b' else 'i')


def unbox(x):
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, _bool):
        return TRUE if x else FALSE
    return tof(x)


# ----------------------------------------------------------------------------------
# Indexing
# ----------------------------------------------------------------------------------
def _norm_int(i, d):
    """A bounds-checked, non-negative index along a dimension."""
    if isinstance(i, SymNum):
        if i.kind != 'i':
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                             'boolean arrays are valid indices')
        i = i.t
        if tm.is_c(i):
            i = _int(tm.cv(i))
    elif not isinstance(i, T):
        i = i.__index__()
    if is_int(i):
        if is_int(d):
            if not -d <= i < d:
                raise IndexError(f'index {i} is out of bounds for axis with size {d}')
            return i % d
        if i >= 0:
            if not E.decide(tm.lt(tm.C(i), d)):
                raise IndexError(f'index {i} is out of bounds')
            return i
        if not E.decide(tm.le(tm.C(-i), d)):
            raise IndexError(f'index {i} is out of bounds')
        return tm.add(d, tm.C(i))
    # symbolic index
    if in_range(i, d):
        return i
    if E.decide(tm.lt(i, tm.ZERO)):
        i = tm.add(i, dt_(d))
        if not E.decide(tm.le(tm.ZERO, i)):
            raise IndexError('index out of bounds')
        return i
    if not E.decide(tm.lt(i, dt_(d))):
        raise IndexError('index out of bounds')
    return i


def in_range(i, d):
    """Syntactic knowledge that 0 <= i < d."""
    if i.op == 'v' and i.args[0] in E.facts.idx:
        dd = E.facts.idx[i.args[0]]
        return dd is dt_(d) or (tm.is_c(dd) and tm.is_c(dt_(d)) and tm.cv(dd) <= tm.cv(dt_(d)))
    return False


def generic(d, hint='k'):
    """A fresh index variable ranging over the dimension d."""
    k = tm.fresh_index(hint)
    E.facts.idx[k.args[0]] = dt_(d)
    return k


def wrap_idx(i, d):
    """Index value with negative wrap-around as an ite (for generic fancy indices)."""
    if is_int(i):
        return _norm_int(i, d)
    if tm.is_c(i):
        return _norm_int(_int(tm.cv(i)), d)
    if in_range(i, d):
        return i
    return tm.ite(tm.lt(i, tm.ZERO), tm.add(i, dt_(d)), i)


def _slice(s, d):
    """(start, length, step) of a slice over dimension d."""
    step = 1 if s.step is None else s.step
    step = dim(step)
    if not is_int(step):
        raise Unsupported('symbolic slice step')
    if step == 0:
        raise ValueError('slice step cannot be zero')

    def clampdim(v, lo, default):
        if v is None:
            return default
        v = dim(v)
        if is_int(v) and is_int(d):
            if v < 0:
                v += d
            return _max(0, _min(v, d)) if step > 0 else _max(-1, _min(v, d - 1))
        if is_int(v) and v >= 0:
            if step < 0:
                raise Unsupported('negative step')
            return v if not E.decide(tm.lt(d, tm.C(v))) else d
        if is_int(v):
            if E.decide(tm.lt(d, tm.C(-v))):
                return 0
            return dadd(d, v)
        if E.decide(tm.lt(v, tm.ZERO)):
            v = dadd(v, d)
            if dlt(v, 0):
                return 0
            return v
        return v if not dlt(d, v) else d
    if step > 0:
        a = clampdim(s.start, 0, 0)
        b = clampdim(s.stop, 0, d)
        if is_int(a) and is_int(b):
            n = _max(0, -(-(b - a) // step))
        else:
            if dlt(b, a):
                n = 0
            else:
                n = dsub(b, a)
                if step != 1:
                    n = dim(tm.fn('floor', tm.mul(tm.C(Fraction(1, step)), tm.add(dt_(n), tm.C(step - 1)))))
        return a, n, step
    if not is_int(d):
        if s.start is None and s.stop is None and step == -1:
            return dsub(d, 1), d, -1
        raise Unsupported('negative slice of a symbolic dimension')
    a, b, st = slice(s.start, s.stop, step).indices(d)
    return a, _max(0, -(-(b - a) // st)), st


def _lin(start, i, step):
    if is_int(start) and is_int(i):
        return start + i * step
    t = tm.add(ix(start), tm.mul(tm.C(step), ix(i)))
    return _int(tm.cv(t)) if tm.is_c(t) else t


def _index(a, key):
    """('view', vmap, shape) or ('copy', fn, shape)."""
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    # expand Ellipsis
    consumed = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, (ndarray, list)) and kindof_arr(asarray(k)) == 'b':
            consumed += asarray(k).ndim
        else:
            consumed += 1
    if consumed > a.ndim:
        raise IndexError('too many indices for array')
    if Ellipsis in [k for k in key if k is Ellipsis]:
        p = next(i for i, k in enumerate(key) if k is Ellipsis)
        key[p:p + 1] = [slice(None)] * (a.ndim - consumed)
    else:
        key += [slice(None)] * (a.ndim - consumed)
    fancy = _any(isinstance(k, (ndarray, list)) or (isinstance(k, range)) for k in key)
    vm = a._vmap
    if not fancy:
        plan = []          # per source axis: ('i', idx) or ('s', outaxis, start, step)
        shape = []
        ax = 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            d = a._shape[ax]
            if isinstance(k, slice):
                st, n, step = _slice(k, d)
                plan.append(('s', _len(shape), st, step))
                shape.append(n)
            elif isinstance(k, (_bool, SymBool)):
                raise Unsupported('boolean scalar index')
            else:
                plan.append(('i', _norm_int(k, d)))
            ax += 1

        def vmap(idx):
            j = tuple(p[1] if p[0] == 'i' else (idx[p[1]] if (p[3] == 1 and is_int(p[2]) and p[2] == 0) else _lin(p[2], idx[p[1]], p[3]))
                      for p in plan)
            return j if vm is None else vm(j)
        return 'view', vmap, tuple(shape)
    # advanced indexing
    keys = []
    for k in key:
        if isinstance(k, (list, range)):
            k = asarray(list(k))
        if isinstance(k, ndarray) and k._kind == 'b':
            if k.ndim != 1 or not is_int(k._shape[0]):
                if _len(key) == 1 and k.ndim == a.ndim and _all(is_int(d) for d in k._shape):
                    pos = [i for i in itertools.product(*[_range(d) for d in k._shape]) if E.decide(k._get(i))]
                    return 'copy', (lambda idx, g=a._snap(), pos=pos: g(pos[idx[0]])), (_len(pos),)
                raise Unsupported('boolean mask with symbolic size')
            sel = [i for i in _range(k._shape[0]) if E.decide(k._get((i,)))]
            k = ndarray._make(Buf((_len(sel),), 'i', dense=[tm.C(i) for i in sel]))
        if isinstance(k, ndarray) and k._kind not in 'ib':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if isinstance(k, SymNum):
            k = SymNum(ix(_norm_int(k, a._shape[_len([x for x in keys if x is not None])])), 'i')
        keys.append(k)
    adv = [(i, k) for i, k in enumerate(keys) if isinstance(k, (ndarray, _int, SymNum)) and not isinstance(k, _bool)]
    bs = ()
    for _, k in adv:
        if isinstance(k, ndarray):
            bs = bshape(bs, k._shape)
    first = adv[0][0]
    contiguous = _all(adv[j + 1][0] == adv[j][0] + 1 for j in _range(_len(adv) - 1))
    # output axes: position of the advanced block
    out = []
    pre = []
    for i, k in enumerate(keys):
        if isinstance(k, slice) or k is None:
            pre.append((i, k))
    shape = []
    layout = []
    block_done = False
    if not contiguous:
        shape.extend(bs)
        block_at = 0
        block_done = True
    ax = 0
    slc = {}
    for i, k in enumerate(keys):
        if k is None:
            slc[i] = (_len(shape), None)
            shape.append(1)
            continue
        d = a._shape[ax]
        if isinstance(k, slice):
            st, n, step = _slice(k, d)
            slc[i] = (_len(shape), st, step)
            shape.append(n)
        elif not block_done:
            block_at = _len(shape)
            shape.extend(bs)
            block_done = True
        ax += 1
    nb = _len(bs)
    g = a._snap()
    snaps = {i: (k._snap(), k._shape) for i, k in adv if isinstance(k, ndarray)}
    srcdims = []
    ax = 0
    for i, k in enumerate(keys):
        if k is None:
            continue
        srcdims.append((i, k, a._shape[ax]))
        ax += 1

    def fn(idx):
        b = idx[block_at:block_at + nb]
        j = []
        for i, k, d in srcdims:
            if isinstance(k, slice):
                o, st, step = slc[i]
                j.append(_lin(st, idx[o], step))
            elif isinstance(k, ndarray):
                gs, s = snaps[i]
                v = gs(bidx(b, s))
                j.append(wrap_idx(_int(tm.cv(v)) if tm.is_c(v) else v, d))
            else:
                j.append(_norm_int(k, d))
        return g(tuple(j))
    return 'copy', fn, tuple(shape)


def bidx(idx, shape):
    """Index into an operand of the given shape for the broadcast index idx."""
    n = _len(shape)
    out = []
    for i, d in zip(idx[_len(idx) - n:], shape):
        out.append(0 if is_int(d) and d == 1 else i)
    return tuple(out)


def _store(a, key, value):
    val = value if isinstance(value, ndarray) else asarray(value)
    if isinstance(key, ndarray) and key._kind == 'b' or isinstance(key, list):
        keyarr = asarray(key)
        if keyarr._kind == 'b':
            ks, kshape = keyarr._snap(), keyarr._shape
            if val.ndim:
                raise Unsupported('masked store of an array')
            vv, vk = val._get(()), val._kind
            sh, vm0 = a._shape, a._vmap
            if vm0 is not None:
                raise Unsupported('masked store through a view')
            a._buf.put(lambda i: ks(bidx(i, kshape)), lambda i: conv(vv, vk, a._kind))
            return
        key = keyarr
    r = _index(a, key)
    if r[0] != 'view':
        # fancy store: only concrete positions
        _fancy_store(a, key, val)
        return
    _, vmap, shape = r
    if _len(val._shape) > _len(shape):
        while _len(val._shape) > _len(shape) and is_int(val._shape[0]) and val._shape[0] == 1:
            val = val[0]
        if _len(val._shape) > _len(shape):
            raise ValueError('could not broadcast input array')
    bs = bshape(shape, val._shape)
    if bs != tuple(shape):
        for x, y in zip(bs, shape):
            if not deq(x, y):
                raise ValueError('could not broadcast input array from shape')
    g, vs, vk, ak = val._snap(), val._shape, val._kind, a._kind
    if vk == 'f' and ak == 'i':
        for d in val._shape:
            pass
        for i in _concrete_idx(vs):
            v = g(i)
            if tm.special(v):
                raise ValueError('cannot convert float NaN to integer')
    # invert the view: which buffer index corresponds to which view index
    if _all(is_int(d) for d in shape) and a._buf.dense is not None:
        items = [(vmap(i), g(bidx(i, vs))) for i in itertools.product(*[_range(d) for d in shape])]
        for j, v in items:
            v = conv(v, vk, ak)
            a._buf.put(lambda i, j=j: tm.and_(*[_ieq(x, y) for x, y in zip(i, j)]), lambda i, v=v: v)
        return
    if _all(is_int(d) for d in shape):
        items = [(vmap(i), g(bidx(i, vs))) for i in itertools.product(*[_range(d) for d in shape])]
        for j, v in items:
            v = conv(v, vk, ak)
            a._buf.put(lambda i, j=j: tm.and_(*[_ieq(x, y) for x, y in zip(i, j)]), lambda i, v=v: v)
        return
    # symbolic shape: supported when the view is the whole buffer, row/column slices with unit steps
    inv = _invert(vmap, shape, a._buf.shape)
    if inv is None:
        raise Unsupported('store through this view of a symbolic array')

    def match(i):
        m = inv(i)
        return m[0]

    def value_at(i):
        m = inv(i)
        return conv(g(bidx(m[1], vs)), vk, ak)
    a._buf.put(match, value_at)


def _concrete_idx(shape):
    if _all(is_int(d) for d in shape):
        n = 1
        for d in shape:
            n *= d
        if n <= 64:
            return list(itertools.product(*[_range(d) for d in shape]))
    return []


def _ieq(x, y):
    if is_int(x) and is_int(y):
        return TRUE if x == y else FALSE
    return tm.eq(ix(x), ix(y), note=False)


def _invert(vmap, shape, bshape_):
    """Inverse of a view map built from per-axis shifts: buffer index -> (formula, view index)."""
    probe = [tm.fresh_index('p') for _ in shape]
    j = vmap(tuple(probe))
    plan = []
    for pos, t in enumerate(j):
        if is_int(t) or not t.free:
            plan.append(('c', t))
            continue
        ax = [n for n, p in enumerate(probe) if p.args[0] in t.free]
        if _len(ax) != 1:
            return None
        off = tm.sub(t, probe[ax[0]])
        r = N.nf(off)
        if probe[ax[0]].args[0] in N.rfree(r):
            return None
        plan.append(('a', ax[0], off if not P.is_const(r.num) else tm.C(P.const_val(r.num))))
    used = [p[1] for p in plan if p[0] == 'a']
    if sorted(used) != list(_range(_len(shape))):
        return None

    def inv(i):
        conds = []
        v = [0] * _len(shape)
        for p, x in zip(plan, i):
            if p[0] == 'c':
                conds.append(_ieq(x, p[1]))
            else:
                o = p[2]
                w = x if (tm.is_c(o) and not tm.cv(o)) else _lin(x, 0, 1) if False else _shiftdown(x, o)
                d = shape[p[1]]
                if not (tm.is_c(o) and not tm.cv(o)):
                    conds.append(tm.le(tm.ZERO, ix(w), note=False))
                full = bshape_[plan.index(p)]
                if not (d is full or (is_int(d) and is_int(full) and d == full)):
                    conds.append(tm.lt(ix(w), dt_(d), note=False))
                v[p[1]] = w
        return tm.and_(*conds), tuple(v)
    return inv


def _shiftdown(x, o):
    t = tm.sub(ix(x), o)
    return _int(tm.cv(t)) if tm.is_c(t) else t


def _fancy_store(a, key, val):
    if not isinstance(key, tuple):
        key = (key,)
    ks = []
    for k in key:
        if isinstance(k, (list, ndarray)):
            k = asarray(k)
            if k.ndim != 1 or not is_int(k._shape[0]):
                raise Unsupported('fancy store')
            ks.append([_int(tm.cv(k._get((i,)))) for i in _range(k._shape[0])])
        else:
            ks.append(k)
    n = _max(_len(k) for k in ks if isinstance(k, list))
    for q in _range(n):
        kk = tuple(k[q] if isinstance(k, list) else k for k in ks)
        v = val
        if val.ndim:
            v = val[q] if not (is_int(val._shape[0]) and val._shape[0] == 1) else val[0]
        _store(a, kk if _len(kk) > 1 else kk[0], v)


# ----------------------------------------------------------------------------------
# Creation
# ----------------------------------------------------------------------------------
def _from_list(x):
    """ndarray from nested sequences / scalars."""
    if isinstance(x, ndarray):
        return ndarray._make(Buf(x._shape, x._kind, x._snap()))
    if isinstance(x, (SymNum, SymBool, _int, _float, Fraction)) or isinstance(x, _bool):
        k = kindof(x)
        return ndarray._make(Buf((), k, dense=[unbox(x)]))
    if isinstance(x, range):
        x = list(x)
    if hasattr(x, '_skv_arr'):
        return _from_list(x._skv_arr)
    if x is None or isinstance(x, (str, bytes, dict, set)) or not hasattr(x, '__len__'):
        if isinstance(x, (str, bytes)):
            raise _UFuncTypeError("ufunc 'isfinite' not supported for the input types")
        if hasattr(x, '__float__'):
            return ndarray._make(Buf((), 'f', dense=[tof(x)]))
        return ndarray._make(Buf((), 'O', dense=[x]))
    items = [x[i] if not hasattr(x, '__iter__') else y for i, y in enumerate(x)]
    if not items:
        return ndarray._make(Buf((0,), 'f', dense=[]))
    subs = [_from_list(i) if not isinstance(i, ndarray) else i for i in items]
    k = 'b'
    for s in subs:
        k = join(k, s._kind)
    sh = subs[0]._shape
    for s in subs[1:]:
        if _len(s._shape) != _len(sh) or not _all(deq(p, q) for p, q in zip(s._shape, sh)):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
    gets = [(s._snap(), s._kind) for s in subs]
    n = _len(subs)

    def fn(idx):
        i = idx[0]
        if is_int(i):
            g, k0 = gets[i]
            return conv(g(idx[1:]), k0, k)
        v = None
        for j in _range(n - 1, -1, -1):
            g, k0 = gets[j]
            y = conv(g(idx[1:]), k0, k)
            v = y if v is None else _sel(tm.eq(i, tm.C(j), note=False), y, v)
        return v
    return ndarray._make(Buf((n,) + tuple(sh), k, fn))


class _UFuncTypeError(TypeError):
    pass


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    a = _from_list(x)
    k = kind_of(dtype)
    if k is not None and k != a._kind or narrow_of(dtype):
        a = a.astype(dtype)
    while a.ndim < ndmin:
        a = a[None]
    if subok and isinstance(x, ndarray) and type(x) is not ndarray:
        a = a.view(type(x))
    return a


def asarray(x, dtype=None, order=None):
    if isinstance(x, ndarray):
        a = x if type(x) is ndarray else ndarray._make(x._buf, x._vmap, x._shape)
        k = kind_of(dtype)
        if k is not None and k != a._kind or narrow_of(dtype):
            a = a.astype(dtype)
        return a
    return array(x, dtype)


def asanyarray(x, dtype=None):
    if isinstance(x, ndarray) and dtype is None:
        return x
    return asarray(x, dtype)


ascontiguousarray = asfarray = asarray


def asfarray(x):
    return asarray(x, 'f')


def _shape_arg(s):
    if isinstance(s, (tuple, list)):
        return tuple(dim(x) for x in s)
    if isinstance(s, ndarray):
        return tuple(dim(x) for x in s)
    return (dim(s),)


def _check_dims(s):
    for d in s:
        if dlt(d, 0):
            raise ValueError('negative dimensions are not allowed')


def full(shape, value, dtype=None):
    s = _shape_arg(shape)
    _check_dims(s)
    k = wide_kind(dtype)
    v = asarray(value)
    if k is None:
        k = v._kind
    g, vs, k0 = v._snap(), v._shape, v._kind
    return ndarray._make(Buf(s, k, lambda i: conv(g(bidx(i, vs)), k0, k)))


def zeros(shape, dtype=None, order=None):
    k = wide_kind(dtype) or 'f'
    s = _shape_arg(shape)
    _check_dims(s)
    v = FALSE if k == 'b' else tm.ZERO
    return ndarray._make(Buf(s, k, lambda i: v))


def ones(shape, dtype=None):
    k = wide_kind(dtype) or 'f'
    s = _shape_arg(shape)
    _check_dims(s)
    v = TRUE if k == 'b' else tm.ONE
    return ndarray._make(Buf(s, k, lambda i: v))


def empty(shape, dtype=None):
    k = wide_kind(dtype) or 'f'
    s = _shape_arg(shape)
    _check_dims(s)
    nm = E.fresh_name('uninit')
    return ndarray._make(Buf(s, k, lambda i: tm.el(nm, [ix(x) for x in i])))


def _like(x, mk, dtype, shape=None, subok=True, **kw):
    x0 = asanyarray(x)
    k = wide_kind(dtype) or x0._kind
    r = mk(x0._shape if shape is None else _shape_arg(shape), k)
    if subok and type(x0) is not ndarray:
        r = r.view(type(x0))
    return r


def _sized(mk):
    def f(s, k):
        v = (FALSE if k == 'b' else tm.ZERO) if mk == 0 else (TRUE if k == 'b' else tm.ONE)
        return ndarray._make(Buf(tuple(s), k, lambda i: v))
    return f


def zeros_like(x, dtype=None, **kw):
    return _like(x, _sized(0), dtype, **kw)


def ones_like(x, dtype=None, **kw):
    return _like(x, _sized(1), dtype, **kw)


def full_like(x, v, dtype=None, **kw):
    x0 = asanyarray(x)
    r = _like(x, _sized(0), dtype, **kw)
    r[...] = v
    return r


def empty_like(x, dtype=None, **kw):
    nm = E.fresh_name('uninit')
    return _like(x, lambda s, k: ndarray._make(Buf(tuple(s), k, lambda i: tm.el(nm, [ix(y) for y in i]))), dtype, **kw)


def eye(n, m=None, k=0, dtype=None):
    n = dim(n)
    m = n if m is None else dim(m)

    def fn(i):
        c = tm.eq(tm.add(ix(i[0]), tm.C(k)), ix(i[1]), note=False)
        return tm.ite(c, tm.ONE, tm.ZERO)
    return ndarray._make(Buf((n, m), wide_kind(dtype) or 'f', fn))


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def arange(*a, dtype=None):
    if _len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif _len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    kinds = [kindof(x) for x in (start, stop, step)]
    k = 'f' if 'f' in kinds else 'i'
    if k == 'f':
        raise Unsupported('float arange')
    st, sp, se = dim(start), dim(stop), dim(step)
    if is_int(st) and is_int(sp) and is_int(se):
        r = list(_range(st, sp, se))
        return ndarray._make(Buf((_len(r),), wide_kind(dtype) or 'i', dense=[tm.C(i) for i in r]))
    if not (is_int(se) and se == 1):
        raise Unsupported('arange step')
    n = dsub(sp, st)
    return ndarray._make(Buf((n,), wide_kind(dtype) or 'i', lambda i: tm.add(ix(st), ix(i[0]))))


def linspace(a, b, num=50, endpoint=True, **kw):
    plain(kw)
    n = dim(num)
    if dlt(n, 0):
        raise ValueError('Number of samples must be non-negative.')
    A, B = asarray(a), asarray(b)
    if A.ndim or B.ndim:
        raise Unsupported('linspace over arrays')
    x, y = tof(A._scalar()), tof(B._scalar())
    den = tm.sub(dt_(n), tm.ONE) if endpoint else dt_(n)
    if is_int(n):
        d = n - 1 if endpoint else n
        vals = []
        for i in _range(n):
            vals.append(x if d <= 0 else tm.add(x, tm.mul(tm.C(Fraction(i, d)), tm.sub(y, x))))
        return ndarray._make(Buf((n,), 'f', dense=vals))
    if E.decide(tm.eq(den, tm.ZERO)):
        return ndarray._make(Buf((1,), 'f', dense=[x]))
    step = tm.div(tm.sub(y, x), den)
    return ndarray._make(Buf((n,), 'f', lambda i: tm.add(x, tm.mul(ix(i[0]), step))))


def meshgrid(*xs, indexing='xy', **kw):
    plain({k: v for k, v in kw.items() if not (k == 'sparse' and v is False)})
    arrs = [asarray(x) for x in xs]
    if _len(arrs) != 2:
        raise Unsupported('meshgrid of other than two arrays')
    x, y = arrs
    x, y = x.ravel(), y.ravel()
    gx, gy = x._snap(), y._snap()
    nx, ny = x._shape[0], y._shape[0]
    if indexing == 'xy':
        s = (ny, nx)
        return [ndarray._make(Buf(s, x._kind, lambda i: gx((i[1],)))), ndarray._make(Buf(s, y._kind, lambda i: gy((i[0],))))]
    s = (nx, ny)
    return [ndarray._make(Buf(s, x._kind, lambda i: gx((i[0],)))), ndarray._make(Buf(s, y._kind, lambda i: gy((i[1],))))]


def copy(a, order='K', subok=False):
    return array(a, subok=subok)


# ----------------------------------------------------------------------------------
# Universal functions
# ----------------------------------------------------------------------------------
def _bin(op, a, o):
    if isinstance(o, (str, bytes, dict)) or o is None:
        return NotImplemented
    return op(a, o)


def wrapper_of(args):
    """The operand whose __array_wrap__ NumPy uses: the first ndarray subclass instance."""
    for a in args:
        if isinstance(a, ndarray) and type(a) is not ndarray:
            return a
    return None


def wrap(w, r):
    if w is None or not isinstance(r, ndarray) or r._shape == ():
        return r
    # NumPy 1 hands over the result as a view of the operand's class (__array_prepare__);
    # deep nesting stands for the recursion limit
    if _wrapping[0] > 8:
        raise RecursionError('maximum recursion depth exceeded')
    _wrapping[0] += 1
    try:
        return w.__array_wrap__(r.view(type(w)), None)
    finally:
        _wrapping[0] -= 1


_wrapping = [0]


class Ufunc:
    def __init__(self, name, nin, fn, kind=None, boolean=False):
        self.__name__ = name
        self.nin = nin
        self.fn = fn
        self.kind = kind
        self.boolean = boolean

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, **kw):
        if _len(args) > self.nin:
            if out is not None:
                raise TypeError('cannot specify out in both sequence and keyword')
            out = args[self.nin]
            args = args[:self.nin]
        if isinstance(out, tuple):
            out = out[0]
        if where is not True:
            raise Unsupported('where= in a ufunc')
        if dtype is not None and wide_kind(dtype) != 'f':
            raise Unsupported('dtype= in a ufunc')
        plain(kw, 'order')
        r = _elementwise(self.fn, args, self.kind, self.boolean)
        if out is not None:
            if kindof_arr(r) == 'f' and out._kind in 'ib':
                raise _UFuncTypeError('Cannot cast ufunc output')
            out[...] = r
            return out
        w = wrapper_of(args)
        return wrap(w, r)

    def reduce(self, a, axis=0, **kw):
        plain(kw)
        if self is add:
            return sum(a, axis=axis)
        if self is multiply:
            return prod(a, axis=axis)
        if self is maximum:
            return amax(a, axis=axis)
        if self is minimum:
            return amin(a, axis=axis)
        if self is logical_and:
            return all(a, axis=axis)
        if self is logical_or:
            return any(a, axis=axis)
        raise Unsupported(f'{self.__name__}.reduce')

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        if self is multiply and a.ndim == 1 and b.ndim == 1:
            return outer(a, b)
        n = b.ndim
        return self(a.reshape(a.shape + (1,) * n), b)

    def __repr__(self):
        return f"<ufunc '{self.__name__}'>"


def _elementwise(fn, args, kind=None, boolean=False):
    arrs = [asarray(a) for a in args]
    for a in arrs:
        if a._kind == 'O':
            raise _UFuncTypeError('unsupported operand type(s)')
    s = ()
    for a in arrs:
        s = bshape(s, a._shape)
    ks = [a._kind for a in arrs]
    if kind is None:
        k = 'b'
        for x in ks:
            k = join(k, x)
    elif callable(kind):
        k = kind(ks)
    else:
        k = kind
    gets = [(a._snap(), a._shape, a._kind) for a in arrs]

    def at(idx):
        return fn(*[g(bidx(idx, sh)) for g, sh, _ in gets])
    if s == ():
        v = at(())
        if isinstance(v, F):
            return mkbool(v)
        return SymNum(v, k if k != 'b' else 'i')
    return ndarray._make(Buf(s, k, at))


def num(v):
    return bool_num(v) if isinstance(v, F) else v


def _u2(f):
    return lambda a, b: f(num(a), num(b))


def _gdiv(a, b):
    """Division inside an array; divisor depending on a generic index must be provably nonzero."""
    a, b = num(a), num(b)
    return gdiv(a, b)


def gdiv(a, b):
    if b.free and not tm.is_c(b):
        v = E.facts.ev(tm.eq(b, tm.ZERO))
        if v is False:
            return tm.div(a, b)
        raise Unsupported(f'array division by {b}, possibly zero')
    return sdiv(a, b)


def _gsqrt(a):
    a = num(a)
    if a.free and not tm.is_c(a):
        v = E.facts.ev(tm.lt(a, tm.ZERO))
        if v is False:
            return tm.sqrt(a)
        raise Unsupported('sqrt of a possibly negative array element')
    return ssqrt(a)


def _gacos(a):
    a = num(a)
    if a.free and not tm.is_c(a):
        raise Unsupported('arccos of a generic element')
    return sacos(a)


def _kinti(ks):
    return 'i' if _all(k in 'bi' for k in ks) else 'f'


def _gpow(a, b):
    a, b = num(a), num(b)
    return spow(a, b, 'f', 'f', True)


def _pow_kind(ks):
    return 'i' if _all(k in 'bi' for k in ks) else 'f'


def _bi(f_num, f_bool):
    def g(a, b):
        if isinstance(a, F) and isinstance(b, F):
            return f_bool(a, b)
        return f_num(num(a), num(b))
    return g


add = Ufunc('add', 2, _bi(tm.add, tm.or_))
subtract = Ufunc('subtract', 2, _u2(tm.sub))
multiply = Ufunc('multiply', 2, _bi(tm.mul, tm.and_))
divide = true_divide = Ufunc('true_divide', 2, _gdiv, 'f')
floor_divide = Ufunc('floor_divide', 2, lambda a, b: tm.fn('floor', _gdiv(a, b)), _kinti)


def _mod(a, b):
    a, b = num(a), num(b)
    return tm.sub(a, tm.mul(b, tm.fn('floor', gdiv(a, b))))


mod = remainder = Ufunc('remainder', 2, _mod, _kinti)
negative = Ufunc('negative', 1, lambda a: tm.neg(num(a)))
positive = Ufunc('positive', 1, num)
power = Ufunc('power', 2, _gpow, _pow_kind)
square = Ufunc('square', 1, lambda a: tm.power(num(a), 2))
sqrt = Ufunc('sqrt', 1, _gsqrt, 'f')
absolute = Ufunc('absolute', 1, lambda a: tm.abs_(num(a)))
abs = fabs = absolute


def _sign_t(a):
    a = num(a)
    return tm.fn('sign', a)


sign = Ufunc('sign', 1, _sign_t)
sin = Ufunc('sin', 1, lambda a: tm.fn('sin', num(a)), 'f')
cos = Ufunc('cos', 1, lambda a: tm.fn('cos', num(a)), 'f')


def _tan(a):
    return sdiv(tm.fn('sin', num(a)), tm.fn('cos', num(a)))


tan = Ufunc('tan', 1, _tan, 'f')
arccos = Ufunc('arccos', 1, _gacos, 'f')


def _asin(a):
    a = num(a)
    half = tm.mul(tm.C(Fraction(1, 2)), tm.pi())
    r = _gacos(a)
    return r if r is tm.NAN else tm.sub(half, r)


arcsin = Ufunc('arcsin', 1, _asin, 'f')
arctan2 = Ufunc('arctan2', 2, lambda a, b: tm.fn('atan2', num(a), num(b)), 'f')
arctan = Ufunc('arctan', 1, lambda a: tm.fn('atan2', num(a), tm.ONE), 'f')
degrees = rad2deg = Ufunc('degrees', 1, lambda a: tm.div(tm.mul(tm.C(180), num(a)), tm.pi()), 'f')
radians = deg2rad = Ufunc('radians', 1, lambda a: tm.mul(tm.div(num(a), tm.C(180)), tm.pi()), 'f')
hypot = Ufunc('hypot', 2, lambda a, b: tm.sqrt(tm.add(tm.power(num(a), 2), tm.power(num(b), 2))), 'f')
floor = Ufunc('floor', 1, lambda a: tm.fn('floor', num(a)), 'f')
ceil = Ufunc('ceil', 1, lambda a: tm.neg(tm.fn('floor', tm.neg(num(a)))), 'f')
trunc = fix = Ufunc('trunc', 1, lambda a: tm.fn('trunc', num(a)), 'f')
rint = Ufunc('rint', 1, lambda a: tm.fn('round', num(a), tm.ZERO), 'f')
reciprocal = Ufunc('reciprocal', 1, lambda a: _gdiv(tm.ONE, a))
exp = Ufunc('exp', 1, lambda a: tm.fn('exp', num(a)), 'f')
log = Ufunc('log', 1, lambda a: tm.fn('log', num(a)), 'f')


def tmax(a, b):
    a, b = num(a), num(b)
    if a is tm.NAN or b is tm.NAN:
        return tm.NAN
    return pick(tm.le(b, a), a, b)


def tmin(a, b):
    a, b = num(a), num(b)
    if a is tm.NAN or b is tm.NAN:
        return tm.NAN
    return pick(tm.le(a, b), a, b)


def pick(c, a, b):
    """a if c else b: forks for scalars, ite for generic elements."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.free:
        v = E.facts.ev(c)
        if v is None:
            return tm.ite(c, a, b)
        return a if v else b
    return a if E.decide(c) else b


maximum = fmax = Ufunc('maximum', 2, tmax)
minimum = fmin = Ufunc('minimum', 2, tmin)


def isfin(v):
    if isinstance(v, F):
        return TRUE
    if tm.special(v):
        return FALSE
    if v.op == 'el' and v.args[0].startswith('?'):
        return tm.pred('finite', v)
    return TRUE


def _isnan(v):
    if isinstance(v, F):
        return FALSE
    if v.op == 'el' and v.args[0].startswith('?'):
        return tm.pred('nan', v)
    return TRUE if v is tm.NAN else FALSE


isfinite = Ufunc('isfinite', 1, isfin, 'b')
isnan = Ufunc('isnan', 1, _isnan, 'b')
isinf = Ufunc('isinf', 1, lambda v: tm.and_(tm.not_(isfin(v)), tm.not_(_isnan(v))), 'b')
less = Ufunc('less', 2, _u2(tm.lt), 'b')
less_equal = Ufunc('less_equal', 2, _u2(tm.le), 'b')
greater = Ufunc('greater', 2, _u2(lambda a, b: tm.lt(b, a)), 'b')
greater_equal = Ufunc('greater_equal', 2, _u2(lambda a, b: tm.le(b, a)), 'b')


def _eq(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return tm.iff(a, b)
    return tm.eq(num(a), num(b))


class _EqUfunc(Ufunc):
    def __call__(self, *args, **kw):
        try:
            return super().__call__(*args, **kw)
        except (_UFuncTypeError, ):
            return self.__name__ == 'not_equal'


equal = _EqUfunc('equal', 2, _eq, 'b')
not_equal = _EqUfunc('not_equal', 2, lambda a, b: tm.not_(_eq(a, b)), 'b')
logical_and = bitwise_and = Ufunc('logical_and', 2, lambda a, b: tm.and_(tob(a), tob(b)), 'b')
logical_or = bitwise_or = Ufunc('logical_or', 2, lambda a, b: tm.or_(tob(a), tob(b)), 'b')
logical_not = invert = Ufunc('logical_not', 1, lambda a: tm.not_(tob(a)), 'b')
logical_xor = Ufunc('logical_xor', 2, lambda a, b: tm.not_(tm.iff(tob(a), tob(b))), 'b')


def tob(v):
    return v if isinstance(v, F) else tm.not_(tm.eq(v, tm.ZERO, note=False))


def clip(a, lo=None, hi=None, out=None, a_min=None, a_max=None):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def around(a, decimals=0, out=None):
    d = tof(decimals)
    a0 = asanyarray(a)

    def f(v):
        v = num(v)
        return v if tm.special(v) else round_term(v, d)
    if a0._kind in 'ib' and tm.is_c(d) and tm.cv(d) >= 0:
        r = a0.copy() if isinstance(a0, ndarray) else a0
        if r._shape == ():
            r = r._scalar()
    else:
        r = wrap(wrapper_of([a0]), _elementwise(f, [a0], a0._kind))
    if out is not None:
        if kindof_arr(r) == 'f' and out._kind == 'i':
            raise _UFuncTypeError('Cannot cast ufunc output')
        out[...] = r
        return out
    return r


round_ = round = around


def where(c, x=None, y=None):
    if x is None:
        c = asarray(c)
        if not _all(is_int(d) for d in c._shape):
            raise Unsupported('where() with symbolic size')
        pos = [i for i in itertools.product(*[_range(d) for d in c._shape]) if E.decide(tob(c._get(i)))]
        return tuple(ndarray._make(Buf((_len(pos),), 'i', dense=[tm.C(p[k]) for p in pos])) for k in _range(c.ndim))

    def f(cc, a, b):
        cc = tob(cc)
        if isinstance(a, F) and isinstance(b, F):
            return _sel(cc, a, b)
        return pick(cc, num(a), num(b))
    return _elementwise(f, (c, x, y), lambda ks: join(ks[1], ks[2]))


def flatnonzero(a):
    return where(asarray(a).ravel())[0]


nonzero = where
argwhere_ = None


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        x, y = num(x), num(y)
        if tm.special(x) or tm.special(y):
            return TRUE if x is y and x is not tm.NAN else FALSE
        return tm.le(tm.abs_(tm.sub(x, y)), tm.add(tof(atol), tm.mul(tof(rtol), tm.abs_(y))))
    return _elementwise(f, (a, b), 'b')


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return r if not isinstance(r, ndarray) else all(r)


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not deq(x, y):
            return False
    return mkbool(arrays_equal_f(a, b))


def arrays_equal_f(a, b):
    """Formula: equal element by element (as a vanishing sum of squares when numeric)."""
    if a._kind == 'b' or b._kind == 'b':
        return fof(all(equal(a, b)))
    ga, gb = a._snap(), b._snap()
    bad = []
    for i in _concrete_idx(a._shape):
        u, v = ga(i), gb(i)
        if tm.special(u) or tm.special(v):
            bad.append((u, v))
    if bad:
        if _any(u is tm.NAN or v is tm.NAN or u is not v for u, v in bad):
            return FALSE
    if tm.CONCRETE[0]:
        return tm.and_(*[tm.eq(ga(i), gb(i)) for i in itertools.product(*[_range(d) for d in a._shape])])

    def sq(idx):
        return tm.power(tm.sub(ga(idx), gb(idx)), 2)
    s = ndarray._make(Buf(a._shape, 'f', sq))
    return tm.eq(tof(sum(s)), tm.ZERO)


def array_equiv(a, b):
    return array_equal(a, b)


# ----------------------------------------------------------------------------------
# Reductions
# ----------------------------------------------------------------------------------
def _axes(a, axis):
    if axis is None:
        return tuple(_range(a.ndim))
    if isinstance(axis, (tuple, list)):
        ax = tuple(axis)
    else:
        ax = (axis,)
    out = []
    for x in ax:
        x = dim(x)
        if not -a.ndim <= x < a.ndim:
            raise AxisError(f'axis {x} is out of bounds for array of dimension {a.ndim}')
        out.append(x % a.ndim)
    return tuple(out)


class AxisError(ValueError, IndexError):
    pass


def _reduce(a, axis, over, kind, keepdims=False):
    """over(getter over the reduced axes, dims) -> value."""
    ax = _axes(a, axis)
    keep = [i for i in _range(a.ndim) if i not in ax]
    g = a._snap()
    rdims = tuple(a._shape[i] for i in ax)

    def at(idx):
        def elem(r):
            j = [None] * a.ndim
            for p, i in zip(keep, idx):
                j[p] = i
            for p, i in zip(ax, r):
                j[p] = i
            return g(tuple(j))
        return over(elem, rdims)
    shape = tuple(a._shape[i] for i in keep)
    if keepdims:
        full_shape = tuple(1 if i in ax else a._shape[i] for i in _range(a.ndim))
        return ndarray._make(Buf(full_shape, kind, lambda idx: at(tuple(idx[i] for i in keep))))
    if shape == ():
        return box(at(()), kind)
    return ndarray._make(Buf(shape, kind, at))


class SeqList(list):
    """A Python sequence of symbolic length (array_like that is not an ndarray)."""

    def __init__(self, arr):
        super().__init__()
        self._skv_arr = arr

    def __iter__(self):
        return iter(self._skv_arr)

    def __getitem__(self, i):
        r = self._skv_arr[i]
        return SeqList(r) if type(r) is ndarray and not getattr(self, 'rows', False) else r

    def __len__(self):
        raise Unsupported('length of a symbolic sequence')

    def __bool__(self):
        raise Unsupported('truth value of a symbolic sequence')

    def __add__(self, o):
        raise Unsupported('list concatenation')

    def _skv_len(self):
        return self._skv_arr._len()


def mapped(f, a):
    """The list of f(x) for the rows x of an array with symbolically many: f is run once, on an arbitrary row."""
    d = a._shape[0]
    k = generic(d, 'it')
    E.mapping.add(k.args[0])
    try:
        v = f(a[SymNum(k, 'i')])
    finally:
        E.mapping.discard(k.args[0])
    if isinstance(v, SymNum):
        t = v.t
        r = ndarray._make(Buf((d,), v.kind, lambda i: tm.subst(t, {k: ix(i[0])})))
    elif isinstance(v, ndarray):
        g = v._snap()
        r = ndarray._make(Buf((d,) + v._shape, v._kind, lambda i: tm.subst(g(i[1:]), {k: ix(i[0])})), cls=type(v))
    elif isinstance(v, (builtins.int, builtins.float)) and not isinstance(v, builtins.bool):
        r = full((d,), v)
    else:
        raise Unsupported('comprehension over symbolically many rows')
    s = SeqList(r)
    s.rows = True
    return s


def _sum_over(elem, dims, pos=()):
    if not dims:
        return num(elem(pos))
    d = dims[0]
    if is_int(d):
        acc = tm.ZERO
        for i in _range(d):
            acc = tm.add(acc, _sum_over(elem, dims[1:], pos + (i,)))
        return acc
    k = generic(d, 's')
    body = _sum_over(elem, dims[1:], pos + (k,))
    if tm.special(body):
        return tm.NAN
    return tm.summ(k, d, body)


def plain(kw, *harmless):
    """Keywords outside the contract of a function: only their default values are accepted."""
    for k, v in kw.items():
        if k in harmless or v is None or (k == 'keepdims' and v is False) or (k == 'where' and v is True) or (k == 'copy' and v is True) \
                or (k == 'casting' and v == 'same_kind'):
            continue
        raise Unsupported(f'keyword {k}')


def sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    plain(kw)
    if out is not None:
        raise Unsupported('out=')
    if not isinstance(a, (ndarray, list, tuple)) and hasattr(a, '__next__'):
        return builtins.sum(a)
    a0 = asanyarray(a)
    if a0._kind == 'b':
        if not _all(is_int(d) for d in a0._shape):
            raise Unsupported('count of a symbolic boolean array')
    k = 'i' if a0._kind in 'bi' else 'f'
    if wide_kind(dtype) not in (None, k, 'f'):
        raise Unsupported('sum in another type')
    k = wide_kind(dtype) or k
    if a0.ndim == 0:
        return a0._scalar()
    r = _reduce(asarray(a0), axis, _sum_over, k, keepdims)
    return wrap(wrapper_of([a0]), r)


def prod(a, axis=None, **kw):
    plain(kw)
    a0 = asarray(a)

    def over(elem, dims):
        if not _all(is_int(d) for d in dims):
            raise Unsupported('product over a symbolic axis')
        acc = tm.ONE
        for i in itertools.product(*[_range(d) for d in dims]):
            acc = tm.mul(acc, num(elem(i)))
        return acc
    return _reduce(a0, axis, over, 'i' if a0._kind in 'bi' else 'f')


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    plain(kw)
    if out is not None or wide_kind(dtype) not in (None, 'f'):
        raise Unsupported('mean in another type')
    a0 = asanyarray(a)
    if a0.ndim == 0:
        return SymNum(a0._scalar().t, 'f')

    def over(elem, dims):
        s = _sum_over(elem, dims)
        n = tm.ONE
        for d in dims:
            n = tm.mul(n, dt_(d))
        if s is tm.NAN:
            return s
        return sdiv(s, n)
    r = _reduce(asarray(a0), axis, over, 'f', keepdims)
    return wrap(wrapper_of([a0]), r)


def average(a, axis=None, weights=None, **kw):
    plain(kw)
    if weights is None:
        return mean(a, axis)
    w = asarray(weights)
    a0 = asarray(a)
    if a0.ndim == w.ndim:
        return sum(a0 * w, axis) / sum(w, axis)
    return sum(a0 * w[:, None], axis) / sum(w)


def var(a, axis=None, **kw):
    plain(kw)
    a0 = asarray(a)
    m = mean(a0, axis, keepdims=True) if axis is not None else mean(a0)
    return mean((a0 - m) ** 2, axis)


def std(a, axis=None, **kw):
    plain(kw)
    return sqrt(var(a, axis))


def median(a, axis=None):
    raise Unsupported('median')


def cumsum(a, axis=None):
    a = asarray(a)
    if a.ndim != 1 or not is_int(a._shape[0]):
        raise Unsupported('cumsum')
    out = []
    acc = tm.ZERO
    for i in _range(a._shape[0]):
        acc = tm.add(acc, a._get((i,)))
        out.append(acc)
    return ndarray._make(Buf(a._shape, a._kind, dense=out))


def diff(a, n=1, axis=-1):
    a = asanyarray(a)
    ax = axis % a.ndim
    hi = tuple(slice(1, None) if i == ax else slice(None) for i in _range(a.ndim))
    lo = tuple(slice(None, -1) if i == ax else slice(None) for i in _range(a.ndim))
    r = subtract(a[hi], a[lo])
    return r if n == 1 else diff(r, n - 1, axis)


def _extreme(elem, dims, less_, hint):
    """Maximum/minimum: forks over concrete axes; a symbolic axis gives an opaque bound."""
    if _all(is_int(d) for d in dims):
        best = None
        for i in itertools.product(*[_range(d) for d in dims]):
            v = num(elem(i))
            if best is None:
                best = v
            else:
                if v is tm.NAN or best is tm.NAN:
                    best = tm.NAN
                    continue
                best = pick(less_(best, v), v, best)
        if best is None:
            raise ValueError('zero-size array to reduction operation')
        return best
    if _len(dims) != 1:
        raise Unsupported('extreme over several symbolic axes')
    return opaque_extreme(elem, dims[0], hint)


def opaque_extreme(elem, d, hint):
    """max over a symbolic axis: the element at some index, which bounds every element."""
    return register_extreme(extreme_term(elem, d, hint), d, elem, hint)


def extreme_term(elem, d, hint):
    """The extreme as an opaque function of the generic element (to recognise equal ones)."""
    k = generic(d, 'm')
    body = num(elem((k,)))
    b = N.bound_idx(1 + 60)
    key = (tm.subst(body, {k: b}), dt_(d), hint)
    return tm._mk('fn', ('extreme_' + hint, dt_(d), key[0]), body.free - k.free)



def register_extreme(m, d, elem, hint):
    """The element that attains the extreme (m itself stands for it below a binder)."""
    if m.free:
        return m
    at = extreme_at(m, d, elem, hint)
    return num(elem((at,)))


def extreme_at(m, d, elem, hint):
    lst = getattr(E.facts, 'extremes', None)
    if lst is None:
        lst = E.facts.extremes = {}
    if m.id not in lst:
        at = E.fresh_var('arg' + hint, integer=True, nn=True)
        E.facts.idx[at.args[0]] = dt_(d)
        E.assume(tm.lt(at, dt_(d)))
        lst[m.id] = (m, d, elem, hint, at)
    return lst[m.id][4]


def extreme_bounds(idx):
    """The facts that the minima and maxima found on this path bound the elements number idx."""
    for m, d, elem, hint, at in list((getattr(E.facts, 'extremes', None) or {}).values()):
        v, x = num(elem((idx,))), num(elem((at,)))
        E.assume(tm.le(v, x) if hint == 'max' else tm.le(x, v))


def amax(a, axis=None, **kw):
    plain(kw)
    a0 = asarray(a)
    return _reduce(a0, axis, lambda e, d: _extreme(e, d, tm.lt, 'max'), a0._kind if a0._kind != 'b' else 'i')


def amin(a, axis=None, **kw):
    plain(kw)
    a0 = asarray(a)
    return _reduce(a0, axis, lambda e, d: _extreme(e, d, lambda b, v: tm.lt(v, b), 'min'),
                   a0._kind if a0._kind != 'b' else 'i')


max = amax
min = amin


def ptp(a, axis=None):
    return amax(a, axis) - amin(a, axis)


def _arg_extreme(a, axis, hint):
    a = asarray(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported('argmax along an axis')
    if a.ndim != 1:
        a = a.ravel()
    d = a._shape[0]
    g = a._snap()
    less_ = tm.lt if hint == 'max' else (lambda b, v: tm.lt(v, b))
    if is_int(d):
        if d == 0:
            raise ValueError('attempt to get argmax of an empty sequence')
        best = 0
        for i in _range(1, d):
            c = less_(g((best,)), g((i,)))
            if E.decide(c):
                best = i
        return SymNum(tm.C(best), 'i')
    m = extreme_term(g, d, hint)
    if m.free:
        raise Unsupported('argmax below a binder')
    return SymNum(extreme_at(m, d, g, hint), 'i')


def argmax(a, axis=None):
    return _arg_extreme(a, axis, 'max')


def argmin(a, axis=None):
    return _arg_extreme(a, axis, 'min')


def _quant(a, axis, is_all):
    a0 = asarray(a)

    def over(elem, dims, pos=()):
        if not dims:
            return tob(elem(pos))
        d = dims[0]
        if is_int(d):
            fs = [over(elem, dims[1:], pos + (i,)) for i in _range(d)]
            return tm.and_(*fs) if is_all else tm.or_(*fs)
        k = generic(d, 'q')
        body = over(elem, dims[1:], pos + (k,))
        return tm.all_(k, d, body) if is_all else tm.not_(tm.all_(k, d, tm.not_(body)))
    return _reduce(a0, axis, over, 'b')


def all(a, axis=None, **kw):
    plain(kw)
    if isinstance(a, (SymBool, _bool, SymNum)):
        return mkbool(fof(a))
    return _quant(a, axis, True)


def any(a, axis=None, **kw):
    plain(kw)
    if isinstance(a, (SymBool, _bool, SymNum)):
        return mkbool(fof(a))
    return _quant(a, axis, False)


alltrue = all


def count_nonzero(a, axis=None):
    return sum(asarray(a) != 0, axis=axis)


# ----------------------------------------------------------------------------------
# Shape manipulation
# ----------------------------------------------------------------------------------
def _reshape(a, s):
    s = list(s)
    n = size_of(a._shape)
    neg = [i for i, d in enumerate(s) if is_int(d) and d == -1]
    if _len(neg) > 1:
        raise ValueError('can only specify one unknown dimension')
    if neg:
        rest = 1
        for i, d in enumerate(s):
            if i != neg[0]:
                rest = dmul(rest, d)
        if is_int(n) and is_int(rest):
            if rest == 0 or n % rest:
                raise ValueError('cannot reshape array')
            s[neg[0]] = n // rest
        else:
            q = N.nf(tm.div(dt_(n), dt_(rest)))
            if q.den or _any(Fraction(c).denominator != 1 for c in q.num.values()):
                raise Unsupported('symbolic reshape')
            s[neg[0]] = poly_dim(q.num)
    s = tuple(s)
    if not deq(size_of(s), n):
        raise ValueError('cannot reshape array into the given shape')
    old = a._shape
    vm = a._vmap
    fr = _reshape_map(old, s)

    def vmap(idx):
        j = fr(idx)
        return j if vm is None else vm(j)
    return a._viewlike(vmap, s)


def poly_dim(p):
    """A dimension term from an index polynomial."""
    if P.is_const(p):
        return _int(P.const_val(p))
    t = tm.ZERO
    for m, c in p.items():
        x = tm.C(c)
        for at, e in m:
            A = N.atoms[at]
            if A.kind != 'v':
                raise Unsupported('dimension expression')
            v = tm.V(A.data, integer=True, pos=A.pos, nn=A.nonneg)
            for _ in _range(e):
                x = tm.mul(x, v)
        t = tm.add(t, x)
    return t


def _ones_removed(s):
    return [(i, d) for i, d in enumerate(s) if not (is_int(d) and d == 1)]


def _reshape_map(old, new):
    """New index -> old index."""
    o, n = _ones_removed(old), _ones_removed(new)
    same = _len(o) == _len(n) and _all((x[1] is y[1]) or (is_int(x[1]) and is_int(y[1]) and x[1] == y[1]) or
                                      (not (is_int(x[1]) and is_int(y[1])) and deq(x[1], y[1])) for x, y in zip(o, n))
    if same:
        def f(idx):
            j = [0] * _len(old)
            for (p, _), (q, _) in zip(o, n):
                j[p] = idx[q]
            return tuple(j)
        return f
    if _all(is_int(d) for d in old) and _all(is_int(d) for d in new):
        def f(idx):
            if not _all(is_int(i) for i in idx):
                raise Unsupported('symbolic index through a reshape')
            k = 0
            for i, d in zip(idx, new):
                k = k * d + i
            j = []
            for d in reversed(old):
                j.append(k % d)
                k //= d
            return tuple(reversed(j))
        return f
    if _len(n) == 1 and _len(o) == 2:
        # flattening an (A, B) array: index q = i*B + j  (opaque row/column of q)
        (pi_, A_), (pj, B_) = o

        def f(idx):
            q = idx[n[0][0]]
            j = [0] * _len(old)
            if is_int(q) and is_int(B_):
                j[pi_], j[pj] = q // B_, q % B_
                return tuple(j)
            if is_int(q) and q == 0:
                return tuple(j)
            j[pi_] = rowcol('row', q, A_, B_)
            j[pj] = rowcol('col', q, A_, B_)
            return tuple(j)
        return f
    raise Unsupported('symbolic reshape')


def rowcol(which, q, A_, B_):
    """Row/column number of flat position q in an (A, B) grid, as an opaque index in range."""
    t = tm._mk('fn', ('flat_' + which, ix(q), dt_(A_), dt_(B_)))
    tm.ints.add(t.id)
    return t


def reshape(a, s, order='C'):
    return asanyarray(a).reshape(s)


def ravel(a, order='C'):
    return asanyarray(a).ravel()


def transpose(a, axes=None):
    a = asanyarray(a)
    return a.transpose() if axes is None else a.transpose(*axes)


def swapaxes(a, i, j):
    return asanyarray(a).swapaxes(i, j)


def moveaxis(a, s, d):
    a = asanyarray(a)
    order = [i for i in _range(a.ndim) if i != s % a.ndim]
    order.insert(d % a.ndim, s % a.ndim)
    return a.transpose(*order)


def squeeze(a, axis=None):
    return asanyarray(a).squeeze(axis)


def expand_dims(a, axis):
    a = asanyarray(a)
    n = a.ndim + 1
    return a[tuple(None if i == axis % n else slice(None) for i in _range(n))]


def atleast_1d(*xs):
    r = [asanyarray(x) for x in xs]
    r = [x.reshape(1) if x.ndim == 0 else x for x in r]
    return r[0] if _len(r) == 1 else r


def atleast_2d(*xs):
    r = [asanyarray(x) for x in xs]
    r = [x.reshape(1, 1) if x.ndim == 0 else x[None, :] if x.ndim == 1 else x for x in r]
    return r[0] if _len(r) == 1 else r


def broadcast_to(a, shape, subok=False):
    a = asarray(a)
    s = _shape_arg(shape)
    b = bshape(s, a._shape)
    sh = a._shape
    vm = a._vmap
    return ndarray._make(a._buf, lambda i: bidx(i, sh) if vm is None else vm(bidx(i, sh)), b)


def broadcast_arrays(*xs):
    xs = [asarray(x) for x in xs]
    s = ()
    for x in xs:
        s = bshape(s, x._shape)
    return [broadcast_to(x, tuple(udim(d) for d in s)) for x in xs]


def concatenate(xs, axis=0, **kw):
    plain(kw)
    xs = [asanyarray(x) for x in xs]
    if not xs:
        raise ValueError('need at least one array to concatenate')
    if axis is None:
        xs = [x.ravel() for x in xs]
        axis = 0
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if _any(x.ndim != nd for x in xs):
        raise ValueError('all the input array dimensions must match')
    ax = axis % nd
    for x in xs[1:]:
        for i in _range(nd):
            if i != ax and not deq(x._shape[i], xs[0]._shape[i]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    total = 0
    starts = []
    for x in xs:
        starts.append(total)
        total = dadd(total, x._shape[ax])
    shape = tuple(total if i == ax else xs[0]._shape[i] for i in _range(nd))
    k = 'b'
    for x in xs:
        k = join(k, x._kind)
    gets = [(x._snap(), x._kind) for x in xs]

    def fn(idx):
        i = idx[ax]
        v = None
        for n in _range(_len(xs) - 1, -1, -1):
            st = starts[n]
            if is_int(i) and is_int(st):
                en = dadd(st, xs[n]._shape[ax])
                if i < st:
                    continue
                if is_int(en):
                    if i >= en:
                        continue
                    g, k0 = gets[n]
                    return conv(g(idx[:ax] + (i - st,) + idx[ax + 1:]), k0, k)
            j = tm.sub(ix(i), dt_(st))
            j = _int(tm.cv(j)) if tm.is_c(j) else j
            if is_int(st) and st == 0:
                j = i
            g, k0 = gets[n]
            y = None
            if is_int(xs[n]._shape[ax]) and not is_int(j):
                y = conv(g(idx[:ax] + ((0,) if xs[n]._shape[ax] == 1 else (j,)) + idx[ax + 1:]), k0, k)
            else:
                y = conv(g(idx[:ax] + (j,) + idx[ax + 1:]), k0, k)
            v = y if v is None else _sel(tm.lt(ix(i), dt_(dadd(st, xs[n]._shape[ax])), note=False), y, v)
        return v
    r = ndarray._make(Buf(shape, k, fn))
    w = xs[0]
    sub_ = [x for x in xs if type(x) is not ndarray]
    if sub_:
        cls = type(xs[0])
        if type(xs[0]) is ndarray:
            cls = ndarray
        if cls is not ndarray:
            r = r.view(cls)
    return r


def vstack(xs, **kw):
    plain(kw)
    return concatenate([atleast_2d(x) for x in xs], 0)


row_stack = vstack


def hstack(xs, **kw):
    plain(kw)
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs and xs[0].ndim == 1 else 1)


def column_stack(xs):
    return concatenate([asarray(x)[:, None] if asarray(x).ndim == 1 else asarray(x) for x in xs], 1)


def stack(xs, axis=0, **kw):
    plain(kw)
    xs = [asanyarray(x) for x in xs]
    if not xs:
        raise ValueError('need at least one array to stack')
    nd = xs[0].ndim + 1
    return concatenate([expand_dims(x, axis % nd) for x in xs], axis % nd)


class _Columns:
    def __getitem__(self, xs):
        xs = xs if isinstance(xs, tuple) else (xs,)
        if _any(isinstance(x, (slice, str)) for x in xs):
            raise Unsupported('numpy.c_ with slices')
        xs = [asarray(x) for x in xs]
        xs = [reshape(x, (1, 1)) if x.ndim == 0 else x[:, newaxis] if x.ndim == 1 else x for x in xs]
        return concatenate(xs, axis=-1)


class _Rows:
    def __getitem__(self, xs):
        xs = xs if isinstance(xs, tuple) else (xs,)
        if _any(isinstance(x, (slice, str)) for x in xs):
            raise Unsupported('numpy.r_ with slices')
        return concatenate([reshape(asarray(x), (1,)) if ndim(x) == 0 else asarray(x) for x in xs], axis=0)


c_, r_ = _Columns(), _Rows()


def dstack(xs):
    return stack(xs, axis=-1)


def block(rows):
    return concatenate([concatenate([asarray(x) for x in r], 1) for r in rows], 0)


def append(a, v, axis=None):
    if axis is None:
        return concatenate([asarray(a).ravel(), asarray(v).ravel()])
    return concatenate([asarray(a), asarray(v)], axis)


def insert(a, i, v, axis=None):
    a = asarray(a)
    if a.ndim == 1:
        return concatenate([a[:i], asarray(v).reshape(-1), a[i:]])
    raise Unsupported('insert')


def delete(a, i, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    n = a._shape[axis]
    if not is_int(n) or isinstance(i, (list, ndarray, slice)):
        raise Unsupported('delete')
    i = _norm_int(i, n)
    keep = [j for j in _range(n) if j != i]
    return a[(slice(None),) * axis + (keep,)]


def pad(a, width, mode='constant', constant_values=0, **kw):
    plain(kw)
    if mode != 'constant':
        raise Unsupported('pad mode')
    a = asarray(a)
    w = width
    if not isinstance(w, (tuple, list)):
        w = [(w, w)] * a.ndim
    w = list(w)
    if not isinstance(w[0], (tuple, list)):
        w = [tuple(w)] * a.ndim if _len(w) == 2 else [(w[0], w[0])] * a.ndim
    w = [(dim(x), dim(y)) for x, y in w]
    if _len(w) == 1 and a.ndim > 1:
        w = w * a.ndim
    for x, y in w:
        if dlt(x, 0) or dlt(y, 0):
            raise ValueError("index can't contain negative values")
    shape = tuple(dadd(dadd(x, d), y) for (x, y), d in zip(w, a._shape))
    g = a._snap()
    cv_ = conv(tof(constant_values), 'f', a._kind)
    old = a._shape

    def fn(idx):
        conds = []
        j = []
        for (x, y), d, i in zip(w, old, idx):
            k = _shiftdown(i, dt_(x)) if not (is_int(x) and x == 0) else i
            if not (is_int(x) and x == 0):
                conds.append(tm.le(tm.ZERO, ix(k), note=False))
            if not (is_int(y) and y == 0):
                conds.append(tm.lt(ix(k), dt_(d), note=False))
            j.append(k)
        c = tm.and_(*conds)
        if c is FALSE:
            return cv_
        if c is not TRUE:
            v = E.facts.ev(c)
            if v is not None:
                c = TRUE if v else FALSE
        if c is FALSE:
            return cv_
        return _sel(c, g(tuple(j)), cv_)
    return ndarray._make(Buf(shape, a._kind, fn))


def repeat(a, n, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    n = dim(n)
    if not (is_int(n) and is_int(a._shape[axis])):
        if is_int(a._shape[axis]) and a._shape[axis] == 1:
            s = tuple(n if i == axis else d for i, d in enumerate(a._shape))
            return broadcast_to(a, tuple(udim(d) for d in s)).copy()
        raise Unsupported('repeat')
    sel = [i for i in _range(a._shape[axis]) for _ in _range(n)]
    return a[(slice(None),) * axis + (sel,)]


def tile(a, reps):
    a = asarray(a)
    reps = (reps,) if not isinstance(reps, (tuple, list)) else tuple(reps)
    reps = tuple(dim(r) for r in reps)
    while a.ndim < _len(reps):
        a = a[None]
    reps = (1,) * (a.ndim - _len(reps)) + reps
    g = a._snap()
    old = a._shape
    shape = tuple(dmul(r, d) for r, d in zip(reps, old))

    def fn(idx):
        j = []
        for i, r, d in zip(idx, reps, old):
            if is_int(r) and r == 1:
                j.append(i)
            elif is_int(i) and is_int(d):
                j.append(i % d)
            elif is_int(d) and d == 1:
                j.append(0)
            else:
                raise Unsupported('tile')
        return g(tuple(j))
    return ndarray._make(Buf(shape, a._kind, fn))


def roll(a, shift, axis=None):
    a = asanyarray(a)
    if axis is None and a.ndim > 1:
        raise Unsupported('roll')
    ax = 0 if axis is None else axis % a.ndim
    d = a._shape[ax]
    shift = dim(shift)
    g = a._snap()

    def fn(idx):
        i = idx[ax]
        if is_int(i) and is_int(d) and is_int(shift):
            j = (i - shift) % d
        elif is_int(shift) and shift > 0:
            j = tm.sub(ix(i), tm.C(shift))
            j = tm.ite(tm.lt(j, tm.ZERO, note=False), tm.add(j, dt_(d)), j)
        elif is_int(shift):
            j = tm.sub(ix(i), tm.C(shift))
            j = tm.ite(tm.le(dt_(d), j, note=False), tm.sub(j, dt_(d)), j)
        else:
            raise Unsupported('roll')
        return g(idx[:ax] + (j,) + idx[ax + 1:])
    r = ndarray._make(Buf(a._shape, a._kind, fn))
    return r.view(type(a)) if type(a) is not ndarray else r


def flip(a, axis=None):
    a = asanyarray(a)
    ax = _axes(a, axis)
    return a[tuple(slice(None, None, -1) if i in ax else slice(None) for i in _range(a.ndim))]


def take(a, i, axis=None):
    a = asanyarray(a)
    if axis is None:
        return a.ravel()[i]
    return a[(slice(None),) * (axis % a.ndim) + (i if not isinstance(i, (list, tuple)) else list(i),)]


def ix_(*xs):
    n = _len(xs)
    return tuple(asarray(list(x) if isinstance(x, range) else x).reshape(tuple(-1 if i == j else 1 for j in _range(n)))
                 for i, x in enumerate(xs))


def diag(a, k=0):
    a = asarray(a)
    g = a._snap()
    if a.ndim == 1:
        n = a._shape[0]
        return ndarray._make(Buf((n, n), a._kind, lambda i: _sel(_ieq(i[0], i[1]), g((i[0],)), tm.ZERO)))
    return ndarray._make(Buf((a._shape[0],), a._kind, lambda i: g((i[0], i[0]))))


def trace(a, **kw):
    plain(kw)
    return sum(diag(a))


def triu_indices(*a, **k):
    raise Unsupported('triu_indices')


def sort(a, axis=-1):
    a = asarray(a)
    if a.ndim != 1 or not is_int(a._shape[0]):
        raise Unsupported('sort')
    items = [box(a._get((i,)), a._kind) for i in _range(a._shape[0])]
    return array(builtins.sorted(items))


def argsort(a, axis=-1, **kw):
    a = asarray(a)
    if a.ndim != 1 or not is_int(a._shape[0]):
        raise Unsupported('argsort')
    items = builtins.sorted([(box(a._get((i,)), a._kind), i) for i in _range(a._shape[0])], key=lambda p: p[0])
    return array([i for _, i in items])


def unique(a, axis=None, return_index=False, return_inverse=False, return_counts=False, **kw):
    """Distinct rows.  Contract: each distinct row exactly once (the sorted order is not modelled
    unless the rows are concrete)."""
    a0 = asanyarray(a)
    a1 = asarray(a0)
    if return_index or return_inverse or return_counts:
        raise Unsupported('unique with extra outputs')
    if axis is None:
        a1 = a1.ravel()
        rows2 = a1[:, None]
    elif axis == 0:
        rows2 = a1
    else:
        raise Unsupported('unique axis')
    n = a1._shape[0]
    if not is_int(n):
        return _unique_symbolic(a0, a1)
    keep = []
    if n == 1:
        keep = [0]
    elif tm.CONCRETE[0]:
        rows = []
        for i in _range(n):
            r = tuple(tm.cv(x) for x in [rows2._get((i, j)) for j in _range(rows2._shape[1])])
            rows.append((r, i))
        seen = {}
        for r, i in builtins.sorted(rows):
            seen.setdefault(r, i)
        keep = [seen[r] for r in builtins.sorted(seen)]
    else:
        for i in _range(n):
            dup = False
            for j in keep:
                if E.decide(arrays_equal_f(rows2[i], rows2[j])):
                    dup = True
                    break
            if not dup:
                keep.append(i)
        E.notes.append('unique-order')
    g = a1._snap()
    r = ndarray._make(Buf((_len(keep),) + a1._shape[1:], a1._kind, lambda idx: _rowsel(g, keep, idx)))
    r.unique_of = a1 if not tm.CONCRETE[0] else None
    if type(a0) is not ndarray and axis is not None:
        v = r.view(type(a0))
        return v
    return r


def _rowsel(g, keep, idx):
    i = idx[0]
    if is_int(i):
        return g((keep[i],) + tuple(idx[1:]))
    v = None
    for j in _range(_len(keep) - 1, -1, -1):
        x = g((keep[j],) + tuple(idx[1:]))
        v = x if v is None else _sel(tm.eq(i, tm.C(j), note=False), x, v)
    return v


def array_id(a):
    """A key identifying the mathematical value of an array (for opaque functions of arrays)."""
    k = [f'{_len(a._shape)}']
    gens = []
    for d in a._shape:
        k.append(('d', d if is_int(d) else N.nf(d).key()))
    shape = a._shape
    if _all(is_int(d) for d in shape) and size_of(shape) <= 64:
        k.append(tuple(N.nf(num(a._get(i))).key() for i in itertools.product(*[_range(d) for d in shape])))
    else:
        idx = []
        base = 80
        for n, d in enumerate(shape):
            if is_int(d) and d <= 8:
                idx.append([i for i in _range(d)])
            else:
                b = N.bound_idx(base + n)
                E.facts.idx[b.args[0]] = dt_(d)
                idx.append([b])
        k.append(tuple(N.nf(num(a._get(i))).key() for i in itertools.product(*idx)))
    return tuple(k)


def opaque_name(prefix, a, *extra):
    """A name for the opaque result of prefix(a): equal for arrays with equal normal forms."""
    key = (prefix, array_id(a)) + extra
    tab = OPAQUE
    n = tab.get(key)
    if n is None:
        n = tab[key] = f'{prefix}#{_len(tab)}'
    return n


OPAQUE = {}


def _unique_symbolic(a0, a1):
    nm = opaque_name('unique', a1)
    m = tm.V(nm + '.n', integer=True, pos=True)
    E.assume(tm.le(tm.ONE, m))
    E.assume(tm.le(m, dt_(a1._shape[0])))
    r = ndarray._make(Buf((m,) + a1._shape[1:], a1._kind, lambda idx: tm.el(nm, [ix(i) for i in idx])))
    lst = getattr(E.facts, 'uniques', None)
    if lst is None:
        lst = E.facts.uniques = {}
    lst[nm] = (a1, m)
    if type(a0) is not ndarray:
        return r.view(type(a0))
    return r


# ----------------------------------------------------------------------------------
# Products
# ----------------------------------------------------------------------------------
def _contract(ga, gb, d):
    """Sum over an index of dimension d of ga(i)*gb(i)."""
    if is_int(d):
        acc = tm.ZERO
        for i in _range(d):
            acc = tm.add(acc, tm.mul(num(ga(i)), num(gb(i))))
        return acc
    k = generic(d, 's')
    return tm.summ(k, d, tm.mul(num(ga(k)), num(gb(k))))


def _match(d1, d2):
    if not deq(d1, d2):
        raise ValueError(f'shapes not aligned: {d1} != {d2}')
    return d1 if is_int(d1) else d2 if is_int(d2) else d1


def _mm(a, b):
    """Matrix product of arrays with ndim 1 or 2; result (fn, shape)."""
    ga, gb = a._snap(), b._snap()
    if a.ndim == 1 and b.ndim == 1:
        d = _match(a._shape[0], b._shape[0])
        return (lambda idx: _contract(lambda i: ga((i,)), lambda i: gb((i,)), d)), ()
    if a.ndim == 2 and b.ndim == 1:
        d = _match(a._shape[1], b._shape[0])
        return (lambda idx: _contract(lambda i: ga((idx[0], i)), lambda i: gb((i,)), d)), (a._shape[0],)
    if a.ndim == 1 and b.ndim == 2:
        d = _match(a._shape[0], b._shape[0])
        return (lambda idx: _contract(lambda i: ga((i,)), lambda i: gb((i, idx[0])), d)), (b._shape[1],)
    if a.ndim == 2 and b.ndim == 2:
        d = _match(a._shape[1], b._shape[0])
        return (lambda idx: _contract(lambda i: ga((idx[0], i)), lambda i: gb((i, idx[1])), d)), (a._shape[0], b._shape[1])
    raise Unsupported('product of arrays with more than two axes')


def _prod_kind(a, b):
    return 'i' if a._kind in 'bi' and b._kind in 'bi' else 'f'


def dot(a, b, out=None):
    a0, b0 = asanyarray(a), asanyarray(b)
    if a0.ndim == 0 or b0.ndim == 0:
        return multiply(a, b)
    x, y = asarray(a0), asarray(b0)
    fn, shape = _mm(x, y)
    k = _prod_kind(x, y)
    if shape == ():
        return SymNum(fn(()), k)
    r = ndarray._make(Buf(shape, k, fn))
    cls = type(a0)
    if cls is not ndarray:
        r = r.view(cls)
    return r


def matmul(a, b):
    a0, b0 = asanyarray(a), asanyarray(b)
    x, y = asarray(a0), asarray(b0)
    if x.ndim == 0 or y.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    fn, shape = _mm(x, y)
    k = _prod_kind(x, y)
    if shape == ():
        return SymNum(fn(()), k)
    return wrap(wrapper_of([a0, b0]), ndarray._make(Buf(shape, k, fn)))


def inner(a, b):
    a0, b0 = asarray(a), asarray(b)
    if a0.ndim == 0 or b0.ndim == 0:
        return multiply(a0, b0)
    return dot(a0, b0.T if b0.ndim == 2 else b0)


def vdot(a, b):
    return dot(asarray(a).ravel(), asarray(b).ravel())


def outer(a, b, out=None):
    a0, b0 = asarray(a).ravel(), asarray(b).ravel()
    ga, gb = a0._snap(), b0._snap()
    return wrap(wrapper_of([x for x in (a, b) if isinstance(x, ndarray)]),
                ndarray._make(Buf((a0._shape[0], b0._shape[0]), _prod_kind(a0, b0),
                                  lambda i: tm.mul(num(ga((i[0],))), num(gb((i[1],)))))))


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if axes == 1:
        return dot(a, b)
    raise Unsupported('tensordot')


def kron(a, b):
    raise Unsupported('kron')


def einsum(sub_, *ops, **kw):
    plain(kw, 'optimize')
    ins, _, out = sub_.replace(' ', '').partition('->')
    ins = ins.split(',')
    ops = [asarray(o) for o in ops]
    if '.' in sub_:
        raise Unsupported('einsum ellipsis')
    dims = {}
    for s, o in zip(ins, ops):
        if _len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string contains wrong number of subscripts')
        for c, d in zip(s, o._shape):
            if c in dims:
                dims[c] = _match(dims[c], d)
            else:
                dims[c] = d
    if '->' not in sub_:
        allc = ''.join(ins)
        out = ''.join(builtins.sorted(c for c in dims if allc.count(c) == 1))
    summed = [c for c in dims if c not in out]
    gets = [o._snap() for o in ops]
    k = 'i' if _all(o._kind in 'bi' for o in ops) else 'f'

    def at(idx):
        env = dict(zip(out, idx))

        def elem(r):
            env2 = dict(env)
            env2.update(zip(summed, r))
            v = tm.ONE
            for s, g in zip(ins, gets):
                v = tm.mul(v, num(g(tuple(env2[c] for c in s))))
            return v
        return _sum_over(elem, tuple(dims[c] for c in summed))
    if out == '':
        return SymNum(at(()), k)
    return ndarray._make(Buf(tuple(dims[c] for c in out), k, at))


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('At least one array has zero dimension')
    for x in (a, b):
        d = x._shape[-1]
        if not is_int(d):
            if E.facts.ev(tm.eq(d, tm.C(3))) is True or E.facts.ev(tm.eq(d, tm.C(2))) is True:
                from .engine import NeedCoords
                raise NeedCoords('cross product in Gram mode')
            if not E.decide(tm.eq(d, tm.C(2))) and not E.decide(tm.eq(d, tm.C(3))):
                raise ValueError('incompatible dimensions for cross product\n(dimension must be 2 or 3)')
            raise Unsupported('cross product of a symbolic dimension')
        if d not in (2, 3):
            raise ValueError('incompatible dimensions for cross product\n(dimension must be 2 or 3)')
    s = bshape(a._shape[:-1], b._shape[:-1])
    ga, gb = a._snap(), b._snap()
    na, nb = a._shape[-1], b._shape[-1]
    sa, sb = a._shape[:-1], b._shape[:-1]
    k = _prod_kind(a, b)

    def comp(idx, c):
        ia, ib = bidx(idx, sa), bidx(idx, sb)

        def A(i):
            return num(ga(ia + (i,))) if i < na else tm.ZERO

        def B(i):
            return num(gb(ib + (i,))) if i < nb else tm.ZERO
        i, j = (c + 1) % 3, (c + 2) % 3
        return tm.sub(tm.mul(A(i), B(j)), tm.mul(A(j), B(i)))
    if na == 2 and nb == 2:
        if s == ():
            return SymNum(comp((), 2), k)
        return ndarray._make(Buf(s, k, lambda idx: comp(idx, 2)))
    return ndarray._make(Buf(s + (3,), k, lambda idx: comp(idx[:-1], idx[-1]) if is_int(idx[-1])
                             else _pick3([comp(idx[:-1], c) for c in _range(3)], idx[-1])))


def _pick3(vals, i):
    v = vals[-1]
    for j in _range(_len(vals) - 2, -1, -1):
        v = tm.ite(tm.eq(i, tm.C(j), note=False), vals[j], v)
    return v


# ----------------------------------------------------------------------------------
# Callables over arrays
# ----------------------------------------------------------------------------------
class vectorize:
    """Contract: elementwise application with broadcasting; keyword arguments are broadcast too."""

    def __init__(self, pyfunc, otypes=None, signature=None, excluded=None, **kw):
        self.pyfunc = pyfunc
        self.signature = signature
        if signature is not None:
            raise Unsupported('vectorize signature')
        self.__name__ = getattr(pyfunc, '__name__', 'vectorized')

    def __call__(self, *args, **kwargs):
        names = list(kwargs)
        n = _len(args)
        allargs = list(args) + [kwargs[k] for k in names]
        arrs = [asarray(a) for a in allargs]
        if _any(a._kind == 'O' for a in arrs):
            raise TypeError('must be real number, not NoneType')
        s = ()
        for a in arrs:
            s = bshape(s, a._shape)
        if _any(is_int(d) and d == 0 for d in s):
            raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        gets = [(a._snap(), a._shape, a._kind) for a in arrs]

        def at(idx):
            vals = [box(g(bidx(idx, sh)), k) for g, sh, k in gets]
            return self.pyfunc(*vals[:n], **dict(zip(names, vals[n:])))
        first = at(tuple(0 if is_int(d) else generic(d, 'v') for d in s))
        boolean = isinstance(first, (_bool, SymBool))
        kind = 'b' if boolean else kindof(first)
        if s == ():
            return ndarray._make(Buf((), kind, dense=[unbox(first)]))
        return ndarray._make(Buf(s, kind, lambda idx: unbox(at(idx))))


def apply_along_axis(func, axis, arr, *args, **kw):
    """Contract: func applied to each 1-D slice (arr is converted with asanyarray)."""
    a0 = asanyarray(arr)
    ax = _axes(a0, axis)[0]
    if a0.ndim == 1:
        return asanyarray(func(a0, *args, **kw))
    if a0.ndim != 2:
        raise Unsupported('apply_along_axis on this shape')
    x = a0 if ax == 1 else a0.T
    n = x._shape[0]
    base = asarray(x)
    if is_int(n):
        rows = [func(asanyarray_row(x, i), *args, **kw) for i in _range(n)]
        r = array(rows)
    else:
        k = generic(n, 'r')
        v = func(asanyarray_row(x, k), *args, **kw)
        if isinstance(v, ndarray):
            raise Unsupported('apply_along_axis with array results')
        tv = unbox(v)

        def at(idx):
            i = idx[0]
            return tm.subst(tv, {k: ix(i)})
        r = ndarray._make(Buf((n,), kindof(v) if not isinstance(tv, F) else 'b', at))
    w = wrapper_of([a0])
    if w is not None:
        return wrap(w, r)
    return r


def asanyarray_row(x, i):
    if is_int(i):
        return asarray(x)[i]
    g = x._snap()
    return ndarray._make(Buf(x._shape[1:], x._kind, lambda idx: g((i,) + tuple(idx))))


def fromiter(it, dtype=None, count=-1):
    return array(list(it), dtype)


def frompyfunc(f, nin, nout):
    return vectorize(f)


def ndenumerate(a):
    a = asarray(a)
    for i in itertools.product(*[_range(d) for d in a._shape]):
        yield i, box(a._get(i), a._kind)


# ----------------------------------------------------------------------------------
# Misc
# ----------------------------------------------------------------------------------
def size(a, axis=None):
    a = asanyarray(a)
    return a.size if axis is None else a.shape[axis]


def shape(a):
    return asanyarray(a).shape


def ndim(a):
    return asanyarray(a).ndim


def isscalar(x):
    return isinstance(x, (SymNum, SymBool, _int, _float))


def iterable(x):
    return hasattr(x, '__iter__')


def array_repr(a, *args, **kw):
    return f'{type(a).__name__}({a._shape})'


array_str = array2string = array_repr


def set_printoptions(*a, **k):
    pass


class errstate:
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def seterr(**kw):
    return {}


def can_cast(*a, **k):
    raise Unsupported('can_cast')


def result_type(*xs):
    k = 'b'
    for x in xs:
        k = join(k, asarray(x)._kind if not isinstance(x, (Dtype, type)) else wide_kind(x))
    return Dtype(k)


def issubdtype(a, b):
    k = wide_kind(a)
    if b in (floating, inexact):
        return k == 'f'
    if b in (integer, signedinteger):
        return k == 'i'
    if b is number:
        return k in 'if'
    return k == wide_kind(b)


def may_share_memory(a, b):
    return asarray(a)._buf is asarray(b)._buf


shares_memory = may_share_memory


def isclose_elem():
    pass


def nan_to_num(a, **kw):
    a = asarray(a)
    return a


newaxis = None
inf = _float('inf')
nan = _float('nan')
Inf = inf
e = 2.718281828459045
__version__ = '1.26.4'


class _Finfo:
    eps = 2.220446049250313e-16
    max = 1.7976931348623157e308
    min = -1.7976931348623157e308
    tiny = 2.2250738585072014e-308


def finfo(x=None):
    return _Finfo


def __getattr__(name):
    if name == 'pi':
        return SymNum(tm.pi(), 'f', False)
    if name.startswith('__'):
        raise AttributeError(name)
    raise Unsupported(f'numpy.{name}')
