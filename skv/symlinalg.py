"""Assumed contracts of numpy.linalg (exact arithmetic)."""
import builtins
import itertools
from fractions import Fraction
import mpmath
from . import term as tm
from . import nf as N
from . import symnp as np
from .term import T, F, TRUE, FALSE
from .engine import E, Unsupported
from .scalar import RANKS, SymNum, SymBool, tof, fof, mkbool, sdiv
from .symnp import ndarray, Buf, asarray, is_int, dt_, ix, generic, num, deq

_range = builtins.range


class LinAlgError(ValueError):
    pass


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if axis is None and not keepdims:
        if ord is None or (x.ndim == 1 and ord == 2) or (x.ndim == 2 and isinstance(ord, str) and ord == 'fro'):
            return _l2(x, None)
        if x.ndim != 1:
            raise Unsupported('matrix norm')
        axis = 0
    if isinstance(axis, tuple):
        raise Unsupported('matrix norm')
    if axis is None:
        raise Unsupported('norm keepdims')
    np._axes(x, axis)
    if ord is None or ord == 2:
        return _l2(x, axis, keepdims)
    if isinstance(ord, str):
        raise ValueError(f"Invalid norm order '{ord}' for vectors")
    if ord == 1:
        return np.sum(np.absolute(x), axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return np.amax(np.absolute(x), axis=axis)
    if ord == -np.inf:
        return np.amin(np.absolute(x), axis=axis)
    raise Unsupported(f'norm order {ord}')


def _l2(x, axis, keepdims=False):
    ax = np._axes(x, axis)
    keep = [i for i in _range(x.ndim) if i not in ax]
    g = x._snap()
    rd = tuple(x._shape[i] for i in ax)

    def at(idx):
        def elem(r):
            j = [None] * x.ndim
            for p, i in zip(keep, idx):
                j[p] = i
            for p, i in zip(ax, r):
                j[p] = i
            v = num(g(tuple(j)))
            return tm.power(v, 2)
        s = np._sum_over(elem, rd)
        return tm.sqrt(s)
    shape = tuple(x._shape[i] for i in keep)
    if keepdims:
        fs = tuple(1 if i in ax else x._shape[i] for i in _range(x.ndim))
        return ndarray._make(Buf(fs, 'f', lambda idx: at(tuple(idx[i] for i in keep))))
    if shape == ():
        return SymNum(at(()), 'f')
    return ndarray._make(Buf(shape, 'f', at))


def _mat(a):
    a = asarray(a)
    if a.ndim != 2:
        raise LinAlgError(f'{a.ndim}-dimensional array given. Array must be at least two-dimensional')
    if not builtins.all(is_int(d) for d in a._shape):
        raise Unsupported('matrix of symbolic size')
    return [[num(a._get((i, j))) for j in _range(a._shape[1])] for i in _range(a._shape[0])]


def det_terms(m):
    n = len(m)
    if n == 0:
        return tm.ONE
    if n == 1:
        return m[0][0]
    if n == 2:
        return tm.sub(tm.mul(m[0][0], m[1][1]), tm.mul(m[0][1], m[1][0]))
    # expand along the row with most zeros
    best = builtins.max(_range(n), key=lambda i: builtins.sum(1 for x in m[i] if x is tm.ZERO))
    acc = tm.ZERO
    for j in _range(n):
        x = m[best][j]
        if x is tm.ZERO:
            continue
        sub = [[r[k] for k in _range(n) if k != j] for i, r in enumerate(m) if i != best]
        c = tm.mul(x, det_terms(sub))
        acc = tm.add(acc, c) if (best + j) % 2 == 0 else tm.sub(acc, c)
    return acc


def det(a):
    m = _mat(a)
    if any(len(r) != len(m) for r in m):
        raise LinAlgError('Last 2 dimensions of the array must be square')
    return SymNum(det_terms(m), 'f')


def solve(a, b):
    m = _mat(a)
    b = asarray(b)
    n = len(m)
    if any(len(r) != n for r in m):
        raise LinAlgError('Last 2 dimensions of the array must be square')
    d = det_terms(m)
    if b.ndim == 2:
        cols = [asarray(solve(a, b[:, j])) for j in _range(b._shape[1])]
        return np.column_stack(cols)
    if not deq(b._shape[0], n):
        raise ValueError('solve: Input operand 1 has a mismatch in its core dimension')
    if E.decide(tm.eq(d, tm.ZERO)):
        raise LinAlgError('Singular matrix')
    rhs = [num(b._get((i,))) for i in _range(n)]
    out = []
    for k in _range(n):
        mk = [[rhs[i] if j == k else m[i][j] for j in _range(n)] for i in _range(n)]
        out.append(tm.div(det_terms(mk), d))
    return ndarray._make(Buf((n,), 'f', dense=out))


def inv(a):
    m = _mat(a)
    n = len(m)
    d = det_terms(m)
    if E.decide(tm.eq(d, tm.ZERO)):
        raise LinAlgError('Singular matrix')
    out = []
    for i in _range(n):
        for j in _range(n):
            sub = [[r[c] for c in _range(n) if c != i] for k, r in enumerate(m) if k != j]
            v = tm.div(det_terms(sub), d)
            out.append(v if (i + j) % 2 == 0 else tm.neg(v))
    return ndarray._make(Buf((n, n), 'f', dense=out))


# ----------------------------------------------------------------------------------
# rank
# ----------------------------------------------------------------------------------
def gram_rows(a):
    """Gram matrix of the rows of a 2-D array with a concrete number of rows."""
    g = a._snap()
    n, d = a._shape
    return [[np._contract(lambda k: g((i, k)), lambda k: g((j, k)), d) for j in _range(n)] for i in _range(n)]


def minors_sum(G, k):
    """Sum of the k x k principal minors (for a Gram matrix: zero iff rank < k)."""
    n = len(G)
    acc = tm.ZERO
    for s in itertools.combinations(_range(n), k):
        acc = tm.add(acc, det_terms([[G[i][j] for j in s] for i in s]))
    return acc


def rank_le_f(a, k):
    """Formula: exact rank of the 2-D array a is at most k."""
    n, d = a._shape
    if (is_int(n) and n <= k) or (is_int(d) and d <= k):
        return TRUE
    if is_int(n) and (not is_int(d) or n <= d + 1):
        return tm.eq(minors_sum(gram_rows(a), k + 1), tm.ZERO)
    if is_int(d):
        return tm.eq(minors_sum(gram_rows(a.T), k + 1), tm.ZERO)
    raise Unsupported('rank of a matrix with two symbolic dimensions')


def matrix_rank(A, tol=None, hermitian=False):
    a = asarray(A)
    if a.ndim < 2:
        return SymNum(tm.ZERO if not E.decide(fof(np.any(a != 0))) else tm.ONE, 'i')
    if a.ndim != 2:
        raise Unsupported('matrix_rank of a stack')
    if tm.CONCRETE[0]:
        return _rank_concrete(a, tol)
    if tol is not None:
        return numrank(a, tol)
    n, d = a._shape
    # centred rows: rank of {p_i - c} with c in the affine hull; recognised by the caller's contract
    if not is_int(n):
        return rank_opaque(a)
    top = n if is_int(n) else d
    if is_int(d):
        top = builtins.min(top, d)
    return RankNum(a, top)


class RankNum(SymNum):
    """Exact rank; comparisons with constants are conditions on Gram minors."""
    __slots__ = ('a', 'top', 'memo')

    def __init__(self, a, top):
        self.a, self.top, self.memo = a, top, {}
        t = tm.ZERO
        for k in _range(top):
            f = self.upto(k)
            t = tm.add(t, tm.ite(f, tm.ZERO, tm.ONE))
        SymNum.__init__(self, t, 'i')
        if not tm.is_c(t):
            RANKS[t.id] = self

    def upto(self, k):
        if k < 0:
            return FALSE
        if k >= self.top:
            return TRUE
        if k not in self.memo:
            self.memo[k] = rank_le_f(self.a, k)
            for j in sorted(self.memo):
                if j != k and not tm.CONCRETE[0]:
                    E.implied(self.memo[min(j, k)], self.memo[max(j, k)])
        return self.memo[k]

    def _k(self, o):
        if isinstance(o, SymNum) and tm.is_c(o.t):
            o = tm.cv(o.t)
        if isinstance(o, (int, Fraction)) and not isinstance(o, bool) and o == int(o):
            return int(o)
        return None

    def _cmp(self, o, f, name):
        k = self._k(o)
        return getattr(SymNum, name)(self, o) if k is None else mkbool(f(k))

    def __le__(self, o): return self._cmp(o, self.upto, '__le__')
    def __lt__(self, o): return self._cmp(o, lambda k: self.upto(k - 1), '__lt__')
    def __gt__(self, o): return self._cmp(o, lambda k: tm.not_(self.upto(k)), '__gt__')
    def __ge__(self, o): return self._cmp(o, lambda k: tm.not_(self.upto(k - 1)), '__ge__')
    def __eq__(self, o): return self._cmp(o, lambda k: tm.and_(self.upto(k), tm.not_(self.upto(k - 1))), '__eq__')
    def __ne__(self, o): return self._cmp(o, lambda k: tm.not_(tm.and_(self.upto(k), tm.not_(self.upto(k - 1)))), '__ne__')
    __hash__ = SymNum.__hash__

    def concrete(self):
        for k in _range(self.top):
            if E.decide(self.upto(k)):
                return k
        return self.top


def numrank(a, tol):
    """Rank with an explicit singular-value threshold: an opaque function of (matrix, tol)."""
    t = tof(tol)
    nm = np.opaque_name('rank_tol', a, N.nf(t).key())
    r = tm.V(nm, integer=True, nn=True)
    ranks = getattr(E.facts, 'ranks', None)
    if ranks is None:
        ranks = E.facts.ranks = {}
    if nm not in ranks:
        ranks[nm] = (a, t)
        for d in a._shape:
            E.assume(tm.le(r, dt_(d)))
    return SymNum(r, 'i')


def rank_opaque(a):
    nm = np.opaque_name('rank', a)
    r = tm.V(nm, integer=True, nn=True)
    ranks = getattr(E.facts, 'ranks', None)
    if ranks is None:
        ranks = E.facts.ranks = {}
    if nm not in ranks:
        ranks[nm] = (a, None)
        for d in a._shape:
            E.assume(tm.le(r, dt_(d)))
    return SymNum(r, 'i')


def _rank_concrete(a, tol):
    m = mpmath.matrix([[tm.mp(tm.cv(num(a._get((i, j))))) for j in _range(a._shape[1])] for i in _range(a._shape[0])])
    s = _svals(m)
    smax = s[0] if s else mpmath.mpf(0)
    if tol is None:
        # exact rank; note how close the smallest non-zero value comes to vanishing
        t = smax * mpmath.mpf(2) ** -200
        r = builtins.sum(1 for x in s if x > t)
        if smax > 0:
            lim = smax * builtins.max(a._shape) * mpmath.mpf(2) ** -52
            for x in s:
                if x > t:
                    tm._note(tm.C(x), tm.C(lim))
                    if x < lim * 1000:
                        tm.MARGIN[0] = mpmath.mpf(0)
                elif tm.MARGIN[0] is not None:
                    # an exactly vanishing singular value: robust only when the arithmetic is exact
                    tm.MARGIN[0] = builtins.min(tm.MARGIN[0], mpmath.mpf(10) ** -6)
        return SymNum(tm.C(r), 'i')
    t = tm.mp(tm.cv(tof(tol)))
    for x in s:
        tm._note(tm.C(x), tm.C(Fraction(0)) if t == 0 else tm.C(t))
        if x < smax * mpmath.mpf(2) ** -200 and t < smax * mpmath.mpf(10) ** -12:
            # an exactly vanishing singular value that rounding may take above the tolerance
            tm.MARGIN[0] = mpmath.mpf(0)
    t = builtins.max(t, smax * mpmath.mpf(2) ** -200)
    return SymNum(tm.C(builtins.sum(1 for x in s if x > t)), 'i')


def _svals(m):
    if m.rows > m.cols:
        g = m.T * m
    else:
        g = m * m.T
    n = g.rows
    if n == 0:
        return []
    ev = mpmath.eigsy(g, eigvals_only=True)
    return builtins.sorted([mpmath.sqrt(x) if x > 0 else mpmath.mpf(0) for x in ev], reverse=True)


# ----------------------------------------------------------------------------------
# svd, lstsq, eigh
# ----------------------------------------------------------------------------------
class SVDResult(tuple):
    U = property(lambda s: s[0])
    S = property(lambda s: s[1])
    Vh = property(lambda s: s[2])


def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    a = asarray(a)
    if a.ndim != 2:
        raise Unsupported('svd of a stack')
    if tm.CONCRETE[0]:
        return _svd_concrete(a, full_matrices, compute_uv)
    n, d = a._shape
    nm = np.opaque_name('svd', a)
    svds = getattr(E.facts, 'svds', None)
    if svds is None:
        svds = E.facts.svds = {}
    if is_int(n) and is_int(d):
        k = builtins.min(n, d)
    elif dlt_known(n, d) is True:
        k = n
    elif dlt_known(d, n) is True or dlt_known(n, d) is False:
        k = d
    else:
        k = n if E.decide(tm.lt(dt_(n), dt_(d))) else d
    mk = lambda part, shape: ndarray._make(Buf(shape, 'f', lambda idx: tm.el(('+' if part == 'S' else '') + f'{part}:{nm}',
                                                                            [ix(i) for i in idx])))
    S = mk('S', (k,))
    if full_matrices:
        U, V = mk('U', (n, n)), mk('V', (d, d))
    else:
        U, V = mk('U', (n, k)), mk('V', (k, d))
    if svds.get(nm) is None:
        svds[nm] = SVD(a, U, S, V)
    if not compute_uv:
        return S
    return SVDResult((U, S, V))


class SVD:
    """What is assumed of a = U diag(S) V: asserted when a contract reasons about the decomposition.

    Right singular vectors are used for an array of points in rows, left ones for points in columns.
    """

    def __init__(self, a, U, S, V):
        self.a, self.U, self.S, self.V = a, U, S, V
        self.done = set()
        for side, d, rows, mul in self.sides():
            eq(np.sum(rows[0] * rows[0]), 1)
            if self.third(d):
                eq(np.sum(rows[2] * rows[2]), 1)

    def third(self, d):
        return E.facts.ev(tm.eq(dt_(d), tm.C(3))) is True and not np.dlt(self.S._shape[0], 3)

    def sides(self):
        n, d = self.a._shape
        return (('V', d, self.V, lambda v: np.dot(self.a, v)), ('U', n, self.U.T, lambda v: np.dot(v, self.a)))

    def facts(self, dim):
        """ind of the sides whose vectors have the given dimension, with their facts asserted:
        the first vector u is a unit vector with |a u|^2 = S_0^2, the last one (dimension 3) has |a u|^2 = S_2^2,
        and the squared singular values add up to |a|^2."""
        out = []
        S = self.S
        for side, d, rows, mul in self.sides():
            if not same_dim(d, dim):
                continue
            if side not in self.done:
                self.done.add(side)
                eq(np.sum(mul(rows[0]) ** 2), S[0] ** 2)
                if self.third(d):
                    eq(np.sum(mul(rows[2]) ** 2), S[2] ** 2)
            out.append((side, rows, mul))
        if out and 'sum' not in self.done:
            self.done.add('sum')
            tot = np.sum(self.a * self.a)
            eq(S[0] ** 2 + np.sum(S[1:] ** 2), tot)
            if builtins.any(self.third(d) for side, d, rows, mul in self.sides()):
                eq(S[0] ** 2 + S[1] ** 2 + S[2] ** 2, tot)
                eq(np.sum(S[2:] ** 2), S[2] ** 2)
                eq(np.sum(S[1:] ** 2), S[1] ** 2 + S[2] ** 2)
        return out

    def extreme(self, e):
        """The first singular vector is the unit vector of largest image, the last (dimension 3) that of smallest."""
        for side, rows, mul in self.facts(e._shape[0]):
            ee, ge = np.sum(e * e), np.sum(mul(e) ** 2)
            le(ge, ee * np.sum(mul(rows[0]) ** 2))
            if self.third(e._shape[0]):
                le(ee * np.sum(mul(rows[2]) ** 2), ge)


def same_dim(a, b):
    if is_int(a) and is_int(b):
        return a == b
    return not N.nf(tm.sub(dt_(a), dt_(b))).num


def eq(a, b):
    E.assume(tm.eq(tof(a), tof(b)))


def le(a, b):
    E.assume(tm.le(tof(a), tof(b)))


def about_svds(e):
    """Instantiate the extremal property of every singular value decomposition of this path at the vector e."""
    for x in list((getattr(E.facts, 'svds', None) or {}).values()):
        x.extreme(e)


def dlt_known(a, b):
    if is_int(a) and is_int(b):
        return a < b
    return E.facts.ev(tm.lt(dt_(a), dt_(b)))


def _svd_concrete(a, full, uv):
    m = mpmath.matrix([[tm.mp(tm.cv(num(a._get((i, j))))) for j in _range(a._shape[1])] for i in _range(a._shape[0])])
    n, d = m.rows, m.cols
    k = builtins.min(n, d)
    with mpmath.workprec(mpmath.mp.prec + 60):
        if n >= d:
            ev, Q = mpmath.eigsy(m.T * m)
            order = builtins.sorted(_range(d), key=lambda i: -ev[i])
            s = [mpmath.sqrt(ev[i]) if ev[i] > 0 else mpmath.mpf(0) for i in order][:k]
            V = [[Q[r, i] for r in _range(d)] for i in order]
            U = []
            for i in _range(k):
                if s[i] > (s[0] if s[0] > 0 else 1) * mpmath.mpf(2) ** -180:
                    v = m * mpmath.matrix(V[i]) / s[i]
                    U.append([v[r] for r in _range(n)])
                else:
                    s[i] = mpmath.mpf(0)
                    U.append(None)
            U = _Family(U + [None] * (n - k if full else 0), n)
            V = _Family(V, d)
        else:
            ev, Q = mpmath.eigsy(m * m.T)
            order = builtins.sorted(_range(n), key=lambda i: -ev[i])
            s = [mpmath.sqrt(ev[i]) if ev[i] > 0 else mpmath.mpf(0) for i in order][:k]
            U = [[Q[r, i] for r in _range(n)] for i in order]
            V = []
            for i in _range(k):
                if s[i] > (s[0] if s[0] > 0 else 1) * mpmath.mpf(2) ** -180:
                    v = m.T * mpmath.matrix(U[i]) / s[i]
                    V.append([v[r] for r in _range(d)])
                else:
                    s[i] = mpmath.mpf(0)
                    V.append(None)
            V = _Family(V + [None] * (d - k if full else 0), d)
            U = _Family(U, n)
    S = ndarray._make(Buf((k,), 'f', dense=[tm.C(tm.clean(x)) for x in s]))
    if not uv:
        return S
    nu = n if full else k
    nv = d if full else k
    Ua = ndarray._make(_late((n, nu), lambda i: U.entry(i[1], i[0])))
    Va = ndarray._make(_late((nv, d), lambda i: V.entry(i[0], i[1])))
    return SVDResult((Ua, S, Va))


def _late(shape, fn):
    b = Buf(shape, 'f', dense=[])
    b.dense, b.fn = None, fn
    return b


class _Family:
    """An orthonormal family whose missing members are found when one of them is looked at."""
    def __init__(self, vs, n):
        self.vs, self.n = vs, n

    def entry(self, i, j):
        i, j = (int(tm.cv(x)) if isinstance(x, T) else x for x in (i, j))
        if self.vs[i] is None:
            with mpmath.workprec(mpmath.mp.prec + 60):
                self.vs = _complete(self.vs, self.n)
        return tm.C(tm.clean(self.vs[i][j]))


def _complete(vs, n):
    """Fill the missing vectors of an orthonormal family."""
    have = [v for v in vs if v is not None]
    out = []
    for v in vs:
        if v is not None:
            out.append(v)
            continue
        for j in _range(n):
            e = [mpmath.mpf(1 if i == j else 0) for i in _range(n)]
            for h in have:
                c = builtins.sum(x * y for x, y in zip(e, h))
                e = [x - c * y for x, y in zip(e, h)]
            q = mpmath.sqrt(builtins.sum(x * x for x in e))
            if q > mpmath.mpf('0.05') / n:
                e = [x / q for x in e]
                break
        have.append(e)
        out.append(e)
    return out


def lstsq(a, b, rcond=None):
    """Contract: x satisfies the normal equations A^T A x = A^T b (the minimal-norm one)."""
    a, b = asarray(a), asarray(b)
    if b.ndim != 1 or a.ndim != 2:
        raise Unsupported('lstsq with several right-hand sides')
    if rcond is not None:
        cut = tof(rcond)
        if not (tm.is_c(cut) and tm.cv(cut) <= Fraction(1, 10 ** 13)):
            # singular values below the cut-off are dropped: nothing is known of the result
            if tm.CONCRETE[0]:
                np._match(a._shape[0], b._shape[0])
                return _lstsq_concrete(a, b, cut), None, None, None
            nm = np.opaque_name('lstsq_cut', a, np.array_id(b), N.nf(cut).key())
            x = ndarray._make(Buf((a._shape[1],), 'f', lambda i: tm.el(nm, [ix(j) for j in i])))
            return x, None, None, None
    np._match(a._shape[0], b._shape[0])
    k = a._shape[1]
    if not is_int(k):
        raise Unsupported('lstsq with symbolic columns')
    ga, gb = a._snap(), b._snap()
    n = a._shape[0]
    G = [[np._contract(lambda r: ga((r, i)), lambda r: ga((r, j)), n) for j in _range(k)] for i in _range(k)]
    h = [np._contract(lambda r: ga((r, i)), lambda r: gb((r,)), n) for i in _range(k)]
    if tm.CONCRETE[0]:
        d = det_terms(G)
        if not tm.cv(d):
            return (_lstsq_concrete(a, b, tm.C(Fraction(1, 10 ** 14))), _Opaque('lstsq residuals'), _Opaque('lstsq rank'), _Opaque('lstsq singular values'))
        x = [tm.div(det_terms([[h[i] if j == c else G[i][j] for j in _range(k)] for i in _range(k)]), d) for c in _range(k)]
    else:
        nm = np.opaque_name('lstsq', a, np.array_id(b))
        x = [tm.V(f'{nm}.{i}') for i in _range(k)]
        for i in _range(k):
            acc = tm.ZERO
            for j in _range(k):
                acc = tm.add(acc, tm.mul(G[i][j], x[j]))
            E.assume(tm.eq(acc, h[i]))
        ls = getattr(E.facts, 'lstsqs', None)
        if ls is None:
            ls = E.facts.lstsqs = {}
        ls[nm] = (a, b, x, G)
    xa = ndarray._make(Buf((k,), 'f', dense=x))
    return (xa, _Opaque('lstsq residuals'), _Opaque('lstsq rank'), _Opaque('lstsq singular values'))


def _lstsq_concrete(a, b, cut):
    """The minimal-norm solution, singular values below the cut-off dropped."""
    cut = mpmath.mpf(tm.mp(tm.cv(cut)))
    U, S, V = _svd_concrete(a, False, True)
    val = lambda t: mpmath.mpf(tm.mp(tm.cv(num(t))))
    n, k, r = a._shape[0], a._shape[1], S._shape[0]
    s = [val(S._get((i,))) for i in _range(r)]
    x = [mpmath.mpf(0)] * k
    for i in _range(r):
        if s[i] > 0 and s[i] > cut * s[0]:
            c = builtins.sum((val(U._get((j, i))) * val(b._get((j,))) for j in _range(n)), mpmath.mpf(0)) / s[i]
            x = [x[j] + c * val(V._get((i, j))) for j in _range(k)]
    return ndarray._make(Buf((k,), 'f', dense=[tm.C(tm.clean(y)) for y in x]))


class _Opaque:
    def __init__(self, what):
        self._what = what

    def __getattr__(self, n):
        raise Unsupported(self._what)


def eigh(a, UPLO='L'):
    raise Unsupported('eigh')


def eig(a):
    raise Unsupported('eig')


def pinv(a, *r, **k):
    raise Unsupported('pinv')


def cond(*a, **k):
    raise Unsupported('cond')


def multi_dot(xs):
    r = asarray(xs[0])
    for x in xs[1:]:
        r = np.dot(r, x)
    return r


def matrix_power(a, n):
    r = np.eye(asarray(a).shape[0])
    for _ in _range(n):
        r = np.dot(r, a)
    return r


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise Unsupported(f'numpy.linalg.{name}')
