"""Sparse multivariate polynomials with rational coefficients.

A polynomial is a dict  monomial -> coefficient ; a monomial is a tuple of
(atom id, exponent) pairs sorted by atom id.  Coefficients are int or Fraction.
"""
from fractions import Fraction
from math import gcd

ONE_M = ()
ZERO = {}
ONE = {ONE_M: 1}


class TooBig(BaseException):
    """A polynomial outgrew the size budget (the caller falls back to another encoding)."""


MAX_TERMS = 60000
WORK_LIMIT = 4_000_000


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = norm_c(c)
    return {ONE_M: c} if c else {}


def var(i, e=1):
    return {((i, e),): 1}


def is_const(p):
    return not p or (len(p) == 1 and ONE_M in p)


def const_val(p):
    return p.get(ONE_M, 0)


def add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def scale(p, c):
    c = norm_c(c)
    if not c:
        return {}
    if c == 1:
        return p
    return {m: norm_c(v * c) for m, v in p.items()}


def neg(p):
    return {m: -v for m, v in p.items()}


def sub(p, q):
    return add(p, neg(q))


def mul_m(m, n):
    if not m:
        return n
    if not n:
        return m
    r = []
    i = j = 0
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, b = m[i], n[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                r.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            r.append(a)
            i += 1
        else:
            r.append(b)
            j += 1
    r.extend(m[i:])
    r.extend(n[j:])
    return tuple(r)


def mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and ONE_M in p:
        return scale(q, p[ONE_M])
    if len(q) == 1 and ONE_M in q:
        return scale(p, q[ONE_M])
    if len(p) * len(q) > WORK_LIMIT:
        raise TooBig
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mul_m(m, n)
            v = r.get(k, 0) + c * d
            r[k] = v
    r = {m: norm_c(v) for m, v in r.items() if v}
    if len(r) > MAX_TERMS:
        raise TooBig
    return r


def pow_(p, n):
    r = ONE
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def atoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def key(p):
    return frozenset(p.items())


def lead(p):
    """The leading monomial under a fixed (graded, then lexicographic) order."""
    return max(p, key=_mkey)


def _mkey(m):
    return (sum(e for _, e in m), m)


def subst_var(p, i, q):
    """The polynomial p with the variable i replaced by q."""
    out = {}
    for m, c in p.items():
        e = dict(m).get(i, 0)
        t = {tuple((a, k) for a, k in m if a != i): c}
        for _ in range(e):
            t = mul(t, q)
        out = add(out, t)
    return out


def content(p):
    """Positive rational content."""
    n = 0
    d = 1
    for c in p.values():
        if isinstance(c, Fraction):
            n = gcd(n, c.numerator)
            d = d * c.denominator // gcd(d, c.denominator)
        else:
            n = gcd(n, c)
    return Fraction(n, d)


def mono_content(p):
    """The greatest monomial dividing every term."""
    it = iter(p)
    d = dict(next(it))
    for m in it:
        if not d:
            break
        dm = dict(m)
        for a in list(d):
            e = min(d[a], dm.get(a, 0))
            if e > 0:
                d[a] = e
            else:
                del d[a]
    return tuple(sorted((a, e) for a, e in d.items() if e > 0))


def div_m(m, n):
    """m / n, or None when n does not divide m."""
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        f = d.get(a, 0) - e
        if f < 0:
            return None
        if f:
            d[a] = f
        else:
            del d[a]
    return tuple(sorted(d.items()))


def div_by_m(p, n):
    if not n:
        return p
    return {div_m(m, n): c for m, c in p.items()}


def primitive(p):
    """(unit, q): p = unit * q, q primitive with positive leading coefficient."""
    if not p:
        return 0, p
    c = content(p)
    if p[lead(p)] < 0:
        c = -c
    return c, scale(p, Fraction(1) / c)


def exact_div(p, q, limit=4000):
    """p / q when q divides p, else None.

    Monomials are compared by a lexicographic order on exponent vectors, which is
    a monomial order, so the usual multivariate division is exact.
    """
    if not p:
        return {}
    if len(q) == 1:
        (m, c), = q.items()
        out = {}
        for n, d in p.items():
            k = div_m(n, m)
            if k is None:
                return None
            out[k] = norm_c(Fraction(d) / c)
        return out
    aq = atoms(q)
    if not aq <= atoms(p):
        return None
    if len(p) * len(q) > 400000:
        return None
    order = sorted(atoms(p))

    def k(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(a, 0) for a in order))

    lq = max(q, key=k)
    cq = q[lq]
    rest = [(m, c) for m, c in q.items() if m != lq]
    p = dict(p)
    out = {}
    import heapq
    heap = [(_negk(k(m)), m) for m in p]
    heapq.heapify(heap)
    steps = 0
    while p:
        while True:
            lm = heap[0][1]
            if lm in p:
                break
            heapq.heappop(heap)
        t = div_m(lm, lq)
        if t is None:
            return None
        c = norm_c(Fraction(p[lm]) / cq)
        out[t] = c
        del p[lm]
        for m, d in rest:
            n = mul_m(m, t)
            if n in p:
                v = norm_c(p[n] - c * d)
                if v:
                    p[n] = v
                else:
                    del p[n]
            else:
                p[n] = norm_c(-c * d)
                heapq.heappush(heap, (_negk(k(n)), n))
        steps += 1
        if steps > limit:
            return None
    return out


def _negk(x):
    return (-x[0], tuple(-e for e in x[1]))
