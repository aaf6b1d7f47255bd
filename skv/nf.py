"""Normal forms: a term as num/den over atoms, with radicals reduced."""
from fractions import Fraction
from . import poly as P
from . import term as tm
from .term import T, F

# ----------------------------------------------------------------------------------
# Atoms
# ----------------------------------------------------------------------------------


class Atom:
    __slots__ = ('id', 'kind', 'data', 'free', 'nonneg', 'pos', 'integer', 'key')

    def __repr__(self):
        return f'<{self.id}:{show_atom(self)}>'


atoms = []
_akey = {}


def atom(kind, data, key, free=frozenset(), nonneg=False, pos=False, integer=False):
    k = (kind, key)
    a = _akey.get(k)
    if a is None:
        a = Atom()
        a.id = len(atoms)
        a.kind = kind
        a.data = data
        a.free = free
        a.nonneg = nonneg or pos
        a.pos = pos
        a.integer = integer
        a.key = k
        atoms.append(a)
        _akey[k] = a
    return a


def pfree(p):
    s = frozenset()
    for i in P.atoms(p):
        s |= atoms[i].free
    return s


class Rat:
    """num / prod(factor^exp); factors are primitive non-constant polynomials (by key)."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den if num else ()

    def __repr__(self):
        return show_rat(self)

    def key(self):
        return (P.key(self.num), self.den)


factors = []        # fid -> polynomial
_fkey = {}


def fid_of(p):
    k = P.key(p)
    i = _fkey.get(k)
    if i is None:
        i = len(factors)
        factors.append(p)
        _fkey[k] = i
    return i


def den_poly(den):
    r = P.ONE
    for f, e in den:
        r = P.mul(r, P.pow_(factors[f], e))
    return r


R0 = Rat({})
R1 = Rat(P.ONE)


def rconst(c):
    return Rat(P.const(c))


# ----------------------------------------------------------------------------------
# Reduction of radicals and similar atoms inside a polynomial
# ----------------------------------------------------------------------------------
def reducible(a, e):
    k = a.kind
    return (e >= 2 and (k in ('sqrt', 'abs', 'ind') or (k == 'fn' and a.data[0] == 'sin'))) or \
        (e >= 3 and k == 'fn' and a.data[0] == 'sign')


def reduce_poly(p):
    """Rewrite s^2 -> radicand, |t|^2 -> t^2, indicator^2 -> indicator, sin^2 -> 1 - cos^2."""
    for _ in range(64):
        bad = [m for m in p if any(e >= 2 and reducible(atoms[a], e) for a, e in m)]
        if not bad:
            return p
        out = dict(p)
        acc = {}
        for m in bad:
            c = out.pop(m)
            r = {(): c}
            rest = []
            for a, e in m:
                A = atoms[a]
                if e >= 2 and reducible(A, e):
                    if A.kind == 'sqrt':
                        if e % 2:
                            rest.append((a, 1))
                        r = P.mul(r, P.pow_(A.data, e // 2))
                    elif A.kind == 'abs':
                        if e % 2:
                            rest.append((a, 1))
                        r = P.mul(r, P.pow_(A.data, (e // 2) * 2))
                    elif A.kind == 'ind':
                        rest.append((a, 1))
                    elif A.data[0] == 'sign':
                        rest.append((a, e - 2 * ((e - 1) // 2)))
                    else:
                        if e % 2:
                            rest.append((a, 1))
                        ca = fn_atom('cos', A.data[1:])
                        q = P.sub(P.ONE, P.var(ca.id, 2))
                        r = P.mul(r, P.pow_(q, e // 2))
                else:
                    rest.append((a, e))
            rest = tuple(sorted(rest))
            acc = P.add(acc, {P.mul_m(n, rest): d for n, d in r.items()})
        p = P.add(out, acc)
    return p


def pmul(p, q):
    return reduce_poly(P.mul(p, q))


def ppow(p, n):
    r = P.ONE
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def mk_rat(num, dens):
    """num / prod(p^e) for arbitrary polynomials p (as (poly, e) pairs): canonical Rat."""
    d = {}
    work = list(dens)
    num = reduce_poly(num)
    while work:
        p, e = work.pop()
        if P.is_const(p):
            num = P.scale(num, Fraction(1) / Fraction(P.const_val(p)) ** e)
            continue
        mc = P.mono_content(p)
        if mc:
            p = P.div_by_m(p, mc)
            for a, k in mc:
                A = atoms[a]
                n = k * e
                if A.kind in ('sqrt', 'abs'):
                    if n % 2:
                        num = pmul(num, P.var(a))
                        n += 1
                    q = A.data if A.kind == 'sqrt' else P.mul(A.data, A.data) if len(A.data) < 2 else None
                    if A.kind == 'sqrt':
                        work.append((A.data, n // 2))
                    else:
                        work.append((A.data, n))
                else:
                    f = fid_of(P.var(a))
                    d[f] = d.get(f, 0) + n
            work.append((p, e))
            continue
        u, q = P.primitive(p)
        num = P.scale(num, Fraction(1) / Fraction(u) ** e)
        f = fid_of(q)
        d[f] = d.get(f, 0) + e
    return cancel(num, d)


def cancel(num, d):
    if not num:
        return R0
    out = {}
    if d:
        mc = dict(P.mono_content(num))
        for f, e in d.items():
            q = factors[f]
            if len(q) == 1:
                (m, _), = q.items()
                a = m[0][0]
                k = min(mc.get(a, 0), e)
                if k:
                    num = P.div_by_m(num, ((a, k),))
                    mc[a] -= k
                    e -= k
            else:
                while e and len(num) >= len(q) and len(num) <= 3000:
                    r = P.exact_div(num, q)
                    if r is None:
                        break
                    num = r
                    e -= 1
            if e:
                out[f] = e
    return Rat(num, tuple(sorted(out.items())))


def radd(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if a.den == b.den:
        return cancel(P.add(a.num, b.num), dict(a.den))
    da, db = dict(a.den), dict(b.den)
    d = dict(da)
    for f, e in db.items():
        d[f] = max(d.get(f, 0), e)
    na, nb = a.num, b.num
    for f, e in d.items():
        k = e - da.get(f, 0)
        if k:
            na = pmul(na, ppow(factors[f], k))
        k = e - db.get(f, 0)
        if k:
            nb = pmul(nb, ppow(factors[f], k))
    return cancel(P.add(na, nb), d)


def rmul(a, b):
    if not a.num or not b.num:
        return R0
    if a.den and b.den or a.den or b.den:
        # cancel crosswise first: keeps intermediate products small
        a2 = cancel(a.num, dict(b.den)) if b.den else a
        b2 = cancel(b.num, dict(a.den)) if a.den else b
        na, nb = a2.num, b2.num
        d = {}
        for f, e in (a2.den if b.den else ()):
            d[f] = d.get(f, 0) + e
        for f, e in (b2.den if a.den else ()):
            d[f] = d.get(f, 0) + e
        raw = P.mul(na, nb)
        red = reduce_poly(raw)
        if red is raw:
            return cancel(red, d) if len(d) and len(raw) < 200 else Rat(red, tuple(sorted(d.items())))
        return cancel(red, d)
    return Rat(pmul(a.num, b.num))


def rscale(a, c):
    return Rat(P.scale(a.num, c), a.den)


def rneg(a):
    return Rat(P.neg(a.num), a.den)


def rinv(a):
    return mk_rat(den_poly(a.den), [(a.num, 1)])


def rpow(a, n):
    r = R1
    for _ in range(n):
        r = rmul(r, a)
    return r


def rdiv(a, b):
    if not b.num:
        raise ZeroDivisionError
    return rmul(a, rinv(b))


# ----------------------------------------------------------------------------------
# Structural sign knowledge (independent of the path)
# ----------------------------------------------------------------------------------
def p_nonneg(p):
    """Every monomial is an even power or a product of non-negative atoms, coefficients > 0."""
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not atoms[a].nonneg:
                return False
    return True


def p_pos(p):
    if not p_nonneg(p):
        return False
    for m, c in p.items():
        if all(atoms[a].pos for a, e in m):
            return True
    return False


# ----------------------------------------------------------------------------------
# sqrt and abs
# ----------------------------------------------------------------------------------
def poly_sqrt(p):
    """q with q^2 = p as polynomials, or None."""
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if c < 0 or any(e % 2 for _, e in m):
            return None
        c = Fraction(c)
        a, b = tm._isqrt(c.numerator), tm._isqrt(c.denominator)
        if a is None or b is None:
            return None
        return {tuple((x, e // 2) for x, e in m): P.norm_c(Fraction(a, b))}
    if len(p) > 1500:
        return None
    order = sorted(P.atoms(p))

    def k(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(a, 0) for a in order))
    lm = max(p, key=k)
    r0 = poly_sqrt({lm: p[lm]})
    if r0 is None:
        return None
    (m0, c0), = r0.items()
    q = dict(r0)
    rem = P.sub(p, P.mul(q, q))
    steps = 0
    while rem:
        lm = max(rem, key=k)
        t = P.div_m(lm, m0)
        if t is None or k(t) >= k(m0):
            return None
        c = P.norm_c(Fraction(rem[lm]) / (2 * c0))
        term = {t: c}
        # rem -= 2*q*term + term^2
        rem = P.sub(rem, P.add(P.scale(P.mul(q, term), 2), P.mul(term, term)))
        q = P.add(q, term)
        steps += 1
        if steps > 80:
            return None
    return q


def sqrt_free(n):
    """n = s^2 * r with r square-free (trial division by small primes)."""
    s = 1
    r = n
    f = 2
    while f * f <= r and f < 1000:
        while r % (f * f) == 0:
            r //= f * f
            s *= f
        f += 1
    q = tm._isqrt(r)
    if q is not None:
        return s * q, 1
    return s, r


def sqrt_atom(p):
    return atom('sqrt', p, P.key(p), pfree(p), nonneg=True, pos=p_pos(p))


def abs_poly(p):
    """|p| as a polynomial over atoms."""
    if p_nonneg(p):
        return p
    if p_nonneg(P.neg(p)):
        return P.neg(p)
    u, q = P.primitive(p)
    out = P.const(abs(u))
    mc = P.mono_content(q)
    q = P.div_by_m(q, mc)
    for a, e in mc:
        A = atoms[a]
        if A.nonneg or e % 2 == 0:
            out = P.mul(out, P.var(a, e))
        else:
            if e > 1:
                out = P.mul(out, P.var(a, e - 1))
            b = P.var(a)
            out = P.mul(out, P.var(atom('abs', b, P.key(b), pfree(b), nonneg=True).id))
    if not P.is_const(q):
        u, q = P.primitive(q)
        if not p_nonneg(q):
            out = P.mul(out, P.var(atom('abs', q, P.key(q), pfree(q), nonneg=True).id))
        else:
            out = P.mul(out, q)
    elif P.const_val(q) != 1:
        out = P.scale(out, abs(P.const_val(q)))
    return reduce_poly(out)


def rabs(r):
    return mk_rat(abs_poly(r.num), [(abs_poly(factors[f]), e) for f, e in r.den])


def rsqrt(r):
    if not r.num:
        return R0
    num = r.num
    outn = P.ONE
    dens = []
    for f, e in r.den:
        q = factors[f]
        if e % 2 == 0:
            dens.append((abs_poly(q), e // 2))
            continue
        if len(q) == 1:
            a = next(iter(q))[0][0]
            if atoms[a].nonneg:
                outn = pmul(outn, P.var(sqrt_atom(q).id))
                dens.append((q, (e + 1) // 2))
                continue
        num = pmul(num, q)
        dens.append((abs_poly(q), (e + 1) // 2))
    c = P.content(num)
    num = P.scale(num, Fraction(1) / c)
    # rational content: sqrt(p/q) = sqrt(p*q)/q
    s, k = sqrt_free(c.numerator * c.denominator)
    outn = P.scale(outn, Fraction(s, c.denominator))
    mc = P.mono_content(num)
    num = P.div_by_m(num, mc)
    inside = []
    for a, e in mc:
        A = atoms[a]
        if e >= 2:
            outn = pmul(outn, abs_poly(P.var(a, e // 2)))
        if e % 2:
            if A.nonneg:
                outn = pmul(outn, P.var(sqrt_atom(P.var(a)).id))
            else:
                inside.append((a, 1))
    if P.is_const(num):
        v = P.const_val(num)
        if not inside and v == 1:
            num = None
        elif v != 1:
            num = P.const(v)
    if num is not None:
        num = P.mul(num, {tuple(inside): 1})
        q = poly_sqrt(num) if not inside else None
        if q is not None:
            outn = pmul(outn, abs_poly(q))
        elif k != 1 and p_nonneg(num):
            outn = pmul(outn, P.var(sqrt_atom(num).id))
        else:
            num = P.scale(num, k)
            k = 1
            outn = pmul(outn, P.var(sqrt_atom(num).id))
    if k != 1:
        outn = pmul(outn, P.var(sqrt_atom(P.const(k)).id))
    return mk_rat(outn, dens)


# ----------------------------------------------------------------------------------
# Opaque functions
# ----------------------------------------------------------------------------------
def fn_atom(name, rats):
    key = (name,) + tuple(r.key() for r in rats)
    free = frozenset()
    for r in rats:
        free |= rfree(r)
    return atom('fn', (name,) + tuple(rats), key, free)


def rfree(r):
    s = pfree(r.num)
    for f, _ in r.den:
        s |= pfree(factors[f])
    return s


def one_atom(r):
    """The atom when r is exactly one atom, else None."""
    if r.den or len(r.num) != 1:
        return None
    (m, c), = r.num.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
        return atoms[m[0][0]]
    return None


def av(a):
    return Rat(P.var(a.id))


def rfn(name, rats):
    r = rats[0]
    if name in ('sin', 'cos') and not r.num:
        return R0 if name == 'sin' else R1
    if name in ('sin', 'cos'):
        A = one_atom(r)
        s = 1
        if A is None:
            A = one_atom(rneg(r))
            s = -1
        if A is not None and A.kind == 'fn':
            if A.data[0] == 'acos':
                x = A.data[1]
                if name == 'cos':
                    return x
                q = rsqrt(radd(R1, rneg(rmul(x, x))))
                return q if s > 0 else rneg(q)
            if A.data[0] == 'atan2':
                y, x = A.data[1], A.data[2]
                h = rsqrt(radd(rmul(x, x), rmul(y, y)))
                if name == 'cos':
                    return rdiv(x, h)
                q = rdiv(y, h)
                return q if s > 0 else rneg(q)
        pia = atom('v', 'pi', 'pi', pos=True)
        # multiples of pi and sign normalisation
        if not r.den and len(r.num) == 1:
            (m, c), = r.num.items()
            if m == ((pia.id, 1),):
                c = Fraction(c)
                if (2 * c).denominator == 1:
                    k = int(2 * c) % 4
                    return rconst(([0, 1, 0, -1] if name == 'sin' else [1, 0, -1, 0])[k])
        if r.num[P.lead(r.num)] < 0:
            if name == 'cos':
                return av(fn_atom('cos', [rneg(r)]))
            return rneg(av(fn_atom('sin', [rneg(r)])))
    if name == 'sign':
        if not r.num:
            return R0
        num = r.num
        u, q = P.primitive(num)
        s = 1 if u > 0 else -1
        out = P.const(s)
        dn = P.ONE
        mult = q
        for f, e in r.den:
            if e % 2 and not p_nonneg(factors[f]):
                mult = pmul(mult, factors[f])
        if p_pos(mult):
            return rconst(s)
        u, q = P.primitive(mult)
        s *= 1 if u > 0 else -1
        return rscale(av(fn_atom('sign', [Rat(q)])), s)
    if name in ('floor', 'trunc', 'round') and rint(r):
        return r
    return av(fn_atom(name, rats))


def rint(r):
    return not r.den and all(Fraction(c).denominator == 1 and all(atoms[a].integer for a, _ in m)
                             for m, c in r.num.items())


# ----------------------------------------------------------------------------------
# Renaming of index variables inside atoms
# ----------------------------------------------------------------------------------
_sub_cache = {}


def sub_poly(p, name, to):
    """Replace the free index variable `name` by the polynomial `to` (an index expression)."""
    out = {}
    for m, c in p.items():
        if not any(name in atoms[a].free for a, _ in m):
            out = P.add(out, {m: c})
            continue
        r = {(): c}
        for a, e in m:
            A = atoms[a]
            if name in A.free:
                r = P.mul(r, P.pow_(sub_atom(A, name, to), e))
            else:
                r = P.mul(r, P.var(a, e))
        out = P.add(out, r)
    return reduce_poly(out)


def sub_rat(r, name, to):
    if name not in rfree(r):
        return r
    return mk_rat(sub_poly(r.num, name, to), [(sub_poly(factors[f], name, to), e) for f, e in r.den])


def sub_atom(A, name, to):
    """Polynomial resulting from substituting inside one atom."""
    k = (A.id, name, P.key(to))
    r = _sub_cache.get(k)
    if r is None:
        r = _sub_cache[k] = _sub_atom(A, name, to)
    return r


def _aspoly(r):
    if r.den:
        # only polynomial results can sit inside a polynomial
        raise NotPoly
    return r.num


class NotPoly(BaseException):
    pass


def _sub_atom(A, name, to):
    k = A.kind
    if k == 'v':
        return to
    if k == 'el':
        arr, idx = A.data
        return P.var(el_atom(arr, [sub_poly(i, name, to) for i in idx]).id)
    if k == 'sum':
        h, dim, mono = A.data
        return P.var(sum_atom(h, sub_poly(dim, name, to), _mono(sub_poly(mono, name, to))).id)
    if k == 'sqrt':
        return _aspoly(rsqrt(Rat(sub_poly(A.data, name, to))))
    if k == 'abs':
        return abs_poly(sub_poly(A.data, name, to))
    if k == 'fn':
        return _aspoly(rfn(A.data[0], [sub_rat(r, name, to) for r in A.data[1:]]))
    if k == 'inv':
        return P.var(inv_atom(sub_poly(A.data, name, to)).id)
    if k == 'ind':
        return ind_poly(A.data[0], sub_poly(A.data[1], name, to))
    if k == 'ite':
        f, a, b = A.data
        t = tm.V(name)
        raise NotPoly
    raise NotPoly


def _mono(p):
    return p


def el_atom(arr, idx):
    free = frozenset()
    for i in idx:
        free |= pfree(i)
    return atom('el', (arr, tuple(idx)), (arr,) + tuple(P.key(i) for i in idx), free, nonneg=arr.startswith('+'))


def el_poly(arr, idx):
    """An element at indices chosen by indicators: the choice is made outside."""
    for p in idx:
        for a in P.atoms(p):
            A = atoms[a]
            if A.kind == 'ind':
                on = [P.subst_var(q, a, P.ONE) for q in idx]
                off = [P.subst_var(q, a, {}) for q in idx]
                op, c = A.data
                if op == 'eq' and len(c) == 1 and len(next(iter(c))) == 1 and next(iter(c))[0][1] == 1:
                    v = atoms[next(iter(c))[0][0]]
                    if v.kind == 'v':
                        on = [P.subst_var(q, v.id, {}) for q in on]
                I = P.var(a)
                return P.add(pmul(I, el_poly(arr, on)), pmul(P.sub(P.ONE, I), el_poly(arr, off)))
    return P.var(el_atom(arr, idx).id)


def inv_atom(p):
    return atom('inv', p, P.key(p), pfree(p), nonneg=p_nonneg(p), pos=p_pos(p))


def is_index(A):
    return isinstance(A.data, str) and '!' in A.data


def ind_poly(op, p):
    """Indicator (0/1) of an index condition p == 0 / p < 0 / p <= 0."""
    if P.is_const(p):
        v = P.const_val(p)
        return P.ONE if (v == 0 if op == 'eq' else v < 0) else {}
    if op == 'eq':
        u, p = P.primitive(p)
    else:
        p = P.scale(p, Fraction(1) / P.content(p))
        ms = [m for m in p if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            A, c, b = atoms[ms[0][0][0]], p[ms[0]], p.get((), 0)
            if A.kind == 'v' and A.nonneg and (A.integer or is_index(A)) and c in (1, -1):
                if c == 1 and b == -1:                  # i < 1
                    return ind_poly('eq', P.var(A.id))
                if c == -1 and b == 0:                  # i > 0
                    return P.sub(P.ONE, ind_poly('eq', P.var(A.id)))
                if c == 1 and b >= 0:                   # i < 0
                    return {}
                if c == -1 and b < 0:                   # i > -1
                    return P.ONE
    return P.var(atom('ind', (op, p), (op, P.key(p)), pfree(p), nonneg=True).id)


# ----------------------------------------------------------------------------------
# Sums
# ----------------------------------------------------------------------------------
def bvar(h):
    return atom('v', f'%{h}', f'%{h}', frozenset([f'%{h}']), nonneg=True, integer=True)


def height(p):
    """Greatest binder level used inside the atoms of p (bound sums only)."""
    h = 0
    for i in P.atoms(p):
        h = max(h, aheight(atoms[i]))
    return h


def aheight(A):
    k = A.kind
    if k == 'sum':
        return max(A.data[0], height(A.data[2]))
    if k in ('sqrt', 'abs', 'inv'):
        return height(A.data)
    if k == 'fn':
        return max((max(height(r.num), max((height(factors[f]) for f, _ in r.den), default=0))
                    for r in A.data[1:]), default=0)
    return 0


def _sumsq(mono):
    """A monomial (coefficient 1) all of whose exponents are even or atoms non-negative."""
    (m, c), = mono.items()
    return all(e % 2 == 0 or atoms[a].nonneg for a, e in m)


def sum_atom(h, dim, mono):
    (m, c), = mono.items()
    bv = bvar(h)
    free = (pfree(mono) - bv.free) | pfree(dim)
    return atom('sum', (h, dim, mono), (h, P.key(dim), P.key(mono)), free, nonneg=_sumsq(mono))


def rsum(kname, dim, body):
    """Sum over index kname < dim (poly) of the Rat body."""
    dens = [(f, e) for f, e in body.den]
    outer = []
    num = body.num
    for f, e in dens:
        if kname in pfree(factors[f]):
            # 1/f depends on the index: keep it as an opaque generator
            num = P.mul(num, P.pow_(P.var(inv_atom(factors[f]).id), e))
        else:
            outer.append((factors[f], e))
    res = {}
    kid = None
    for m, c in num.items():
        dep = tuple((a, e) for a, e in m if kname in atoms[a].free)
        ind = tuple((a, e) for a, e in m if kname not in atoms[a].free)
        res = P.add(res, P.scale(P.mul({ind: 1}, _sum_mono(kname, dim, dep)), c))
    return mk_rat(res, outer)


_fub = [0]


def _okey(p):
    return sorted((m, str(c)) for m, c in p.items())


def _swapped(kname, dim, dep, a):
    """The double sum over kname and the index of the sum atom a, in the other order."""
    h, dim2, mono = a.data
    _fub[0] += 1
    j = f'%s{_fub[0]}'
    jv = atom('v', j, j, frozenset([j]), nonneg=True, integer=True)
    (m, c), = P.mul({tuple((x, e) for x, e in dep if x != a.id): 1}, sub_poly(mono, f'%{h}', P.var(jv.id))).items()
    r = {}
    for m2, c2 in P.mul({tuple((x, e) for x, e in m if kname not in atoms[x].free): c},
                        _sum_mono(kname, dim, tuple((x, e) for x, e in m if kname in atoms[x].free), False)).items():
        d = tuple((x, e) for x, e in m2 if j in atoms[x].free)
        i = tuple((x, e) for x, e in m2 if j not in atoms[x].free)
        r = P.add(r, P.scale(P.mul({i: 1}, _sum_mono(j, dim2, d, False)), c2))
    return r


def _sum_mono(kname, dim, dep, swap=True):
    if not dep:
        return dim
    if swap:
        sums = [(atoms[a], e) for a, e in dep if atoms[a].kind == 'sum']
        if len(sums) == 1 and sums[0][1] == 1 and len(sums[0][0].data[2]) == 1 and kname not in pfree(sums[0][0].data[1]):
            # one order for a double sum
            a = sums[0][0]
            x, y = _okey(a.data[1]), _okey(dim)
            if x == y:
                r, q = _sum_mono(kname, dim, dep, False), _swapped(kname, dim, dep, a)
                return min(r, q, key=_okey)
            if x > y:
                return _swapped(kname, dim, dep, a)
    # indicator of k == c picks one element
    for a, e in dep:
        A = atoms[a]
        if A.kind == 'ind':
            op, p = A.data
            ka = _akey.get(('v', kname))
            lin = {m: c for m, c in p.items() if any(x == ka.id for x, _ in m)} if ka is not None else {}
            if len(lin) == 1 and next(iter(lin)) == ((ka.id, 1),):
                coef = lin[((ka.id, 1),)]
                rest = P.scale(P.sub(p, lin), Fraction(-1) / coef)
                others = tuple((b, f) for b, f in dep if b != a)
                if op == 'eq' and _inrange(rest, dim):
                    return sub_poly({others: 1}, kname, rest)
                if op == 'lt' and coef > 0:
                    # k < rest: shorten the range when rest <= dim is structural
                    d2 = rest
                    if d2 == dim or _le_dim(d2, dim):
                        return _sum_mono(kname, d2, others)
    # common shift: all occurrences as k + c
    p = {dep: 1}
    c = _shift(dep, kname)
    if c:
        ka = _akey[('v', kname)]
        q = sub_poly(p, kname, P.sub(P.var(ka.id), P.const(c)))
        full = P.add(dim, P.const(c))
        (m, cc), = q.items()
        r = _sum_mono(kname, full, m)
        for j in range(c):
            r = P.sub(r, sub_poly(q, kname, P.const(j)))
        return r
    h = 1 + height(p)
    bv = bvar(h)
    q = sub_poly(p, kname, P.var(bv.id))
    (m, cc), = q.items()
    if P.is_const(dim) and P.const_val(dim) <= 6:
        r = {}
        for j in range(int(P.const_val(dim))):
            r = P.add(r, sub_poly(p, kname, P.const(j)))
        return r
    return P.scale(P.var(sum_atom(h, dim, {m: 1}).id), cc)


MIN = {}        # least value of a dimension variable (a fact about every use of that name)


def _inrange(rest, dim):
    if not P.is_const(rest):
        return False
    c = P.const_val(rest)
    if c == 0:
        return True          # dims are positive
    if P.is_const(dim):
        return 0 <= c < P.const_val(dim)
    if len(dim) == 1:
        (m, k), = dim.items()
        if len(m) == 1 and m[0][1] == 1 and k == 1 and atoms[m[0][0]].kind == 'v':
            return 0 < c < MIN.get(atoms[m[0][0]].data, 1)
    return False


def _le_dim(a, b):
    return False


def _shift(dep, kname):
    """c > 0 when every element atom indexes with k + c (same c), else 0."""
    ka = _akey.get(('v', kname))
    if ka is None:
        return 0
    cs = set()
    for a, e in dep:
        A = atoms[a]
        if A.kind != 'el':
            return 0
        for i in A.data[1]:
            if kname in pfree(i):
                if i.get(((ka.id, 1),)) != 1 or any(m not in ((), ((ka.id, 1),)) for m in i):
                    return 0
                cs.add(i.get((), 0))
    if len(cs) == 1:
        c = cs.pop()
        if isinstance(c, int) and 0 < c <= 8:
            return c
    return 0


# ----------------------------------------------------------------------------------
# Term -> Rat
# ----------------------------------------------------------------------------------
def var_atom(t):
    name = t.args[0]
    return atom('v', name, name, t.free, nonneg=t.id in tm.nonneg or t.id in tm.positive,
                pos=t.id in tm.positive, integer=t.id in tm.ints)


import sys
sys.setrecursionlimit(20000)


def nf(t):
    r = t._nf
    if r is None:
        r = t._nf = _nf(t)
    return r


def _nf(t):
    op, a = t.op, t.args
    if op == 'c':
        if not isinstance(a[0], Fraction):
            raise ValueError('inexact constant in a symbolic term')
        return rconst(a[0])
    if op == 'v':
        return av(var_atom(t))
    if op == '+':
        return radd(nf(a[0]), nf(a[1]))
    if op == '*':
        return rmul(nf(a[0]), nf(a[1]))
    if op == '/':
        return rdiv(nf(a[0]), nf(a[1]))
    if op == '^':
        return rpow(nf(a[0]), a[1])
    if op == 'sqrt':
        return rsqrt(nf(a[0]))
    if op == 'abs':
        return rabs(nf(a[0]))
    if op == 'fn':
        return rfn(a[0], [nf(x) for x in a[1:]])
    if op == 'el':
        return Rat(el_poly(a[0], [nf(i).num for i in a[1:]]))
    if op == 'sum':
        return rsum(a[0].args[0], nf(a[1]).num, nf(a[2]))
    if op == 'ite':
        return nf_ite(a[0], a[1], a[2])
    if op in ('nan', 'inf'):
        raise tm.NonFiniteUse(op)
    raise ValueError(op)


def is_index_cond(f):
    return f.op in ('eq', 'lt', 'le') and rint(nf(f.args[0]))


def cond_ind(f):
    """Indicator polynomial of a formula over indices, or None."""
    if f.op in ('eq', 'lt', 'le') and rint(nf(f.args[0])):
        p = nf(f.args[0]).num
        if f.op == 'le':
            return ind_poly('lt', P.sub(p, P.ONE))
        return ind_poly(f.op, p)
    if f.op == 'not':
        q = cond_ind(f.args[0])
        return None if q is None else P.sub(P.ONE, q)
    if f.op == 'and':
        r = P.ONE
        for g in f.args:
            q = cond_ind(g)
            if q is None:
                return None
            r = pmul(r, q)
        return r
    return None


def nf_ite(c, x, y):
    q = cond_ind(c)
    if q is not None:
        rx, ry = nf(x), nf(y)
        return radd(ry, rmul(Rat(q), radd(rx, rneg(ry))))
    rx, ry = nf(x), nf(y)
    k = (fkey(c), rx.key(), ry.key())
    return av(atom('ite', (c, x, y), k, c.free | x.free | y.free))


# ----------------------------------------------------------------------------------
# Canonical keys of formulas
# ----------------------------------------------------------------------------------
_fk = {}


def fkey(f):
    k = _fk.get(f.id)
    if k is None:
        k = _fk[f.id] = _fkey_(f)
    return k


def rel_poly(t):
    """(sign, polynomial q): t and sign*q have the same sign wherever t is defined.

    Odd denominator factors of unknown sign are multiplied in.
    """
    r = nf(t)
    p = r.num
    for f, e in r.den:
        if e % 2 and not p_nonneg(factors[f]):
            p = pmul(p, factors[f])
    if not p:
        return 0, p
    u, q = P.primitive(p)
    return (1 if u > 0 else -1), q


def _fkey_(f):
    op, a = f.op, f.args
    if op in ('lt', 'le', 'eq'):
        s, q = rel_poly(a[0])
        if P.is_const(q):
            v = s * P.const_val(q)
            return ('true',) if (v < 0 if op == 'lt' else v <= 0 if op == 'le' else v == 0) else ('false',)
        return (op, s if op != 'eq' else 1, P.key(q))
    if op == 'not':
        return ('not', fkey(a[0]))
    if op == 'and':
        return ('and', frozenset(fkey(x) for x in a))
    if op == 'all':
        k, dim, body = a
        h = 1 + f_height(body)
        b = bound_idx(h)
        return ('all', h, nf(dim).key(), fkey(tm.subst(body, {k: b})))
    if op == 'pred':
        return ('pred',) + tuple(nf(x).key() if isinstance(x, T) else fkey(x) if isinstance(x, F) else x for x in a)
    return (op,)


def f_height(f):
    if f.op == 'all':
        return 1 + f_height(f.args[2])
    return max((f_height(x) for x in f.args if isinstance(x, F)), default=0)


def bound_idx(h):
    t = tm._mk('v', (f'@{h}',), frozenset([f'@{h}']))
    tm.ints.add(t.id)
    tm.nonneg.add(t.id)
    return t


# ----------------------------------------------------------------------------------
# Printing
# ----------------------------------------------------------------------------------
def show_atom(A):
    k, d = A.kind, A.data
    if k == 'v':
        return d
    if k == 'el':
        return f"{d[0]}[{','.join(show_poly(i) for i in d[1])}]"
    if k == 'sum':
        return f'Σ%{d[0]}<{show_poly(d[1])}({show_poly(d[2])})'
    if k in ('sqrt', 'abs', 'inv'):
        return f'{k}({show_poly(d)})'
    if k == 'ind':
        return f'[{show_poly(d[1])} {d[0]} 0]'
    if k == 'fn':
        return f"{d[0]}({', '.join(show_rat(r) for r in d[1:])})"
    if k == 'ite':
        return f'ite({d[0]},{d[1]},{d[2]})'
    return k


def show_poly(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda x: P._mkey(x[0]), reverse=True)[:12]:
        s = '*'.join(show_atom(atoms[a]) + (f'^{e}' if e > 1 else '') for a, e in m)
        if not s:
            s = str(c)
        elif c != 1:
            s = f'{c}*{s}' if c != -1 else f'-{s}'
        out.append(s)
    if len(p) > 12:
        out.append(f'... {len(p)} terms')
    return ' + '.join(out).replace('+ -', '- ')


def show_rat(r):
    if not r.den:
        return show_poly(r.num)
    return f"({show_poly(r.num)})/({' * '.join('(' + show_poly(factors[f]) + ')' + (f'^{e}' if e > 1 else '') for f, e in r.den)})"
