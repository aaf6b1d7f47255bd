"""Path exploration, path facts, and the sign/decision procedure."""
from fractions import Fraction
from . import poly as P
from . import term as tm
from . import nf as N
from .term import T, F, TRUE, FALSE


class EngineExit(BaseException):
    """Engine-internal control flow; never caught by code under verification."""


class PathEnd(EngineExit):
    """The current path is infeasible or was discarded by an assumption."""


class Unsupported(EngineExit):
    """The code left the fragment the engine models."""


class NeedCoords(Unsupported):
    """Retry with coordinates instead of Gram atoms."""


ALL = frozenset((-1, 0, 1))
POS = frozenset((1,))
NEG = frozenset((-1,))
ZER = frozenset((0,))
NONNEG = frozenset((0, 1))
NONPOS = frozenset((-1, 0))
NONZERO = frozenset((-1, 1))


def sneg(s):
    return frozenset(-x for x in s)


def smul(a, b):
    return frozenset(x * y for x in a for y in b)


def sadd(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == 0:
                out.add(y)
            elif y == 0 or x == y:
                out.add(x)
            else:
                return ALL
    return frozenset(out)


def square_bases(t):
    """The bases b_i of a syntactic sum of squares b_1^2 + ... (two or more terms); None otherwise."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x.op == '+':
            todo += [x.args[1], x.args[0]]
        elif x.op == '^' and isinstance(x.args[1], int) and x.args[1] == 2:
            out.append(x.args[0])
        elif x.op == '*' and x.args[0] is x.args[1]:
            out.append(x.args[0])
        else:
            return None
    return out if len(out) > 1 and len(out) <= 12 else None


_NN = {}


def square_like(t):
    """Syntactically a sum (or product) of squares, roots and absolute values: never negative."""
    r = _NN.get(t.id)
    if r is None:
        _NN[t.id] = False
        o, a = t.op, t.args
        if o == '^':
            r = isinstance(a[1], int) and a[1] % 2 == 0 or square_like(a[0])
        elif o == '*':
            r = a[0] is a[1] or (square_like(a[0]) and square_like(a[1]))
        elif o == '+':
            r = square_like(a[0]) and square_like(a[1])
        elif o == 'sum':
            r = square_like(a[2])
        elif o in ('sqrt', 'abs'):
            r = True
        elif o == '/':
            r = square_like(a[0]) and square_like(a[1])
        elif tm.is_c(t):
            r = tm.cv(t) >= 0
        else:
            r = False
        _NN[t.id] = r = bool(r)
    return r


def integral(t):
    """An integer polynomial in integer variables, one of them alone (t < 0 is then t + 1 <= 0)."""
    try:
        r = N.nf(t)
    except (P.TooBig, N.NotPoly):
        return False
    if r.den or len(r.num) < 2:
        return False
    for m, c in r.num.items():
        if Fraction(c).denominator != 1 or len(m) > 1:
            return False
        for x, e in m:
            A = N.atoms[x]
            if e != 1 or A.kind != 'v' or not A.integer:
                return False
    return True


IMPLIES = {}    # (key of q, held) -> equations that hold (or fail) with q = 0; ranks at most k, for growing k


class Facts:
    """What a path knows."""

    def __init__(self):
        self.forms = []          # asserted formulas, in order
        self.signs = {}          # poly key -> allowed signs
        self.polys = {}          # poly key -> poly
        self.known = {}          # formula key -> bool
        self.idx = {}            # index variable name -> dim term
        self.bad = False
        self.version = 0
        self._memo = {}
        self.zeros = frozenset() # atoms known to vanish
        self.bounds = {}         # key of q less its constant -> [(lower, strict) | None, (upper, strict) | None]

    def copy(self):
        f = Facts()
        f.forms = list(self.forms)
        f.signs = dict(self.signs)
        f.polys = dict(self.polys)
        f.known = dict(self.known)
        f.idx = dict(self.idx)
        f.bad = self.bad
        f.bounds = dict(self.bounds)
        f.zeros = self.zeros
        return f

    def shape(self, q):
        """q = u * (x + b) with x free of a constant term and its leading coefficient one."""
        b = q.get((), 0)
        x = {m: c for m, c in q.items() if m != ()} if b else q
        u = x[P.lead(x)]
        if u != 1:
            x = P.scale(x, Fraction(1) / u)
        return P.key(x), u, Fraction(b) / u

    def note_bound(self, q, s):
        k, u, b = self.shape(q)
        if u < 0:
            s = sneg(s)
        lo, hi = self.bounds.get(k, (None, None))
        if s <= NONNEG:
            n = (-b, 0 not in s)
            lo = n if lo is None or n > lo else lo
        if s <= NONPOS:
            n = (-b, 0 in s)
            hi = n if hi is None or n < hi else hi
        if lo is not None or hi is not None:
            self.bounds[k] = (lo, hi)

    def bound_sign(self, q):
        if not self.bounds:
            return ALL
        k, u, b = self.shape(q)
        lo, hi = self.bounds.get(k, (None, None))
        s = ALL
        if lo is not None:
            v = lo[0] + b
            if v > 0 or (v == 0 and lo[1]):
                s = POS
            elif v == 0:
                s = NONNEG
        if hi is not None:
            v = hi[0] + b
            if v < 0 or (v == 0 and not hi[1]):
                s = s & NEG
            elif v == 0:
                s = s & NONPOS
        return sneg(s) if u < 0 else s

    # -------------------------------------------------------------- sign analysis
    def atom_sign(self, A):
        s = self.signs.get(P.key(P.var(A.id)), ALL)
        if A.pos:
            s = s & POS
        elif A.nonneg:
            s = s & NONNEG
        if A.kind == 'sqrt':
            r = self.sign(A.data)
            s = s & NONNEG
            if 0 not in r:
                s = s & NONZERO
            if r == ZER:
                s = ZER
        elif A.kind == 'abs':
            r = self.sign(A.data)
            s = s & NONNEG
            if 0 not in r:
                s = s & NONZERO
            if r == ZER:
                s = ZER
        elif A.kind == 'fn' and A.data[0] == 'sign':
            s = s & self.sign(A.data[1].num)
        elif A.kind == 'inv':
            s = s & (self.sign(A.data) - ZER)
        return s

    def live(self, p):
        """The polynomial without the monomials of vanishing atoms."""
        z = self.zeros
        return {m: c for m, c in p.items() if not any(a in z for a, e in m)}

    def sign(self, p, depth=0):
        """Allowed signs of a polynomial."""
        if self.zeros:
            p = self.live(p)
        if not p:
            return ZER
        if P.is_const(p):
            return POS if P.const_val(p) > 0 else NEG
        k = P.key(p)
        m = self._memo.get(k)
        if m is not None and m[0] == self.version:
            return m[1]
        self._memo[k] = (self.version, ALL)      # cut cycles
        u, q = P.primitive(p)
        s = self._sign_prim(q, depth)
        if u < 0:
            s = sneg(s)
        self._memo[k] = (self.version, s)
        return s

    def _sign_prim(self, q, depth):
        s = self.signs.get(P.key(q), ALL)
        if len(s) > 1:
            s = s & self.bound_sign(q)
        if len(s) == 1:
            return s
        mc = P.mono_content(q)
        if mc:
            r = POS
            for a, e in mc:
                t = self.atom_sign(N.atoms[a])
                if e % 2 == 0:
                    t = smul(t, t) if len(t) == 1 else frozenset(x * x for x in t)
                r = smul(r, t)
            rest = P.div_by_m(q, mc)
            if not (P.is_const(rest)):
                r = smul(r, self.sign(rest, depth))
            return s & r
        # sum of terms of known sign
        if len(q) <= 400:
            acc = None
            for m, c in q.items():
                t = POS if c > 0 else NEG
                for a, e in m:
                    x = self.atom_sign(N.atoms[a])
                    if e % 2 == 0:
                        x = frozenset(y * y for y in x)
                    t = smul(t, x)
                acc = t if acc is None else sadd(acc, t)
                if acc == ALL:
                    break
            s = s & acc
        if len(s) > 1 and len(q) > 1 and len(q) <= 200:
            for sg in (1, -1):
                r = N.poly_sqrt(q if sg > 0 else P.neg(q))
                if r is not None:
                    t = self.sign(r, depth + 1)
                    z = frozenset(x * x * sg for x in t)
                    s = s & z
                    break
        if len(s) == 2 and 0 in s and 4 <= len(q) <= 64:
            # only zero is in question: divide out sums known to be non-zero
            for k, d in list(self.polys.items()):
                if 1 < len(d) <= 8 and len(d) < len(q) and k in self.signs and 0 not in self.signs[k]:
                    r = P.exact_div(q, d)
                    if r is not None:
                        s = s & smul(self.signs[k], self.sign(r, depth + 1))
                        break
        return s

    def rel_sign(self, t):
        """Allowed signs of a term, and its canonical (sign, poly)."""
        r = N.nf(t)
        p = r.num
        flip = 1
        for f, e in r.den:
            if e % 2:
                s = self.sign(N.factors[f])
                if s <= NONNEG:
                    continue
                if s <= NONPOS:
                    flip = -flip
                    continue
                p = N.pmul(p, N.factors[f])
        if flip < 0:
            p = P.neg(p)
        if not p:
            return ZER, 1, p
        u, q = P.primitive(p)
        s = self.sign(q)
        if u < 0:
            s = sneg(s)
        if flip > 0 and (-1 in s or 1 in s):
            want = None
            if -1 in s and square_like(t):
                want = NONNEG
            elif 1 in s and t.op == '*' and any(tm.is_c(x) and tm.cv(x) < 0 and square_like(y)
                                                for x, y in (t.args, t.args[::-1])):
                want = NONPOS
            if want is None and t.op == '*' and len(s) > 1:
                # a product of terms of known sign
                x = self.rel_sign(t.args[0])[0]
                if x != ALL:
                    y = self.rel_sign(t.args[1])[0]
                    if y != ALL:
                        want = smul(x, y)
            if want is not None:
                s = s & want
                if t.op != '/' and s:
                    self._restrict(q, s if u > 0 else sneg(s))
        return s, (1 if u > 0 else -1), q

    # -------------------------------------------------------------- evaluation
    def ev(self, f):
        """True, False or None (unknown)."""
        op, a = f.op, f.args
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op in ('lt', 'le', 'eq'):
            s, _, _ = self.rel_sign(a[0])
            if op == 'lt':
                ok = NEG
            elif op == 'le':
                ok = NONPOS
            else:
                ok = ZER
            if s <= ok:
                return True
            if not (s & ok):
                return False
            return None
        if op == 'not':
            v = self.ev(a[0])
            return None if v is None else not v
        k = N.fkey(f)
        if k in self.known:
            return self.known[k]
        if op == 'and':
            r = True
            for g in a:
                v = self.ev(g)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if op == 'all':
            body = a[2]
            # a generic instance decided by the facts decides the quantifier
            self.idx.setdefault(a[0].args[0], a[1])
            v = self.ev(body)
            if v is True:
                return True
            if v is False:
                return False      # dims are positive
            return None
        return None

    def assert_(self, f, val=True):
        if self.bad:
            return
        op, a = f.op, f.args
        if op == 'true' or op == 'false':
            if (op == 'true') != val:
                self.bad = True
            return
        if op == 'not':
            return self.assert_(a[0], not val)
        if op == 'and' and val:
            for g in a:
                self.assert_(g)
            return
        self.forms.append(f if val else tm.not_(f))
        self.version += 1
        if op in ('lt', 'le', 'eq'):
            s, sg, q = self.rel_sign(a[0])
            ok = NEG if op == 'lt' else NONPOS if op == 'le' else ZER
            if not val:
                ok = ALL - ok
            self._restrict(q, ok if sg > 0 else sneg(ok))
            if op == 'eq' and IMPLIES and q:
                for g in IMPLIES.get((P.key(q), val), ()):
                    if self.ev(g) is None:
                        self.assert_(g, val)
            if (val and op == 'lt') or (not val and op == 'le'):
                t = a[0] if val else tm.neg(a[0])
                if integral(t):
                    self.assert_(tm.le(tm.add(t, tm.ONE), tm.ZERO))
            if val and op != 'lt':
                # a vanishing sum of squares: every base vanishes
                bases = square_bases(a[0])
                if bases is not None:
                    for b in bases:
                        self.assert_(tm.eq(b, tm.ZERO, note=False))
            return
        k = N.fkey(f)
        if self.known.get(k, val) != val:
            self.bad = True
        self.known[k] = val
        if op == 'and' and not val:
            rest = [g for g in a if self.ev(g) is not True]
            if not rest:
                self.bad = True
            elif len(rest) == 1:
                self.assert_(rest[0], False)

    def _restrict(self, q, ok):
        """Record that the primitive polynomial q has a sign in ok."""
        if self.zeros and len(q) > 1:
            p = self.live(q)
            if len(p) < len(q):
                if not p:
                    if 0 not in ok:
                        self.bad = True
                    return
                u, q = P.primitive(p)
                if u < 0:
                    ok = sneg(ok)
        if not q:
            if 0 not in ok:
                self.bad = True
            return
        if P.is_const(q):
            if not (self.sign(q) & ok):
                self.bad = True
            return
        s = self.sign(q) & ok
        k = P.key(q)
        self.signs[k] = s
        self.polys[k] = q
        self.version += 1
        if not s:
            self.bad = True
            return
        if s == ZER and len(q) == 1:
            (m, _), = q.items()
            if len(m) == 1:
                self.zeros = self.zeros | {m[0][0]}
        self.note_bound(q, s)
        mc = P.mono_content(q)
        if mc and (len(mc) > 1 or len(q) > 1 or mc[0][1] > 1):
            parts = [(P.var(a), e) for a, e in mc]
            rest = P.div_by_m(q, mc)
            if not P.is_const(rest):
                u, r = P.primitive(rest)
                parts.append((r, 1))
            if 0 not in s:
                for r, e in parts:
                    self._restrict(r, NONZERO)
            elif s == ZER:
                open_ = [r for r, e in parts if 0 in self.sign(r)]
                if len(open_) == 1:
                    self._restrict(open_[0], ZER)
            self._product(parts, s)
        if len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1 and m[0][1] == 1:
                A = N.atoms[m[0][0]]
                if A.kind in ('sqrt', 'abs'):
                    if s == ZER:
                        self._restrict_any(A.data, ZER)
                    elif 0 not in s:
                        self._restrict_any(A.data, NONZERO if A.kind == 'abs' else POS)
                elif A.kind == 'fn' and A.data[0] == 'sign':
                    self._restrict_any(A.data[1].num, s)
        elif len(q) <= 200:
            if 1 < len(q) <= 8 and s != ALL and s != ZER:
                self._dominant(q, s)
            if 1 < len(q) <= 40 and s != ALL:
                self._conjugate(q, s)
            for sg in (1, -1):
                r = N.poly_sqrt(q if sg > 0 else P.neg(q))
                if r is not None:
                    if s == ZER:
                        self._restrict_any(r, ZER)
                    elif 0 not in s:
                        self._restrict_any(r, NONZERO)
                    break

    def _dominant(self, q, s):
        """q > 0 (>= 0) with all other terms <= 0: the remaining term is > 0 (>= 0)."""
        if not (s <= NONNEG or s <= NONPOS):
            return
        if s <= NONPOS:
            q, s = P.neg(q), sneg(s)
        for m, c in q.items():
            rest = {k: x for k, x in q.items() if k != m}
            r = self.sign(rest)
            if r <= NONPOS and m != ():
                t = POS if s == POS or 0 not in r else NONNEG
                if not (self.sign({m: c}) <= t):
                    self._restrict_any({m: c}, t)
                return

    def _conjugate(self, q, s):
        """q = A r1 + B r2 with radicals r1, r2 (products of square roots and absolute values):
        the radical-free product with A r1 - B r2."""
        groups = {}
        for m, c in q.items():
            r = tuple(a for a, e in m if e % 2 and N.atoms[a].kind in ('sqrt', 'abs'))
            groups.setdefault(r, {})[m] = c
            if len(groups) > 2:
                return
        if len(groups) != 2:
            return
        x, y = groups.values()
        if len(x) ** 2 + len(y) ** 2 > 2000:
            return
        prod = P.sub(N.pmul(x, x), N.pmul(y, y))
        if len(prod) > 400:
            return
        # divide by the radicands that are known to be positive
        for a in {a for r in groups for a in r if N.atoms[a].kind == 'sqrt'}:
            d = N.atoms[a].data
            if len(d) > 1 and self.sign(d) == POS:
                while len(prod) >= len(d):
                    r = P.exact_div(prod, d)
                    if r is None:
                        break
                    prod = r
        if s == ZER:
            self._restrict_any(prod, ZER)
            return
        for a, b in ((x, y), (y, x)):
            t = sadd(self.sign(a), self.sign(P.neg(b)))
            if 0 not in t:
                r = smul(s, t)
                if a is y:
                    r = sneg(r)
                if r != ALL:
                    self._restrict_any(prod, r)
                return

    def _restrict_any(self, p, ok):
        u, q = P.primitive(p)
        self._restrict(q, ok if u > 0 else sneg(ok))

    def _product(self, parts, s):
        """Propagate a known product sign to the single factor of unknown sign."""
        if len(s) != 1:
            return
        odd = [r for r, e in parts if e % 2]
        unk = [r for r in odd if len(self.sign(r)) > 1]
        if len(unk) == 1 and s != ZER:
            t = POS
            for r in odd:
                if r is not unk[0]:
                    t = smul(t, self.sign(r))
            if len(t) == 1 and t != ZER:
                self._restrict(unk[0], smul(s, t))


# ----------------------------------------------------------------------------------
# Engine
# ----------------------------------------------------------------------------------
class Engine:
    def __init__(self):
        self.facts = Facts()
        self.prefix = []
        self.trace = []          # (decision, has_alternative)
        self.pending = []
        self.depth_limit = 120
        self.fresh = 0
        self.feasible = None     # callable(Facts, F) -> False when surely infeasible
        self.notes = []
        self.n_checks = 0
        self.mapping = set()     # index variables of the rows of comprehensions being run
        self.defs = []           # equations that define fresh symbols (dependency contracts)

    # ------------------------------------------------------------ one path
    def decide(self, f, hint=None):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if tm.CONCRETE[0]:
            raise Unsupported(f'undetermined condition in a concrete run: {f}')
        v = self.facts.ev(f)
        if v is not None:
            return v
        if self.mapping and self.mapping & f.free:
            raise Unsupported('a decision about each of symbolically many rows')
        i = len(self.trace)
        if i >= self.depth_limit:
            raise Unsupported('path too deep')
        if i < len(self.prefix):
            d, alt = self.prefix[i]
        else:
            alt = True
            d = True
            if self.feasible is not None:
                if self.feasible(self.facts, f, True) is False:
                    d, alt = False, False
                elif self.feasible(self.facts, f, False) is False:
                    d, alt = True, False
        self.trace.append((d, alt))
        self.facts.assert_(f, d)
        if self.facts.bad:
            raise PathEnd('infeasible')
        return d

    def implied(self, small, large):
        """The equation `small` implies the equation `large`, on every path."""
        if small.op != 'eq' or large.op != 'eq':
            return
        for f, g, val in ((small, large, True), (large, small, False)):
            q = self.facts.rel_sign(f.args[0])[2]
            if q:
                have = IMPLIES.setdefault((P.key(q), val), [])
                if g not in have:
                    have.append(g)
            if self.facts.ev(f) is val and self.facts.ev(g) is None:
                self.facts.assert_(g, val)

    def assume(self, f):
        """A fact (dependency contract, class invariant, precondition)."""
        if f is TRUE:
            return
        if f is FALSE:
            raise PathEnd('assumption false')
        self.facts.assert_(f)
        if self.facts.bad:
            raise PathEnd('assumption contradicts path')

    def fresh_var(self, hint, **kw):
        self.fresh += 1
        return tm.V(f'{hint}~{self.fresh}', **kw)

    def fresh_name(self, hint):
        self.fresh += 1
        return f'{hint}~{self.fresh}'

    # ------------------------------------------------------------ all paths
    def explore(self, fn, max_paths=600):
        """Run fn() once per feasible path; yields (result of fn, facts)."""
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            self.reset(prefix)
            n += 1
            if n > max_paths:
                raise Unsupported('too many paths')
            try:
                r = fn()
                ended = False
            except PathEnd:
                ended = True
                r = None
            for i in range(len(prefix), len(self.trace)):
                d, alt = self.trace[i]
                if alt:
                    stack.append(self.trace[:i] + [(not d, False)])
            if not ended:
                yield r

    def reset(self, prefix=()):
        self.facts = Facts()
        self.prefix = list(prefix)
        self.trace = []
        self.fresh = 0
        self.defs = []
        self.mapping = set()
        tm._idx[0] = 0


E = Engine()


def decide(f):
    return E.decide(f)
