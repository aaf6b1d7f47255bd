"""Discharging obligations: normal forms, rewriting by hypotheses, case splits, then z3 / cvc5."""
import itertools
import time
from fractions import Fraction
import z3
from . import poly as P
from . import term as tm
from . import nf as N
from .term import T, F, TRUE, FALSE
from .engine import E, Facts, ALL, POS, NEG, ZER, NONNEG, NONPOS, NONZERO, Unsupported, sneg

STATS = {'nf': 0, 'facts': 0, 'rewrite': 0, 'split': 0, 'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'z3_calls': 0}
RLIMIT = 4_000_000
RLIMIT_FEAS = 150_000
Z3_TIMEOUT = 60000      # a backstop only: the resource limits decide (an interrupted z3 may crash, and depends on load)


# ----------------------------------------------------------------------------------
# Rewriting of polynomials under path facts
# ----------------------------------------------------------------------------------
class Rewriter:
    """Resolves abs/sign/ite atoms of known sign and reduces by hypothesis equalities."""

    def __init__(self, facts):
        self.f = facts
        self.cache = {}
        self.rules = None

    # ---- atoms
    def atom(self, A):
        r = self.cache.get(A.id)
        if r is None:
            self.cache[A.id] = N.av(A)
            r = self.cache[A.id] = self._atom(A)
        return r

    def _atom(self, A):
        k = A.kind
        f = self.f
        if k == 'abs':
            d = self.poly(A.data)
            if not d.den:
                s = f.sign(d.num)
                if s <= NONNEG:
                    return d
                if s <= NONPOS:
                    return N.rneg(d)
            s = f.sign(A.data)
            if s <= NONNEG:
                return d
            if s <= NONPOS:
                return N.rneg(d)
            return N.rabs(d)
        if k == 'sqrt':
            d = self.poly(A.data)
            if d.num == A.data and not d.den:
                return N.av(A)
            return self.rat_atoms(N.rsqrt(d), skip=A.id)
        if k == 'fn':
            if A.data[0] == 'sign':
                x = self.rat(A.data[1])
                s = f.sign(x.num) if not x.den else None
                s2 = f.sign(A.data[1].num)
                for t in (s, s2):
                    if t is not None and len(t) == 1:
                        return N.rconst(next(iter(t)))
                return N.rfn('sign', [x])
            if A.data[0].startswith('extreme') or A.data[0].startswith('flat_'):
                return N.av(A)
            xs = [self.rat(x) for x in A.data[1:]]
            if all(x.key() == y.key() for x, y in zip(xs, A.data[1:])):
                return N.av(A)
            return N.rfn(A.data[0], xs)
        if k == 'ite':
            c, a, b = A.data
            v = f.ev(c)
            if v is True:
                return self.rat(N.nf(a))
            if v is False:
                return self.rat(N.nf(b))
            return N.av(A)
        if k == 'ind':
            op, p = A.data
            s = f.sign(p)
            ok = ZER if op == 'eq' else NEG
            if s <= ok:
                return N.R1
            if not (s & ok):
                return N.R0
            return N.av(A)
        if k == 'sum':
            return self.pick(A)
        return N.av(A)

    def pick(self, A):
        """A sum one of whose factors is the indicator of index == c."""
        h, dim, mono = A.data
        (m, c), = mono.items()
        bv = N.bvar(h)
        for a, e in m:
            B = N.atoms[a]
            if B.kind == 'ind' and B.data[0] == 'eq':
                p = B.data[1]
                lin = p.get(((bv.id, 1),))
                if lin is None or any(x == bv.id for mm in p for x, _ in mm if mm != ((bv.id, 1),)):
                    continue
                rest = P.scale(P.sub(p, {((bv.id, 1),): lin}), Fraction(-1) / lin)
                lo = self.f.sign(rest)
                hi = self.f.sign(P.sub(dim, rest))
                if lo <= NONNEG and hi <= POS:
                    others = {tuple(z for z in m if z[0] != a): c}
                    q = N.sub_poly(others, N.BV(h) if hasattr(N, 'BV') else bv.data, rest)
                    return self.rat(N.Rat(q))
                if lo <= NEG or hi <= NONPOS:
                    return N.R0
        return N.av(A)

    def rat_atoms(self, r, skip=None):
        return r

    def poly(self, p):
        """Rewrite every atom, then reduce by the hypotheses."""
        changed = False
        out = N.R0
        acc = {}
        for m, c in p.items():
            reps = []
            plain = []
            for a, e in m:
                A = N.atoms[a]
                if A.kind in ('abs', 'sqrt', 'fn', 'ite', 'ind', 'sum'):
                    r = self.atom(A)
                    one = N.one_atom(r)
                    if one is not None and one.id == a:
                        plain.append((a, e))
                    else:
                        reps.append((r, e))
                else:
                    plain.append((a, e))
            if not reps:
                acc[m] = c
                continue
            changed = True
            t = N.Rat({tuple(plain): c})
            for r, e in reps:
                for _ in range(e):
                    t = N.rmul(t, r)
            out = N.radd(out, t)
        out = N.radd(out, N.Rat(acc)) if changed else N.Rat(p)
        num = self.reduce(out.num)
        if num is not out.num:
            out = N.mk_rat(num, [(N.factors[f], e) for f, e in out.den])
        return out

    def rat(self, r):
        n = self.poly(r.num)
        if not r.den:
            return n
        out = n
        for f, e in r.den:
            q = self.poly(N.factors[f])
            if not q.num:
                return out
            qi = N.rinv(q)
            for _ in range(e):
                out = N.rmul(out, qi)
        return out

    # ---- hypotheses
    def make_rules(self):
        """Oriented rewrite rules lead -> rest from the known-zero polynomials."""
        zs = [q for k, q in self.f.polys.items() if self.f.signs.get(k) == ZER]
        rules = []
        zs.sort(key=lambda q: (len(q), P.key(q).__hash__() if False else sorted(map(str, q))[:1]))
        # linear elimination first: an atom that occurs linearly with a constant coefficient
        pend = [dict(q) for q in zs]
        done = []
        for _ in range(len(pend) * 3 + 3):
            progress = False
            for i, q in enumerate(pend):
                if q is None:
                    continue
                q = apply_rules(q, done)
                if not q or P.is_const(q):
                    pend[i] = None
                    continue
                pend[i] = q
                v = linear_var(q)
                if v is not None:
                    c = q[((v, 1),)]
                    rest = P.scale({m: x for m, x in q.items() if m != ((v, 1),)}, Fraction(-1) / c)
                    rule = ('var', v, rest)
                    done = [('var', r[1], apply_rules(r[2], [rule])) if r[0] == 'var' else r for r in done] + [rule]
                    pend[i] = None
                    progress = True
                    break
            if not progress:
                break
        for q in pend:
            if q:
                lm = P.lead(q)
                c = q[lm]
                rest = P.scale({m: x for m, x in q.items() if m != lm}, Fraction(-1) / c)
                done.append(('mono', lm, rest))
        return done

    def reduce(self, p):
        if self.rules is None:
            self.rules = []
            self.rules = self.make_rules()
        if not self.rules or not p:
            return p
        return apply_rules(p, self.rules)


def linear_var(q):
    """A plain variable or element atom occurring exactly once, linearly, with constant coefficient."""
    best = None
    occ = {}
    for m in q:
        for a, e in m:
            occ[a] = occ.get(a, 0) + 1
    for m in q:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            A = N.atoms[a]
            if occ[a] == 1 and A.kind in ('v', 'el', 'sum', 'fn', 'sqrt', 'abs'):
                # must not occur inside other atoms of q
                if any(a in deps(N.atoms[b]) for b in occ if b != a):
                    continue
                rank = (0 if A.kind in ('el', 'v') and '~' in str(A.key) else 1, -a)
                if best is None or rank < best[0]:
                    best = (rank, a)
    return None if best is None else best[1]


_deps = {}


def deps(A):
    """All atom ids occurring (transitively) inside an atom."""
    r = _deps.get(A.id)
    if r is None:
        s = set()
        for p in subpolys(A):
            for a in P.atoms(p):
                s.add(a)
                s |= deps(N.atoms[a])
        r = _deps[A.id] = frozenset(s)
    return r


def subpolys(A):
    k, d = A.kind, A.data
    if k in ('sqrt', 'abs', 'inv'):
        return [d]
    if k == 'fn':
        out = []
        for r in d[1:]:
            out.append(r.num)
            out += [N.factors[f] for f, _ in r.den]
        return out
    if k == 'sum':
        return [d[2], d[1]]
    if k == 'ind':
        return [d[1]]
    if k == 'el':
        return list(d[1])
    return []


def apply_rules(p, rules, limit=40):
    for _ in range(limit):
        hit = None
        for r in rules:
            if r[0] == 'var':
                v = r[1]
                if any(a == v for m in p for a, _ in m):
                    out = {}
                    for m, c in p.items():
                        e = dict(m).get(v, 0)
                        if not e:
                            out = P.add(out, {m: c})
                        else:
                            rest = tuple(x for x in m if x[0] != v)
                            out = P.add(out, P.mul({rest: c}, P.pow_(r[2], e)))
                    p = N.reduce_poly(out)
                    hit = r
            else:
                lm = r[1]
                for m in list(p):
                    q = P.div_m(m, lm)
                    if q is not None:
                        c = p[m]
                        p = P.add({k: x for k, x in p.items() if k != m}, P.mul({q: c}, r[2]))
                        p = N.reduce_poly(p)
                        hit = r
                        break
            if len(p) > 5000:
                return p
        if hit is None:
            return p
    return p


# ----------------------------------------------------------------------------------
# Entry points
# ----------------------------------------------------------------------------------
class Result:
    __slots__ = ('ok', 'how', 'model', 'why')

    def __init__(self, ok, how, model=None, why=''):
        self.ok = ok
        self.how = how
        self.model = model
        self.why = why

    def __bool__(self):
        return self.ok

    def __repr__(self):
        return f'<{"proved" if self.ok else "failed"} by {self.how} {self.why}>'


def prove(goal, facts, depth=0, deep=True):
    """Prove the formula from the facts of a path."""
    if goal is TRUE:
        return Result(True, 'nf')
    if facts.bad:
        return Result(True, 'facts')
    v = facts.ev(goal)
    if v is True:
        STATS['facts'] += 1
        return Result(True, 'facts')
    op, a = goal.op, goal.args
    if op == 'and':
        for g in a:
            r = prove(g, facts, depth, deep)
            if not r:
                return r
        return Result(True, 'conj')
    if op == 'eq' and v is None:
        r = prove_eq(a[0], facts, depth)
        if r:
            return r
    if depth == 0 and op in ('lt', 'le') and linear(goal, facts):
        return Result(True, 'linear')
    if op == 'all':
        g = facts.copy()
        k = tm.fresh_index('a')
        g.idx[k.args[0]] = a[1]
        return prove(tm.subst(a[2], {a[0]: k}), g, depth, deep)
    if op == 'not' and a[0].op == 'and' and depth < 6:
        # a disjunction: assume all other disjuncts false, one at a time
        parts = a[0].args
        for i, p in enumerate(parts):
            g = facts.copy()
            for j, q in enumerate(parts):
                if j != i:
                    g.assert_(q, True)
            if g.bad:
                return Result(True, 'facts')
            r = prove(tm.not_(p), g, depth + 1, deep=False)
            if r:
                return r
    r = split(goal, facts, depth, deep)
    if r is not None and r.ok:
        return r
    if (deep or depth == 0) and linear(goal, facts):
        return Result(True, 'linear')
    if not deep:
        return Result(False, 'shallow')
    return smt(goal, facts)


def all_as_sum(f):
    """forall k..: t == 0  as the non-negative sum of squares that vanishes exactly then; None otherwise."""
    if f.op == 'all':
        k, dim, body = f.args
        if body.op == 'eq':
            return tm.summ(k, dim, tm.mul(body.args[0], body.args[0]))
        r = all_as_sum(body)
        if r is not None:
            return tm.summ(k, dim, r)
    return None


def canon_all(f):
    """forall k: t(k) == 0  as  sum of squares == 0."""
    if f.op == 'all':
        r = all_as_sum(f)
        if r is not None:
            return tm.eq(r, tm.ZERO, note=False)
    if f.op == 'not':
        return tm.not_(canon_all(f.args[0]))
    return f


def prove_iff(a, b, facts, depth=0):
    """Equivalence of two formulas."""
    if a is b:
        return Result(True, 'nf')
    a, b = canon_all(a), canon_all(b)
    while a.op == 'not' and b.op == 'not':
        a, b = a.args[0], b.args[0]
    if a.op == 'all' and b.op == 'all' and depth < 4:
        d = tm.sub(a.args[1], b.args[1])
        if not N.nf(d).num:
            g = facts.copy()
            k = tm.fresh_index('a')
            g.idx[k.args[0]] = a.args[1]
            r = prove_iff(tm.subst(a.args[2], {a.args[0]: k}), tm.subst(b.args[2], {b.args[0]: k}), g, depth + 1)
            if r:
                return r
    if a.op == 'eq' and b.op == 'eq':
        for t in (tm.sub(a.args[0], b.args[0]), tm.add(a.args[0], b.args[0])):
            if prove_eq(t, facts):
                return Result(True, 'rewrite')
    return prove(tm.iff(a, b), facts)


def prove_eq(t, facts, depth=0):
    r = N.nf(t)
    if not r.num:
        STATS['nf'] += 1
        return Result(True, 'nf')
    rw = Rewriter(facts)
    q = rw.rat(r)
    for _ in range(3):
        if not q.num:
            STATS['rewrite'] += 1
            return Result(True, 'rewrite')
        q2 = rw.rat(q)
        if q2.key() == q.key():
            break
        q = q2
    if facts.sign(q.num) == ZER:
        STATS['rewrite'] += 1
        return Result(True, 'rewrite')
    # a + b*s = 0 with s a square root: a^2 = b^2 s^2 and opposite signs
    for x in sorted(P.atoms(q.num), reverse=True):
        A = N.atoms[x]
        if A.kind != 'sqrt':
            continue
        aa = {m: c for m, c in q.num.items() if all(y != x for y, _ in m)}
        bb = {tuple(z for z in m if z[0] != x): c for m, c in q.num.items() if any(y == x for y, _ in m)}
        sa, sb = facts.sign(aa), facts.sign(bb)
        if (sa <= NONNEG and sb <= NONPOS) or (sa <= NONPOS and sb <= NONNEG):
            d = P.sub(N.pmul(aa, aa), N.pmul(N.pmul(bb, bb), A.data))
            d2 = rw.poly(d)
            if not d2.num or facts.sign(d2.num) == ZER:
                STATS['rewrite'] += 1
                return Result(True, 'square')
    return Result(False, 'rewrite', why=N.show_rat(q)[:300])


def split_atoms(goal, facts):
    """Data polynomials of abs/sign atoms and conditions of ite atoms of unknown value in the goal."""
    seen = set()
    out = []
    polys = goal_polys(goal)
    todo = list(polys)
    while todo:
        p = todo.pop()
        for x in P.atoms(p):
            if x in seen:
                continue
            seen.add(x)
            A = N.atoms[x]
            if A.kind == 'abs' and len(facts.sign(A.data)) > 1 and not (facts.sign(A.data) <= NONNEG) \
                    and not (facts.sign(A.data) <= NONPOS):
                out.append(('sign', A.data))
            elif A.kind == 'fn' and A.data[0] == 'sign' and len(facts.sign(A.data[1].num)) > 1:
                out.append(('sign', A.data[1].num))
            elif A.kind == 'ite' and facts.ev(A.data[0]) is None:
                out.append(('cond', A.data[0]))
            elif A.kind == 'ind' and len(facts.sign(A.data[1])) > 1:
                op, q = A.data
                out.append(('sign', q))
            todo += subpolys(A)
            if A.kind == 'ite':
                todo += [N.nf(A.data[1]).num, N.nf(A.data[2]).num]
    out.sort(key=lambda x: (x[0], str(x[1])[:80]))
    return out


def goal_polys(f):
    op, a = f.op, f.args
    if op in ('lt', 'le', 'eq'):
        r = N.nf(a[0])
        return [r.num] + [N.factors[i] for i, _ in r.den]
    out = []
    for x in a:
        if isinstance(x, F):
            out += goal_polys(x)
    return out


def split(goal, facts, depth, deep):
    """Case split on the sign of one abs/sign argument or one ite condition."""
    if depth >= 6:
        return None
    cands = split_atoms(goal, facts)
    if not cands:
        return None
    kind, x = cands[0]
    if kind == 'cond':
        cases = []
        for v in (True, False):
            g = facts.copy()
            g.assert_(x, v)
            cases.append(g)
    else:
        cases = []
        u, q = P.primitive(x)
        for s in sorted(facts.sign(q)):
            g = facts.copy()
            g._restrict(q, frozenset((s,)))
            g.extra = getattr(facts, 'extra', ()) + ((q, s),)
            cases.append(g)
    for g in cases:
        for name in ('extremes', 'uniques', 'svds', 'ranks', 'lstsqs'):
            if hasattr(facts, name):
                setattr(g, name, getattr(facts, name))
        if g.bad:
            continue
        r = prove(goal, g, depth + 1, deep)
        if not r:
            return r
    STATS['split'] += 1
    return Result(True, 'split')


# ----------------------------------------------------------------------------------
# SMT
# ----------------------------------------------------------------------------------
class Smt:
    def __init__(self, facts, rlimit=RLIMIT):
        self.f = facts
        self.vars = {}
        self.bools = {}
        self.axioms = []
        self.used = set()
        self.queue = []

    def var(self, i):
        v = self.vars.get(i)
        if v is None:
            v = self.vars[i] = z3.Real(f'x{i}')
            self.queue.append(i)
        return v

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            c = Fraction(c)
            t = None
            for a, e in m:
                for _ in range(e):
                    t = self.var(a) if t is None else t * self.var(a)
            cv = z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
            ts.append(cv if t is None else t if c == 1 else cv * t)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def signset(self, p, s):
        if s == ALL:
            return z3.BoolVal(True)
        t = self.poly(p)
        if s == POS:
            return t > 0
        if s == NEG:
            return t < 0
        if s == ZER:
            return t == 0
        if s == NONNEG:
            return t >= 0
        if s == NONPOS:
            return t <= 0
        if s == NONZERO:
            return t != 0
        return z3.BoolVal(False)

    def form(self, f):
        op, a = f.op, f.args
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op in ('lt', 'le', 'eq'):
            s, sg, q = self.f.rel_sign(a[0])
            ok = NEG if op == 'lt' else NONPOS if op == 'le' else ZER
            if not q:
                return z3.BoolVal(0 in ok)
            return self.signset(q, ok if sg > 0 else sneg(ok))
        if op == 'not':
            return z3.Not(self.form(a[0]))
        if op == 'and':
            return z3.And([self.form(x) for x in a])
        k = N.fkey(f)
        b = self.bools.get(k)
        if b is None:
            b = self.bools[k] = z3.Bool(f'b{len(self.bools)}')
            if op == 'all':
                # instantiate at the generic indices in scope
                for name, d in self.f.idx.items():
                    if name.startswith('@'):
                        continue
                    if d is a[1]:
                        iv = tm._mk('v', (name,), frozenset([name]))
                        inst = tm.subst(a[2], {a[0]: iv})
                        self.axioms.append(z3.Implies(b, self.form(inst)))
        return b

    def close(self):
        """Axioms for every atom reached (transitively, bounded)."""
        n = 0
        while self.queue and n < 400:
            i = self.queue.pop(0)
            n += 1
            A = N.atoms[i]
            v = self.vars[i]
            ax = self.axioms
            if A.pos:
                ax.append(v > 0)
            elif A.nonneg:
                ax.append(v >= 0)
            k = A.kind
            if k == 'sqrt':
                ax.append(v >= 0)
                ax.append(v * v == self.poly(A.data))
            elif k == 'abs':
                d = self.poly(A.data)
                ax.append(z3.Or(z3.And(v == d, d >= 0), z3.And(v == -d, d < 0)))
            elif k == 'ind':
                op, p = A.data
                d = self.poly(p)
                c = d == 0 if op == 'eq' else d < 0
                ax.append(v == z3.If(c, z3.RealVal(1), z3.RealVal(0)))
            elif k == 'inv':
                ax.append(v * self.poly(A.data) == 1)
            elif k == 'ite':
                c, x, y = A.data
                rx, ry = N.nf(x), N.nf(y)
                cf = self.form(c)
                for cond, r in ((cf, rx), (z3.Not(cf), ry)):
                    den = N.den_poly(r.den)
                    ax.append(z3.Implies(cond, v * self.poly(den) == self.poly(r.num)))
            elif k == 'fn':
                self.fn_axiom(A, v)
            elif k == 'v' and A.data == 'pi':
                ax.append(v > z3.Q(31415926, 10000000))
                ax.append(v < z3.Q(31415927, 10000000))
            elif k == 'v' and A.data in self.f.idx:
                d = N.nf(self.f.idx[A.data]).num
                ax.append(v >= 0)
                ax.append(v + 1 <= self.poly(d))
            elif k == 'v' and A.integer and A.pos:
                ax.append(v >= 1)
        self.gram()

    def fn_axiom(self, A, v):
        name = A.data[0]
        ax = self.axioms
        pi = N.atom('v', 'pi', 'pi', pos=True)
        if name == 'sign':
            r = A.data[1]
            d = self.poly(r.num)
            ax.append(z3.Or(z3.And(v == 1, d > 0), z3.And(v == -1, d < 0), z3.And(v == 0, d == 0)))
        elif name in ('sin', 'cos'):
            ax += [v <= 1, v >= -1]
            r = A.data[1]
            s, c = N.fn_atom('sin', [r]), N.fn_atom('cos', [r])
            if s.id in self.vars and c.id in self.vars:
                vs, vc = self.var(s.id), self.var(c.id)
                ax.append(vs * vs + vc * vc == 1)
        elif name == 'acos':
            ax += [v >= 0, v <= self.var(pi.id)]
        elif name == 'atan2':
            ax += [v > -self.var(pi.id), v <= self.var(pi.id)]
        elif name in ('floor', 'trunc'):
            r = A.data[1]
            if not r.den:
                d = self.poly(r.num)
                if name == 'floor':
                    ax += [v <= d, d < v + 1]
                else:
                    ax.append(z3.If(d >= 0, z3.And(v <= d, d < v + 1), z3.And(v >= d, d > v - 1)))

    def gram(self):
        """Cauchy-Schwarz and positive semi-definiteness for sums of products."""
        vec = {}
        for i in list(self.vars):
            A = N.atoms[i]
            if A.kind != 'sum':
                continue
            h, dim, mono = A.data
            (m, c), = mono.items()
            bv = N.bvar(h).id
            fs = []
            for a, e in m:
                fs += [a] * e
            if len(fs) == 2:
                vec.setdefault(P.key(dim), {})[tuple(sorted(fs))] = i
        self.parts()
        for dk, tab in vec.items():
            names = sorted({x for p in tab for x in p})

            def g(x, y):
                return self.vars.get(tab.get(tuple(sorted((x, y)))))
            for x, y in itertools.combinations(names, 2):
                xy, xx, yy = g(x, y), g(x, x), g(y, y)
                if xy is not None and xx is not None and yy is not None:
                    self.axioms.append(xy * xy <= xx * yy)
                if xx is not None and yy is not None and xy is not None:
                    self.axioms.append(xx + yy + 2 * xy >= 0)
                    self.axioms.append(xx + yy - 2 * xy >= 0)
            if len(names) <= 5:
                for x, y, z in itertools.combinations(names, 3):
                    xx, yy, zz, xy, xz, yz = g(x, x), g(y, y), g(z, z), g(x, y), g(x, z), g(y, z)
                    if None in (xx, yy, zz, xy, xz, yz) or any(q is None for q in (xx, yy, zz, xy, xz, yz)):
                        continue
                    self.axioms.append(xx * yy * zz + 2 * xy * yz * xz - xx * yz * yz - yy * xz * xz - zz * xy * xy >= 0)


    def parts(self):
        """A sum of squares of elements is at least the sum over any of its index values."""
        els = [i for i in self.vars if N.atoms[i].kind == 'el']
        for i in list(self.vars):
            A = N.atoms[i]
            if A.kind != 'sum':
                continue
            h, dim, mono = A.data
            (m, c), = mono.items()
            if len(m) != 1 or m[0][1] != 2 or N.atoms[m[0][0]].kind != 'el' or c <= 0:
                continue
            name, ixs = N.atoms[m[0][0]].data
            bv = P.var(N.bvar(h).id)
            pos = [j for j, p in enumerate(ixs) if p == bv]
            if len(pos) != 1 or any(f'%{h}' in N.pfree(p) for j, p in enumerate(ixs) if j != pos[0]):
                continue
            hit = []
            for j in els:
                n2, ix2 = N.atoms[j].data
                if n2 == name and len(ix2) == len(ixs) and all(ix2[q] == ixs[q] for q in range(len(ixs)) if q != pos[0]) \
                        and N._inrange(ix2[pos[0]], dim):
                    hit.append(self.vars[j])
            if hit:
                self.axioms.append(z3.Sum([v * v for v in hit]) * z3.Q(1, 1) <= self.vars[i])


_LIN = {}
_MON = {}


def linear_expr(p):
    """The polynomial with every monomial taken as a variable."""
    k = P.key(p)
    e = _LIN.get(k)
    if e is None:
        ts = []
        for m, c in p.items():
            c = Fraction(c)
            q = z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
            if m:
                v = _MON.get(m)
                if v is None:
                    v = _MON[m] = z3.Real(f'm{len(_MON)}')
                q = v if c == 1 else q * v
            ts.append(q)
        if len(_LIN) > 20000:
            _LIN.clear()
        e = _LIN[k] = z3.Sum(ts) if len(ts) != 1 else ts[0]
    return e


def linear_set(p, s):
    t = linear_expr(p)
    return t > 0 if s == POS else t < 0 if s == NEG else t == 0 if s == ZER else t >= 0 if s == NONNEG else t <= 0 if s == NONPOS else None


def linear(goal, facts):
    """The relation follows from the facts by linear arithmetic over monomials."""
    t0 = time.time()
    goals = []
    mons = set()
    if goal is not FALSE:
        if goal.op not in ('lt', 'le', 'eq'):
            return False
        _, sg, q = facts.rel_sign(goal.args[0])
        ok = NEG if goal.op == 'lt' else NONPOS if goal.op == 'le' else ZER
        if not q or len(q) > 3000:
            return False
        ok = ok if sg > 0 else sneg(ok)
        bad = ALL - ok
        goals = [(q, NEG), (q, POS)] if ok == ZER else [(q, frozenset(bad))]
        mons |= set(q)
    cons = []
    for k, q in facts.polys.items():
        s = facts.signs[k]
        if s == ALL or s == NONZERO or len(q) > 3000:
            continue
        cons.append((q, s))
    # only the facts connected with the goal through monomials
    if goal is not FALSE:
        todo, used = cons, []
        mons.discard(())
        while True:
            hit = [x for x in todo if not mons.isdisjoint(x[0])]
            if not hit:
                break
            todo = [x for x in todo if mons.isdisjoint(x[0])]
            for q, s in hit:
                mons |= set(q)
            mons.discard(())
            used += hit
        cons = used
    zs = []
    for q, s in cons:
        e = linear_set(q, s)
        if e is not None:
            zs.append(e)
            mons |= set(q)
    for m in mons:
        if m and (all(e % 2 == 0 for _, e in m) or all(e % 2 == 0 or N.atoms[a].pos or N.atoms[a].nonneg for a, e in m)):
            zs.append(linear_expr({m: 1}) >= 0)
    STATS['linear_calls'] = STATS.get('linear_calls', 0) + 1
    try:
        for g in goals or [None]:
            s = z3.SolverFor('QF_LRA')
            s.set('rlimit', 2000000)
            s.set('timeout', Z3_TIMEOUT)
            s.add(zs)
            if g is not None:
                e = linear_set(*g)
                if e is None:
                    return False
                s.add(e)
            if s.check() != z3.unsat:
                return False
        return True
    finally:
        STATS['linear_time'] = STATS.get('linear_time', 0) + time.time() - t0


def smt(goal, facts, rlimit=None):
    """z3 on facts and negated goal; cvc5 when z3 gives up."""
    t0 = time.time()
    S = Smt(facts)
    cons = []
    try:
        for k, q in facts.polys.items():
            s = facts.signs[k]
            if s != ALL:
                cons.append(S.signset(q, s))
        for f in facts.forms:
            if f.op in ('lt', 'le', 'eq') or (f.op == 'not' and f.args[0].op in ('lt', 'le', 'eq')):
                continue
            cons.append(S.form(f))
        neg = z3.Not(S.form(goal))
        S.close()
    except (z3.Z3Exception, N.NotPoly) as e:
        return Result(False, 'z3', why=str(e))
    STATS['z3_calls'] += 1
    s = z3.Solver()
    s.set('rlimit', rlimit or RLIMIT)
    s.set('timeout', Z3_TIMEOUT)
    s.set('random_seed', 1)
    for c in S.axioms:
        s.add(c)
    for c in cons:
        s.add(c)
    s.add(neg)
    r = s.check()
    for _ in range(24):
        # a counterexample with a broken integer: split on that integer
        if r != z3.sat:
            break
        m = s.model()
        cuts = []
        for i, v in S.vars.items():
            A = N.atoms[i]
            if A.kind == 'v' and (A.integer or A.data in facts.idx):
                x = m.eval(v)
                x = x.as_fraction() if z3.is_rational_value(x) else None if not z3.is_algebraic_value(x) else x.approx(20).as_fraction()
                if x is not None and x.denominator != 1:
                    k = x.numerator // x.denominator
                    cuts.append(z3.Or(v <= k, v >= k + 1))
        if not cuts:
            break
        s.add(cuts)
        r = s.check()
    STATS['z3_time'] += time.time() - t0
    if r == z3.unsat:
        STATS['z3'] += 1
        return Result(True, 'z3')
    if r == z3.sat:
        m = s.model()
        model = {}
        for i, v in S.vars.items():
            x = m.eval(v)
            try:
                model[i] = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(20).as_fraction())
            except Exception:
                pass
        return Result(False, 'z3-sat', model=model, why='counterexample of the abstraction')
    return Result(False, 'z3-unknown', why=s.reason_unknown())


def infeasible(facts, deep=True):
    """Facts are contradictory."""
    if facts.bad:
        return True
    if linear(FALSE, facts):
        return True
    return bool(smt(FALSE, facts, rlimit=RLIMIT if deep else RLIMIT_FEAS))


_feas_budget = [400]


def feasible_hook(facts, f, val):
    """False when asserting f=val is surely contradictory (cheap check)."""
    g = facts.copy()
    g.assert_(f, val)
    if g.bad:
        return False
    if _feas_budget[0] <= 0:
        return None
    _feas_budget[0] -= 1
    if linear(FALSE, g):
        return False
    if smt(FALSE, g, rlimit=RLIMIT_FEAS):
        return False
    return None
