"""Contracts of Triangle."""
from ..contract import spec, scenario, lemma, abstract, S, W, np, Eq, Le, Lt, Is
from .. import symmath as math
from .vectors import ALL, DIM, D123, KW, KW2, TOL

# every triple of points is p, p + u, p + v
TRI = 'q = p_ + u_; r = p_ + v_; T = Triangle(p, q, r)'
VARS = 'p:v[D] u:v[D] v:v[D]'
PRE = 'S.sq(u) * S.sq(v) - S.dot(u, v) ** 2 > 0'
DT = [{'D': 2}, {'D': 3}, {'D': '>=4'}]
LABELS = {'x': ['"A"', '"B"', '"C"', '"a"', '"b"', '"c"', '"D"', '""', 'None', '0', '"AB"']}


@spec('Triangle.__init__')
def _(self, point_a, point_b, point_c):
    P = [S.new(W.Point, x, 1) for x in (point_a, point_b, point_c)]
    d = S.A(P[0])._shape[0]
    S.req(np.deq(d, S.A(P[1])._shape[0]))
    S.req(np.deq(d, S.A(P[2])._shape[0]))
    S.req(not S.affrank(P) <= 1)
    vars(self).update({'point_a': P[0], 'point_b': P[1], 'point_c': P[2], 'dimension': P[0].dimension})


scenario('Triangle.__init__', VARS, 'Triangle(p, q, r)', setup='q = p_ + u_; r = p_ + v_', dims=ALL + DT + [{'D': 1}])
scenario('Triangle.__init__', 'p:v[D] q:v[D] r:v[D]', 'Triangle(p, q, r)', dims=ALL)
scenario('Triangle.__init__', 'p:v[D] q:v[D] r:v[D]', 'Triangle(point_a=Point(p), point_b=Vector(q), point_c=r)', dims=ALL)
scenario('Triangle.__init__', 'p:v[D]? q:v[D]? r:v[D]?', 'Triangle(p, q, r)', dims=[{'D': 2}], nsamples=60)
scenario('Triangle.__init__', 'p:v[D] q:v[E] r:v[F]', 'Triangle(p, q, r)',
         dims=[{'D': i, 'E': j, 'F': k} for i, j, k in ((2, 3, 3), (3, 2, 3), (3, 3, 2), (2, 2, 3), (1, 2, 3), (2, 1, 2))])
scenario('Triangle.__init__', 'p:v[D] u:v[D] t:s', 'Triangle(p, p_ + u_, p_ + t * u_)', dims=ALL)


def pts(self):
    return S.A(self.point_a), S.A(self.point_b), S.A(self.point_c)


def side(self, label):
    """End points of a side, in the order of the library."""
    a, b, c = pts(self)
    for l, e in (('a', (b, c)), ('b', (c, a)), ('c', (a, b))):
        if isinstance(label, str) and label == l:
            return e
    S.req(False)


def corner(self, label):
    """The vertex and the other two, or ValueError."""
    a, b, c = pts(self)
    for l, e in (('A', (a, b, c)), ('B', (b, c, a)), ('C', (c, a, b))):
        if isinstance(label, str) and label == l:
            return e
    S.req(False)


def length(self, label):
    p, q = side(self, label)
    return S.norm(q - p)


@spec('Triangle.point')
def _(self, vertex):
    return S.point(corner(self, vertex)[0])


@spec('Triangle.line')
def _(self, side_):
    p, q = side(self, side_)
    S.req(S.sq(q - p) != 0)
    return S.line(p, q - p)


@spec('Triangle.length')
def _(self, side_):
    p, q = side(self, side_)
    S.req(S.sq(q - p) != 0)
    return S.norm(q - p)


@spec('Triangle.multiple')
def _(self, name_method, inputs):
    return tuple(getattr(self, name_method)(x) for x in inputs)


@spec('Triangle.normal')
def _(self):
    a, b, c = pts(self)
    return S.vector(S.cross(b - a, c - a))


@spec('Triangle.area')
def _(self):
    a, b, c = pts(self)
    n = S.cross(b - a, c - a)
    return S.sqrt(S.dot3(n, n)) / 2


@spec('Triangle.perimeter')
def _(self):
    return sum(length(self, x) for x in 'abc')


@spec('Triangle.angle')
def _(self, vertex):
    x, y, z = corner(self, vertex)
    return math.acos(np.clip(S.cos(y - x, z - x), -1, 1))


scenario('Triangle.point', VARS, 'T.point(x)', setup=TRI, dims=ALL, choices=LABELS)
scenario('Triangle.line', VARS, 'T.line(x)', setup=TRI, dims=ALL, choices=LABELS)
scenario('Triangle.length', VARS, 'T.length(x)', setup=TRI, dims=ALL, choices=LABELS)
scenario('Triangle.angle', VARS, 'T.angle(x)', setup=TRI, pre=PRE, dims=ALL, choices=LABELS)
scenario('Triangle.normal', VARS, 'T.normal()', setup=TRI, dims=DT)
scenario('Triangle.area', VARS, 'T.area()', setup=TRI, dims=DT)
scenario('Triangle.perimeter', VARS, 'T.perimeter()', setup=TRI, dims=ALL)
scenario('Triangle.multiple', VARS, 'T.multiple(f, x)', setup=TRI, pre=PRE, dims=ALL,
         choices={'f': ['"point"', '"line"', '"altitude"'], 'x': ['"ABC"', '["a", "b", "c"]', '""', '"CA"', '"bc"', '"AAB"', '"cbc"']})
scenario('Triangle.multiple', VARS, 'T.multiple(name_method=f, inputs=x)', setup=TRI, pre=PRE, dims=ALL,
         choices={'f': ['"length"', '"angle"'], 'x': ['"ABC"', '["a", "b", "c"]', '["a", "a"]', '("B", "A", "B")']})

lemma('C22', 'side a is opposite vertex A, and so on', VARS, TRI,
      ['Eq(T.length("a"), S.norm(S.A(q) - S.A(r)))', 'Eq(T.length("b"), S.norm(S.A(p) - S.A(r)))', 'Eq(T.length("c"), S.norm(S.A(p) - S.A(q)))',
       'Is(T.line("a").contains_point(q))', 'Is(T.line("a").contains_point(r))', 'Is(T.line("b").contains_point(p))',
       'Is(T.line("b").contains_point(r))', 'Is(T.line("c").contains_point(p))', 'Is(T.line("c").contains_point(q))',
       'Eq(T.perimeter(), T.length("a") + T.length("b") + T.length("c"))',
       'S.eqarr(T.point("A"), p)', 'S.eqarr(T.point("B"), q)', 'S.eqarr(T.point("C"), r)'], pre=PRE, dims=ALL)
lemma('C22', 'each angle is the one between the two sides meeting there', VARS, TRI,
      ['Eq(T.angle("A"), Vector(u).angle_between(v))', 'Eq(T.angle("B"), Vector(p_ - q).angle_between(r - q))',
       'Eq(T.angle("C"), Vector(p_ - r).angle_between(q - r))'], pre=PRE, dims=ALL)
lemma('C22', 'the angles sum to pi: with these sines and cosines A + B is the supplement of C', 'u:v[D] v:v[D]',
      'w = v_ - u_; x = S.cos(u, v); y = S.cos(-u_, w); z = S.cos(-v_, -w); '
      'g = S.sqrt(S.sq(u) * S.sq(v) - S.dot(u, v) ** 2); a = g / (S.norm(u) * S.norm(v)); b = g / (S.norm(u) * S.norm(w)); c = g / (S.norm(v) * S.norm(w))',
      ['Eq(x * x + a * a, 1)', 'Eq(y * y + b * b, 1)', 'Eq(z * z + c * c, 1)', 'Le(0, a)', 'Le(0, b)', 'Le(0, c)',
       'Eq(x * y - a * b, -z)', 'Eq(a * y + x * b, c)'], pre=PRE, dims=ALL)
lemma('C22', 'the area is half the normal, and half the product of two sides and the sine between them', VARS,
      TRI + '; x = T.area()',
      ['Eq(2 * x, T.normal().norm())', 'Eq(4 * x * x, S.sq(u) * S.sq(v) - S.dot(u, v) ** 2)', 'Eq(x, measurement.area_triangle(p, q, r))',
       'S.eqarr(T.normal(), Vector(u).cross(v))'], pre=PRE, dims=[{'D': 2}, {'D': 3}])
lemma('C22', 'unknown labels raise', VARS, TRI,
      ['Is(S.raises(lambda: T.point("a"), ValueError))', 'Is(S.raises(lambda: T.line("A"), ValueError))', 'Is(S.raises(lambda: T.length("A"), ValueError))',
       'Is(S.raises(lambda: T.angle("a"), ValueError))', 'Is(S.raises(lambda: T.altitude("a"), ValueError))'], pre=PRE, dims=ALL)


# ---------------------------------------------------------------- centres and classification
@spec('Triangle.centroid')
def _(self):
    a, b, c = pts(self)
    return S.point((a + b + c) / 3)


@spec('Triangle.altitude')
def _(self, vertex):
    x, y, z = corner(self, vertex)
    d = y + S.proj(z - y, x - y) - x
    S.req(S.sq(d) != 0)
    return S.line(x, d)


@spec('Triangle.orthocenter')
def _(self, **kwargs):
    return self.altitude('A').intersect_line(self.altitude('B'), **kwargs)


@spec('Triangle.classify')
def _(self, **kwargs):
    a, b, c = (length(self, x) for x in 'abc')
    close = [S.isclose(x, y, **kwargs) for x, y in ((a, b), (a, c), (b, c))]
    if all(close):
        return 'equilateral'
    return 'isosceles' if any(close) else 'scalene'


@spec('Triangle.is_right')
def _(self, **kwargs):
    a, b, c = sorted(length(self, x) for x in 'abc')
    return S.isclose(a ** 2 + b ** 2, c ** 2, **kwargs)


CK = {'kw': ['{}', '{"abs_tol": at, "rel_tol": rt}', '{"check_coplanar": False}']}
AB = ('Line.intersect_line', 'Point.is_close')
scenario('Triangle.centroid', VARS, 'T.centroid()', setup=TRI, dims=ALL)
scenario('Triangle.altitude', VARS, 'T.altitude(x)', setup=TRI, pre=PRE, dims=ALL, choices=LABELS)
scenario('Triangle.orthocenter', VARS + TOL, 'T.orthocenter(**kw)', setup=TRI, pre=PRE, dims=DT, choices=CK, abstract=AB)
scenario('Triangle.classify', VARS + TOL, 'T.classify(**kw)', setup=TRI, pre=PRE, dims=ALL, choices=KW)
scenario('Triangle.is_right', VARS + TOL, 'T.is_right(**kw)', setup=TRI, pre=PRE, dims=ALL, choices=KW)
scenario('Triangle.is_right', 'p:v[2] u:v[2] t:s' + TOL, 'T.is_right(**kw)',
         setup='w = np.array([-u_[1], u_[0]]); x = {"A": [p_, p_ + u_, p_ + t * w], "B": [p_ + u_, p_, p_ + t * w], "C": [p_ + u_, p_ + t * w, p_]}[k]; T = Triangle(*x)',
         pre=['S.sq(u) > 0', 't != 0'], choices={'k': ['"A"', '"B"', '"C"'], 'kw': ['{}', '{"abs_tol": at, "rel_tol": rt}']})
lemma('C23', 'the altitude is perpendicular to the opposite side and its foot lies on that side', VARS,
      TRI + '; A = T.altitude("A"); B = T.altitude("B"); C = T.altitude("C")',
      ['Eq(S.dot(A.direction, S.A(r) - S.A(q)), 0)', 'Eq(S.dot(B.direction, S.A(p) - S.A(r)), 0)', 'Eq(S.dot(C.direction, S.A(q) - S.A(p)), 0)',
       'Is(T.line("a").contains_point(A.to_point()))', 'Is(T.line("b").contains_point(B.to_point()))',
       'Is(T.line("c").contains_point(C.to_point()))', 'S.eqarr(A.point, p)', 'S.eqarr(B.point, q)', 'S.eqarr(C.point, r)'],
      pre=PRE, dims=ALL)
lemma('C23', 'the centroid is the mean of the vertices', VARS, TRI, ['S.eqarr(3 * S.A(T.centroid()), 3 * S.A(p) + S.A(u) + S.A(v))'], pre=PRE, dims=ALL)
# the orthocentre: with w = v - u (side a), H = p + s (perpendicular part), proved from its defining equations
lemma('C23', 'the intersection of two altitudes lies on the third', VARS,
      TRI + '; A = T.altitude("A"); B = T.altitude("B"); H = S.A(A.intersect_line(B))',
      ['Eq(S.dot(H - S.A(p), S.A(r) - S.A(q)), 0)', 'Eq(S.dot(H - S.A(q), S.A(r) - S.A(p)), 0)', 'Eq(S.dot(H - S.A(r), S.A(q) - S.A(p)), 0)'],
      pre=[PRE, 'not S.raises(lambda: A.intersect_line(B))'], dims=[{'D': 2}])
# in space: the second edge is t times the first plus a part w perpendicular to it
for ck in ('check_coplanar=False', ''):
    lemma('C23', 'in space the intersection of two altitudes lies on the third' + (' (found without the check)' if ck else ''),
          'p:v[D] u:v[D] w:v[D] t:s',
          f'v = t * u_ + w_; q = p_ + u_; r = p_ + v; T = Triangle(p, q, r); A = T.altitude("A"); B = T.altitude("B"); H = S.A(A.intersect_line(B, {ck}))',
          ['Eq(S.dot(H - S.A(p), S.A(r) - S.A(q)), 0)', 'Eq(S.dot(H - S.A(q), S.A(r) - S.A(p)), 0)', 'Eq(S.dot(H - S.A(r), S.A(q) - S.A(p)), 0)'],
          pre=['S.sq(u) > 0', 'S.sq(w) > 0', 'S.dot(u, w) == 0', f'not S.raises(lambda: A.intersect_line(B, {ck}))'], dims=[{'D': '=3'}])
