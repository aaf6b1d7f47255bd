"""Contracts of Vector and Point."""
from ..contract import spec, scenario, lemma, S, W, np, Eq, Le, Lt, Is
from .. import symmath as math

ALL = [{'D': '*'}]
D123 = [{'D': 1}, {'D': 2}, {'D': 3}]
DIM = [{'D': 1}, {'D': 2}, {'D': 3}, {'D': '>=4'}]
KW = {'kw': ['{}', '{"abs_tol": at}', '{"rel_tol": rt}', '{"abs_tol": at, "rel_tol": rt}']}
KW2 = {'kw': ['{}', '{"abs_tol": at, "rel_tol": rt}']}
TOL = ' at:s0 rt:s0'


# ---------------------------------------------------------------- differences, norms
@spec('Vector.from_points')
def _(cls, point_a, point_b):
    return S.mk(cls, S.arr1(S.A(point_b) - S.A(point_a)))


scenario('Vector.from_points', 'p:v[D] q:v[D]', 'Vector.from_points(p, q)', dims=ALL)
scenario('Vector.from_points', 'p:v[D] q:v[D]', 'Vector.from_points(Point(p), Point(q))', dims=ALL)


@spec('Vector.norm')
def _(self, **kwargs):
    if not kwargs:
        return S.sqrt(S.sq(self))
    return np.linalg.norm(S.A(self), **kwargs)


# Lengths are floating-point numbers, whatever the type of the coordinates: integers must not wrap around.
scenario('Vector.norm', 'a:v[D]', 'Vector(a).norm()', dims=ALL,
         samples=lambda rng: [dict(dims={'D': 2}, a=[4_000_000_000, -3_000_000_000]),
                              dict(dims={'D': 3}, a=[2 ** 40 + 1, 2 ** 41 - 3, -2 ** 40])])
scenario('Vector.norm', 'a:v[D]', 'Vector(a).norm(ord=o)', dims=D123, choices={'o': ['1', '2', 'np.inf']})


@spec('Vector.unit')
def _(self):
    n = S.norm(self)
    S.req(n != 0)
    return S.like(self, S.A(self) / n)


scenario('Vector.unit', 'a:v[D]', 'V.unit()', setup='V = Vector(a)', dims=ALL,
         samples=lambda rng: [dict(dims={'D': 2}, a=[4_000_000_000, -3_000_000_000])])


@spec('Point.distance_point')
def _(self, other):
    return S.norm(S.A(other) - S.A(self))


scenario('Point.distance_point', 'p:v[D] q:v[D]', 'Point(p).distance_point(q)', dims=ALL,
         samples=lambda rng: [dict(dims={'D': 2}, p=[4_000_000_000, -3_000_000_000], q=[-3_000_000_000, 1])])
scenario('Point.distance_point', 'p:v[D] q:v[D]', 'Point(p).distance_point(Q)', setup='Q = Point(q)', dims=ALL)

lemma('C04', 'norm is the root of the dot product', 'a:v[D]', 'V = Vector(a)',
      ['Eq(V.norm() * V.norm(), V.dot(V))', 'Le(0, V.norm())'], dims=ALL)
lemma('C04', 'unit vectors have length one', 'a:v[D]', 'V = Vector(a).unit()',
      ['Eq(V.norm(), 1)', 'Eq(S.dot(V, a), S.norm(a))'], pre='S.sq(a) > 0', dims=ALL)
lemma('C04', 'distance is symmetric and the norm of the difference', 'p:v[D] q:v[D]', 'd = Point(p).distance_point(q)',
      ['Eq(d, Point(q).distance_point(p))', 'Eq(d, Vector.from_points(p, q).norm())', 'Le(0, d)'], dims=ALL)


# ---------------------------------------------------------------- projections
@spec('Vector.project_vector')
def _(self, other):
    return S.like(self, S.proj(self, other))


scenario('Vector.project_vector', 'a:v[D] b:v[D]', 'V.project_vector(b)', setup='V = Vector(a)', dims=ALL,
         pre='S.sq(a) > 0')
scenario('Vector.project_vector', 'a:v[D] b:v[D]', 'V.project_vector(U)', setup='V = Vector(a); U = Vector(b)', dims=ALL,
         pre='S.sq(a) > 0')


@spec('Vector.scalar_projection')
def _(self, other):
    n = S.norm(self)
    S.req(n != 0)
    return S.dot(self, other) / n


scenario('Vector.scalar_projection', 'a:v[D] b:v[D]', 'V.scalar_projection(b)', setup='V = Vector(a)', dims=ALL)
lemma('C04', 'residual perpendicular, projection idempotent', 'a:v[D] b:v[D]',
      'V = Vector(a); r = V.project_vector(b); r2 = V.project_vector(r)',
      ['Eq(S.dot(S.A(b) - S.A(r), V), 0)', 'S.eqarr(r2, r)', 'Eq(V.scalar_projection(b) * V.norm(), S.dot(a, b))'],
      pre='S.sq(a) > 0', dims=ALL)


# ---------------------------------------------------------------- tolerance predicates
@spec('Vector.is_zero')
def _(self, **kwargs):
    return S.isclose(S.sq(self), 0, **kwargs)


scenario('Vector.is_zero', 'a:v[D]' + TOL, 'V.is_zero(**kw)', setup='V = Vector(a)', dims=ALL, choices=KW)


@spec('Vector.is_perpendicular')
def _(self, other, **kwargs):
    return S.perpendicular(self, other, **kwargs)


scenario('Vector.is_perpendicular', 'a:v[D] b:v[D]' + TOL, 'V.is_perpendicular(b, **kw)', setup='V = Vector(a)',
         dims=ALL, choices=KW)


@spec('Vector.is_parallel')
def _(self, other, **kwargs):
    return S.parallel(self, S.arr1(other), **kwargs)


scenario('Vector.is_parallel', 'a:v[D] b:v[D]' + TOL, 'V.is_parallel(b, **kw)', setup='V = Vector(a)', dims=ALL, choices=KW)
scenario('Vector.is_parallel', 'a:v[D] b:v[D]' + TOL, 'V.is_parallel(U, **kw)', setup='V = Vector(a); U = Vector(b)', dims=ALL,
         choices=KW2)

lemma('C07', 'scaled copies are parallel under every tolerance', 'a:v[D] c:s' + TOL,
      'b = c * S.A(a); V = Vector(a)',
      ['Is(V.is_parallel(b))', 'Is(Vector(b).is_parallel(a))', 'Is(V.is_parallel(b, abs_tol=at, rel_tol=rt))'], dims=ALL)
lemma('C07', 'perpendicular non-zero vectors are not parallel', 'a:v[D] b:v[D]', 'V = Vector(a)',
      ['Is(not V.is_parallel(b))', 'Is(not Vector(b).is_parallel(a))', 'Is(V.is_perpendicular(b))'],
      pre=['S.sq(a) > 0', 'S.sq(b) > 0', 'S.dot(a, b) == 0'], dims=ALL)
lemma('C07', 'symmetry', 'a:v[D] b:v[D]' + TOL, 'V = Vector(a); U = Vector(b); kw = dict(abs_tol=at, rel_tol=rt)',
      ['S.same(V.is_parallel(U, **kw), U.is_parallel(V, **kw))', 'S.same(V.is_perpendicular(U, **kw), U.is_perpendicular(V, **kw))'],
      dims=ALL)
lemma('C07', 'the zero vector is zero and only it by default', 'a:v[D]', 'V = Vector(a)',
      ['S.same(V.is_zero(), S.sq(a) == 0)'], dims=ALL)


@spec('Vector.different_direction')
def _(self, **kwargs):
    S.req(not S.isclose(S.sq(self), 0, **kwargs))
    d = S.A(self)._shape[0]
    if not np.is_int(d):
        d = np.udim(d)
    a = S.A(self)
    if d == 1:
        return S.vector([-S.sign(a[0])])
    e1 = np.where(np.arange(d) == 0, 1, 0)
    e2 = np.where(np.arange(d) == 1, 1, 0)
    return S.vector(e2 if S.parallel(a, e1, **kwargs) else e1)


scenario('Vector.different_direction', 'a:v[D]' + TOL, 'V.different_direction(**kw)', setup='V = Vector(a)',
         dims=D123 + [{'D': '>=4'}], choices=KW)
lemma('C08', 'really different', 'a:v[D]' + TOL,
      'V = Vector(a); r = V.different_direction(abs_tol=at, rel_tol=rt)',
      ['Lt(0, S.sq(r))', 'Lt(S.dot(a, r) * S.dot(a, r), S.sq(a) * S.sq(r))'],
      pre=['at < 1', 'rt < 1'], dims=[{'D': 2}, {'D': 3}, {'D': '>=4'}])
lemma('C08', 'default tolerances', 'a:v[D]', 'V = Vector(a); r = V.different_direction()',
      ['Lt(0, S.sq(r))', 'Is(not V.is_parallel(r))'], dims=[{'D': 2}, {'D': 3}, {'D': '>=4'}])
lemma('C08', 'opposite sign in one dimension', 'a:v[D]' + TOL,
      'V = Vector(a); r = V.different_direction(abs_tol=at, rel_tol=rt)', ['Lt(S.A(a)[0] * r[0], 0)'], dims=[{'D': 1}])


# ---------------------------------------------------------------- cross products, sides
@spec('Vector.cross')
def _(self, other):
    return S.vector(S.cross(self, S.arr1(other)))


PAIRS = [{'D': i, 'E': j} for i in (1, 2, 3) for j in (1, 2, 3)] + [{'D': '>=4', 'E': 3}, {'D': 3, 'E': '>=4'}, {'D': 4, 'E': 5}]
scenario('Vector.cross', 'a:v[D] b:v[E]', 'V.cross(b)', setup='V = Vector(a)', dims=PAIRS)
scenario('Vector.cross', 'a:v[D] b:v[E]', 'V.cross(U)', setup='V = Vector(a); U = Vector(b)', dims=PAIRS[:9])
lemma('C05', 'cross product: perpendicular, anticommutative, length', 'a:v[D] b:v[D]',
      'V = Vector(a); U = Vector(b); c = V.cross(U); d = U.cross(V)',
      ['Eq(S.dot3(c, S.pad3(a)), 0)', 'Eq(S.dot3(c, S.pad3(b)), 0)', 'S.eqarr(c, -S.A(d))',
       'Eq(S.sq(c), S.sq(a) * S.sq(b) - S.dot(a, b) * S.dot(a, b))'], dims=D123)


@spec('Vector.side_vector')
def _(self, other):
    a, b = S.A(self), S.arr1(other)
    S.req(a._shape[0] == 2 if np.is_int(a._shape[0]) else np.deq(a._shape[0], 2))
    S.req(b._shape[0] == 2 if np.is_int(b._shape[0]) else np.deq(b._shape[0], 2))
    return S.sign(b[0] * a[1] - b[1] * a[0])


scenario('Vector.side_vector', 'a:v[D] b:v[E]', 'V.side_vector(b)', setup='V = Vector(a)',
         dims=[{'D': 2, 'E': 2}, {'D': 2, 'E': 2}, {'D': 1, 'E': 2}, {'D': 2, 'E': 3}, {'D': 3, 'E': 2}, {'D': 3, 'E': 3}, {'D': '>=3', 'E': '>=3'}])
lemma('C05', 'right is one, left is minus one', 'a:v[D] t:s s:s+',
      'V = Vector(a); right = [a_[1] * s + a_[0] * t, -a_[0] * s + a_[1] * t]; left = [-a_[1] * s + a_[0] * t, a_[0] * s + a_[1] * t]',
      ['Eq(V.side_vector(right), 1)', 'Eq(V.side_vector(left), -1)', 'Eq(V.side_vector([t * a_[0], t * a_[1]]), 0)'],
      pre='S.sq(a) > 0', dims=[{'D': 2}])


# ---------------------------------------------------------------- angles
@spec('Vector.cosine_similarity')
def _(self, other):
    return S.cos(self, S.arr1(other))


scenario('Vector.cosine_similarity', 'a:v[D] b:v[D]', 'V.cosine_similarity(b)', setup='V = Vector(a)', dims=ALL)
scenario('Vector.cosine_similarity', 'a:v[D] b:v[D]', 'V.cosine_similarity(U)', setup='V = Vector(a); U = Vector(b)', dims=ALL)


@spec('Vector.angle_between')
def _(self, other):
    return math.acos(np.clip(S.cos(self, S.arr1(other)), -1, 1))


scenario('Vector.angle_between', 'a:v[D] b:v[D]', 'V.angle_between(b)', setup='V = Vector(a)', dims=ALL)
lemma('C06', 'range, symmetry, scaling', 'a:v[D] b:v[D] c:s+', 'V = Vector(a); U = Vector(b); t = V.angle_between(U)',
      ['Le(-1, V.cosine_similarity(U))', 'Le(V.cosine_similarity(U), 1)', 'Le(0, t)', 'Le(t, np.pi)', 'Eq(t, U.angle_between(V))',
       'Eq(t, Vector(c * S.A(a)).angle_between(U))', 'Eq(t, V.angle_between(c * S.A(b)))',
       'Eq(math.cos(t) * V.norm() * U.norm(), S.dot(a, b))'],
      pre=['S.sq(a) > 0', 'S.sq(b) > 0'], dims=ALL)


def two(x):
    d = S.arr1(x)._shape[0]
    return d == 2 if np.is_int(d) else np.deq(d, 2)


def three(x):
    d = S.arr1(x)._shape[0]
    return d == 3 if np.is_int(d) else np.deq(d, 3)


@spec('Vector.angle_signed')
def _(self, other):
    S.req(two(self) and two(other))
    a, b = S.A(self), S.A(other)
    return math.atan2(a[0] * b[1] - a[1] * b[0], S.dot(a, b))


scenario('Vector.angle_signed', 'a:v[D] b:v[E]', 'V.angle_signed(b)', setup='V = Vector(a)',
         dims=[{'D': 2, 'E': 2}, {'D': 2, 'E': 2}, {'D': 3, 'E': 2}, {'D': 2, 'E': 3}, {'D': 3, 'E': 3}, {'D': 1, 'E': 1}, {'D': '>=3', 'E': '>=3'}])
lemma('C06', 'signed angle range', 'a:v[D] b:v[D]', 't = Vector(a).angle_signed(b)',
      ['Lt(-np.pi, t)', 'Le(t, np.pi)'], dims=[{'D': 2}])


@spec('Vector.angle_signed_3d')
def _(self, other, direction_positive):
    S.req(three(self) and three(other) and three(direction_positive))
    c = S.cross(self, other)
    S.req(S.parallel(c, direction_positive))
    n = S.norm(direction_positive)
    S.req(n != 0)
    return math.atan2(S.dot(c, direction_positive) / n, S.dot(self, other))


scenario('Vector.angle_signed_3d', 'a:v[D] b:v[E] c:v[F]', 'V.angle_signed_3d(b, c)', setup='V = Vector(a)',
         dims=[{'D': 3, 'E': 3, 'F': 3}] * 3 + [{'D': 2, 'E': 3, 'F': 3}, {'D': 3, 'E': 2, 'F': 3}, {'D': 3, 'E': 3, 'F': 2}, {'D': 4, 'E': 4, 'F': 4}, {'D': 2, 'E': 2, 'F': 2}])
scenario('Vector.angle_signed_3d', 'a:v[D] b:v[D] t:s', 'V.angle_signed_3d(b, c)',
         setup='V = Vector(a); k = S.cross(a, b); c = [t * k[0], t * k[1], t * k[2]]' if False else
         'V = Vector(a); c = [t * (a_[1] * b_[2] - a_[2] * b_[1]), t * (a_[2] * b_[0] - a_[0] * b_[2]), t * (a_[0] * b_[1] - a_[1] * b_[0])]',
         dims=[{'D': 3}])
