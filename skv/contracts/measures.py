"""Contracts of the measurement and transformation functions."""
from ..contract import spec, scenario, lemma, S, W, np, Eq, Le, Lt, Is
from .vectors import ALL, DIM, D123


# ---------------------------------------------------------------- transformation
@spec('transformation.transform_coordinates')
def _(points, point_origin, vectors_basis):
    return S.loose(np.matmul(S.A(points) - S.A(point_origin), np.transpose(S.A(vectors_basis))))


TC = 'transformation.transform_coordinates'
scenario(TC, 'a:m[N,D] o:v[D] b:m[K,D]', 'transformation.transform_coordinates(a, o, b)', dims=[{'N': '*', 'D': '*', 'K': '*'}, {'N': 3, 'D': 3, 'K': 3}])
scenario(TC, 'a:m[N,D] o:v[D] b:m[K,D]f', 'transformation.transform_coordinates(points=a, point_origin=o, vectors_basis=b)', dims=[{'N': '*', 'D': '*', 'K': '*'}])
scenario(TC, 'a:m[N,D] o:v[D]f b:m[K,D]', 'transformation.transform_coordinates(Points(a), Point(o), b)', dims=[{'N': '*', 'D': '*', 'K': '*'}])
scenario(TC, 'a:m[N,D] o:v[D] u:v[D] v:v[D]', 'transformation.transform_coordinates(a, o, [u, v])', dims=[{'N': '*', 'D': '*'}])
scenario(TC, 'a:m[N,D] o:v[D] u:v[D] v:v[D]', 'transformation.transform_coordinates(a, o, (Vector(u), Vector(v)))', dims=[{'N': '*', 'D': '*'}])
scenario(TC, 'a:m[N,D]A o:v[D]f u:v[D]', 'transformation.transform_coordinates(a, o, [Vector(u)])', dims=[{'N': '*', 'D': '*'}], nsamples=20)
lemma('C31', 'each entry is the dot product of the offset with the basis vector', 'p:v[D] q:v[D] o:v[D] u:v[D] v:v[D]',
      'T = transformation.transform_coordinates([p, q], o, [u, v])',
      ['Eq(T[0][0], S.dot(S.A(p) - S.A(o), u))', 'Eq(T[0][1], S.dot(S.A(p) - S.A(o), v))', 'Eq(T[1][0], S.dot(S.A(q) - S.A(o), u))',
       'Eq(T[1][1], S.dot(S.A(q) - S.A(o), v))', 'Is(np.shape(T) == (2, 2))'], dims=ALL)
lemma('C31', 'an orthonormal basis of the plane preserves distances', 'p:v[2] q:v[2] o:v[2] u:v[2] v:v[2]',
      'T = transformation.transform_coordinates([p, q], o, [u, v]); r = S.A(T)[0] - S.A(T)[1]',
      ['Eq(S.sq(r), S.sq(S.A(p) - S.A(q)))'], pre=['S.sq(u) == 1', 'S.sq(v) == 1', 'S.dot(u, v) == 0'])
lemma('C31', 'coordinates in an orthonormal basis of the space', 'x:s y:s z:s o:v[D] u:v[D] v:v[D] w:v[D]',
      'p = o_ + x * u_ + y * v_ + z * w_; T = transformation.transform_coordinates([p], o, [u, v, w])[0]',
      ['Eq(T[0], x)', 'Eq(T[1], y)', 'Eq(T[2], z)', 'Eq(S.sq(S.A(p) - S.A(o)), T[0] ** 2 + T[1] ** 2 + T[2] ** 2)'],
      pre=['S.sq(u) == 1', 'S.sq(v) == 1', 'S.sq(w) == 1', 'S.dot(u, v) == 0', 'S.dot(u, w) == 0', 'S.dot(v, w) == 0'], dims=[{'D': '=3'}, {'D': '*'}])


# ---------------------------------------------------------------- measurement
def norm3(c):
    return S.sqrt(S.dot3(c, c))


@spec('measurement.area_triangle')
def _(point_a, point_b, point_c):
    a, b, c = S.A(point_a), S.A(point_b), S.A(point_c)
    return norm3(S.cross(b - a, c - a)) / 2


@spec('measurement.volume_tetrahedron')
def _(point_a, point_b, point_c, point_d):
    a, b, c, d = (S.A(x) for x in (point_a, point_b, point_c, point_d))
    n = S.cross(c - a, d - a)
    return abs(S.dot3(S.pad3(b - a), n)) / 6


D14 = [{'D': 1}, {'D': 2}, {'D': 3}, {'D': '>=4'}]
AT, VT = 'measurement.area_triangle', 'measurement.volume_tetrahedron'
scenario(AT, 'a:v[D] b:v[D] c:v[D]', 'measurement.area_triangle(a, b, c)', dims=D14)
scenario(AT, 'a:v[D] b:v[D] c:v[D]', 'measurement.area_triangle(Point(a), Point(b), point_c=c)', dims=D14[:3])
scenario(VT, 'a:v[D] b:v[D] c:v[D] d:v[D]', 'measurement.volume_tetrahedron(a, b, c, d)', dims=D14)
scenario(VT, 'a:v[D] b:v[D] c:v[D] d:v[D]', 'measurement.volume_tetrahedron(Point(a), Point(b), Point(c), point_d=d)', dims=D14[:3])
lemma('C26', 'the area does not depend on the order of the points and is half base times height', 'a:v[D] b:v[D] c:v[D]',
      'x = measurement.area_triangle(a, b, c); L = Line.from_points(a, b)',
      ['Eq(x, measurement.area_triangle(b, c, a))', 'Eq(x, measurement.area_triangle(b, a, c))', 'Le(0, x)',
       'Eq(4 * x * x, S.sq(S.A(b) - S.A(a)) * S.sq(S.A(c) - S.A(a)) - S.dot(S.A(b) - S.A(a), S.A(c) - S.A(a)) ** 2)'],
      pre='S.sq(S.A(b) - S.A(a)) > 0', dims=[{'D': 2}, {'D': 3}])
lemma('C26', 'the volume does not depend on the order and is zero in a plane', 'a:v[3] b:v[3] c:v[3] d:v[3] s:s t:s',
      'x = measurement.volume_tetrahedron(a, b, c, d); e = a_ + s * (b_ - a_) + t * (c_ - a_)',
      ['Eq(x, measurement.volume_tetrahedron(b, a, c, d))', 'Eq(x, measurement.volume_tetrahedron(d, a, b, c))', 'Le(0, x)',
       'Eq(measurement.volume_tetrahedron(a, b, c, e), 0)'])
lemma('C26', 'points of dimension two span no volume', 'a:v[2] b:v[2] c:v[2] d:v[2]', '',
      ['Eq(measurement.volume_tetrahedron(a, b, c, d), 0)'])


@spec('measurement.area_signed')
def _(points):
    P = S.new(W.Points, points, 2)
    a = S.A(P)
    S.req(np.deq(a._shape[1], 2))
    S.req(not np.dlt(a._shape[0], 3))
    x, y = a[:, 0], a[:, 1]
    i = np.arange(np.udim(a._shape[0]))
    return np.sum(x[i - 1] * y[i] - x[i] * y[i - 1]) / 2


AS = 'measurement.area_signed'
scenario(AS, 'a:m[N,2]', 'measurement.area_signed(a)', dims=[{'N': '>=3'}, {'N': 3}, {'N': 4}, {'N': 5}], nsamples=30)
scenario(AS, 'a:m[N,2]', 'measurement.area_signed(Points(a))', dims=[{'N': '>=3'}, {'N': 4}])
scenario(AS, 'a:m[N,D]', 'measurement.area_signed(a)', dims=[{'N': 2, 'D': 2}, {'N': 1, 'D': 2}, {'N': '>=3', 'D': 1}, {'N': '>=3', 'D': '>=3'}])
scenario(AS, 'a:v[D]', 'measurement.area_signed(a)', dims=[{'D': '*'}])
lemma('C26', 'rotation and reversal of the vertex list, and the triangle', 'a:v[2] b:v[2] c:v[2] d:v[2] e:v[2]',
      'x = measurement.area_signed([a, b, c, d, e])',
      ['Eq(x, measurement.area_signed([b, c, d, e, a]))', 'Eq(x, -measurement.area_signed([e, d, c, b, a]))',
       'Eq(abs(measurement.area_signed([a, b, c])), measurement.area_triangle(a, b, c))',
       'Eq(x, measurement.area_signed([a, b, c]) + measurement.area_signed([a, c, d]) + measurement.area_signed([a, d, e]))'])
lemma('C26', 'counter-clockwise is positive', 'x:s y:s w:s+ h:s+', '',
      ['Eq(measurement.area_signed([[x, y], [x + w, y], [x + w, y + h], [x, y + h]]), w * h)'])
