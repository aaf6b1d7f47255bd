"""Contracts of Line."""
from ..contract import spec, scenario, lemma, S, W, np, Eq, Le, Lt, Is
from .vectors import ALL, DIM, D123, KW, KW2, TOL

NM = [{'N': '*', 'D': '*'}]
LINE = 'L = Line(p, d)'
TWO = 'L = Line(p, d); M = Line(q, e)'


def base_init(self, point, vector, name):
    p = S.new(W.Point, point, 1)
    v = S.new(W.Vector, vector, 1)
    S.req(np.deq(S.A(p)._shape[0], S.A(v)._shape[0]))
    S.req(S.sq(v) != 0)
    vars(self).update({'point': p, 'vector': v, name: v, 'dimension': p.dimension})


@spec('Line.__init__')
def _(self, point, direction):
    base_init(self, point, direction, 'direction')


scenario('Line.__init__', 'p:v[D] d:v[D]', 'Line(p, d)', dims=ALL)
scenario('Line.__init__', 'p:v[D] d:v[D]', 'Line(point=Point(p), direction=Vector(d))', dims=ALL)
scenario('Line.__init__', 'p:v[D]? d:v[D]?', 'Line(p, d)', dims=[{'D': 2}], nsamples=60)
scenario('Line.__init__', 'p:v[D] d:v[E]', 'Line(p, d)', dims=[{'D': 2, 'E': 3}, {'D': 3, 'E': 2}, {'D': 1, 'E': 2}, {'D': 3, 'E': 1}])
scenario('Line.__init__', 'p:v[D] d:m[D,D]', 'Line(p, d)', dims=[{'D': 2}])


@spec('Line.from_points')
def _(cls, point_a, point_b):
    d = S.A(point_b) - S.A(point_a)
    p = S.new(W.Point, point_a, 1)
    S.req(S.sq(d) != 0)
    return S.line(p, d)


scenario('Line.from_points', 'p:v[D] q:v[D]', 'Line.from_points(p, q)', dims=ALL)
scenario('Line.from_points', 'p:v[D] q:v[D]', 'Line.from_points(Point(p), Point(q))', dims=ALL)


@spec('Line.from_slope')
def _(cls, slope, y_intercept):
    return S.line([0, y_intercept], [1, slope])


scenario('Line.from_slope', 'm:s b:s', 'Line.from_slope(m, b)')
scenario('Line.from_slope', 'm:s b:s', 'Line.from_slope(slope=m, y_intercept=b)')
lemma('C21', 'a line from points passes through both', 'p:v[D] q:v[D]', 'L = Line.from_points(p, q)',
      ['S.eqarr(L.to_point(0), p)', 'S.eqarr(L.to_point(1), q)', 'Is(L.contains_point(p))', 'Is(L.contains_point(q))'],
      pre='S.sq(S.A(q) - S.A(p)) > 0', dims=ALL)
lemma('C21', 'a line from a slope is the graph y = m x + b', 'm:s b:s x:s', 'L = Line.from_slope(m, b)',
      ['Is(L.contains_point([x, m * x + b]))', 'S.same(L.contains_point([x, m * x + b + 1]), False)'])


# ---------------------------------------------------------------- points along the line, projections
@spec('Line.to_point')
def _(self, t=1):
    return S.point(S.A(self.point) + t * S.A(self.direction))


scenario('Line.to_point', 'p:v[D] d:v[D] t:s', 'L.to_point(**kw)', setup=LINE, dims=ALL, choices={'kw': ['{}', '{"t": t}', '{"t": 0}']})


def foot(self, point):
    """Nearest point of the line."""
    p, d = S.A(self.point), S.A(self.direction)
    return p + S.proj(d, S.A(point) - p)


@spec('Line.project_point')
def _(self, point):
    return S.point(foot(self, point))


@spec('Line.project_vector')
def _(self, vector):
    return S.vector(S.proj(self.direction, vector))


@spec('Line.distance_point')
def _(self, point):
    return S.norm(foot(self, point) - S.A(point))


scenario('Line.project_point', 'p:v[D] d:v[D] q:v[D]', 'L.project_point(q)', setup=LINE, dims=ALL)
scenario('Line.project_point', 'p:v[D] d:v[D] q:v[D]', 'L.project_point(Point(q))', setup=LINE, dims=ALL)
scenario('Line.project_vector', 'p:v[D] d:v[D] q:v[D]', 'L.project_vector(q)', setup=LINE, dims=ALL)
scenario('Line.distance_point', 'p:v[D] d:v[D] q:v[D]', 'L.distance_point(q)', setup=LINE, dims=ALL)
lemma('C09', 'the projection is the nearest point of the line', 'p:v[D] d:v[D] q:v[D] t:s',
      LINE + '; f = L.project_point(q); r = S.A(q) - S.A(f)',
      ['Eq(S.dot(r, d), 0)', 'Is(L.contains_point(f))', 'Le(L.distance_point(q), Point(q).distance_point(L.to_point(t)))',
       'S.eqarr(L.project_point(f), f)', 'Le(0, L.distance_point(q))', 'Eq(L.distance_point(q), Point(q).distance_point(f))'],
      pre='S.sq(d) > 0', dims=ALL)
lemma('C09', 'points of the line are at distance zero', 'p:v[D] d:v[D] t:s', LINE + '; q = L.to_point(t)',
      ['Eq(L.distance_point(q), 0)', 'S.eqarr(L.project_point(q), q)'], pre='S.sq(d) > 0', dims=ALL)
lemma('C09', 'projected vector is parallel to the line and the rest is perpendicular', 'p:v[D] d:v[D] v:v[D]',
      LINE + '; r = L.project_vector(v)',
      ['Eq(S.dot(S.A(v) - S.A(r), d), 0)', 'Eq(S.dot(r, d) * S.dot(r, d), S.sq(r) * S.sq(d))'], pre='S.sq(d) > 0', dims=ALL)


def feet(self, points):
    P, p, d = S.A(points), S.A(self.point), S.A(self.direction)
    return p + (np.dot(P - p, d) / S.sq(d))[:, None] * d


@spec('Line.project_points')
def _(self, points):
    return S.points(feet(self, points))


@spec('Line.distance_points')
def _(self, points):
    return np.linalg.norm(S.A(points) - feet(self, points), axis=1)


@spec('Line.sum_squares')
def _(self, points):
    return ((S.A(points) - feet(self, points)) ** 2).sum()


@spec('Line.transform_points')
def _(self, points):
    d = S.A(self.direction)
    r = np.dot(S.A(points) - S.A(self.point), d) / S.norm(d)
    return S.loose(r if np.ndim(r) == 1 else np.array([r]))


scenario('Line.project_points', 'p:v[D] d:v[D] a:m[N,D]', 'L.project_points(a)', setup=LINE, dims=NM)
scenario('Line.project_points', 'p:v[D] d:v[D] a:m[N,D]', 'L.project_points(P)', setup=LINE + '; P = Points(a)', dims=NM)
scenario('Line.distance_points', 'p:v[D] d:v[D] a:m[N,D]', 'L.distance_points(a)', setup=LINE, dims=NM)
scenario('Line.distance_points', 'p:v[D] d:v[D] a:m[N,D]', 'L.distance_points(P)', setup=LINE + '; P = Points(a)', dims=NM)
scenario('Line.sum_squares', 'p:v[D] d:v[D] a:m[N,D]', 'L.sum_squares(a)', setup=LINE, dims=NM)
scenario('Line.sum_squares', 'p:v[D] d:v[D] a:m[N,D]', 'L.sum_squares(P)', setup=LINE + '; P = Points(a)', dims=NM)
scenario('Line.transform_points', 'p:v[D] d:v[D] a:m[N,D]', 'L.transform_points(a)', setup=LINE, dims=NM)
scenario('Line.transform_points', 'p:v[D] d:v[D] a:m[N,D]', 'L.transform_points(P)', setup=LINE + '; P = Points(a)', dims=NM)
lemma('C09', 'arrays of points agree with single points', 'p:v[D] d:v[D] q:v[D] r:v[D]',
      LINE + '; P = [q_, r_]; F = L.project_points(P); w = L.distance_points(P)',
      ['S.eqarr(S.A(F)[0], L.project_point(q))', 'S.eqarr(S.A(F)[1], L.project_point(r))', 'Eq(w[0], L.distance_point(q))',
       'Eq(w[1], L.distance_point(r))'], pre='S.sq(d) > 0', dims=ALL)
lemma('C32', 'sum of squared line distances', 'p:v[D] d:v[D] q:v[D] r:v[D]', LINE,
      ['Eq(L.sum_squares([q_, r_]), L.distance_point(q) ** 2 + L.distance_point(r) ** 2)'], pre='S.sq(d) > 0', dims=ALL)
lemma('C31', 'coordinate along the line: feet are to_point of coordinate over length', 'p:v[D] d:v[D] q:v[D] t:s',
      LINE + '; x = L.transform_points([q_])[0]; y = L.transform_points([L.to_point(t)])[0]',
      ['S.eqarr(L.to_point(x / S.norm(d)), L.project_point(q))', 'Eq(y, t * S.norm(d))'], pre='S.sq(d) > 0', dims=ALL)


@spec('Line.contains_point')
def _(self, point, **kwargs):
    return S.isclose(S.norm(foot(self, point) - S.A(point)), 0, **kwargs)


@spec('Line.is_close')
def _(self, other, **kwargs):
    S.req(isinstance(other, type(self)), TypeError)
    c = S.isclose(S.norm(foot(self, other.point) - S.A(other.point)), 0, **kwargs)
    return c and S.parallel(self.direction, other.direction, **kwargs)


scenario('Line.contains_point', 'p:v[D] d:v[D] q:v[D]' + TOL, 'L.contains_point(q, **kw)', setup=LINE, dims=ALL, choices=KW)
scenario('Line.contains_point', 'p:v[D] d:v[D] q:v[D] t:s' + TOL, 'L.contains_point(L.to_point(t), **kw)', setup=LINE, dims=ALL, choices=KW2)
scenario('Line.is_close', 'p:v[D] d:v[D] q:v[D] e:v[D]' + TOL, 'L.is_close(M, **kw)', setup=TWO, dims=ALL, choices=KW2)
scenario('Line.is_close', 'p:v[D] d:v[D] t:s c:s' + TOL, 'L.is_close(M, **kw)', setup=LINE + '; M = Line(p_ + t * d_, c * d_)', dims=ALL, choices=KW2)
scenario('Line.is_close', 'p:v[D] d:v[D]', 'L.is_close(x)', setup=LINE, dims=ALL, choices={'x': ['p', 'Point(p)', 'Plane(p, d)', 'None']})
lemma('C32', 'the same line is close, whatever its point and scale', 'p:v[D] d:v[D] t:s c:s',
      LINE + '; M = Line(p_ + t * d_, c * d_)', ['Is(L.is_close(M))', 'Is(M.is_close(L))'], pre=['S.sq(d) > 0', 'c != 0'], dims=ALL)


@spec('Line.side_point')
def _(self, point):
    d, w = S.A(self.direction), S.A(point) - S.A(self.point)
    S.req(np.deq(d._shape[0], 2))
    S.req(np.deq(w._shape[0], 2))
    return S.sign(w[0] * d[1] - w[1] * d[0])


scenario('Line.side_point', 'p:v[D] d:v[D] q:v[D]', 'L.side_point(q)', setup=LINE, dims=[{'D': 2}, {'D': 2}, {'D': 1}, {'D': 3}, {'D': '>=3'}])
lemma('C05', 'side of a line: right is one, left minus one', 'p:v[D] d:v[D] t:s s:s+',
      LINE + '; n = np.array([d_[1], -d_[0]])',
      ['Eq(L.side_point(p_ + t * d_ + s * n), 1)', 'Eq(L.side_point(p_ + t * d_ - s * n), -1)', 'Eq(L.side_point(p_ + t * d_), 0)'],
      pre='S.sq(d) > 0', dims=[{'D': 2}])


# ---------------------------------------------------------------- two lines
def coplanar(self, other, tol=None):
    p, d, q, e = (S.A(x) for x in (self.point, self.direction, other.point, other.direction))
    return S.affrank([p, p + d, q, q + e], tol) <= 2


@spec('Line.is_coplanar')
def _(self, other, tol=None):
    S.req(isinstance(other, type(self)), TypeError)
    return coplanar(self, other, tol)


scenario('Line.is_coplanar', 'p:v[D] d:v[D] q:v[D] e:v[D] at:s0', 'L.is_coplanar(M, **kw)', setup=TWO, dims=ALL + [{'D': 2}, {'D': 3}],
         choices={'kw': ['{}', '{"tol": at}']})
scenario('Line.is_coplanar', 'p:v[D] d:v[D]', 'L.is_coplanar(x)', setup=LINE, dims=ALL, choices={'x': ['p', 'Point(p)', 'Plane(p, d)']})
lemma('C13', 'lines with a common point or direction are coplanar, in both orders', 'p:v[D] d:v[D] q:v[D] e:v[D] s:s t:s c:s',
      TWO + '; X = L.to_point(t); K = Line(S.A(X) + s * S.A(e), e); R = Line(q, c * S.A(d))',
      ['Is(L.is_coplanar(K))', 'Is(K.is_coplanar(L))', 'Is(L.is_coplanar(R))', 'S.same(L.is_coplanar(M), M.is_coplanar(L))'],
      pre=['S.sq(d) > 0', 'S.sq(e) > 0', 'c != 0'], dims=ALL)


@spec('Line.distance_line')
def _(self, other):
    p, d, q, e = (S.A(x) for x in (self.point, self.direction, other.point, other.direction))
    if S.parallel(d, e):
        return S.norm(foot(self, q) - q)
    if coplanar(self, other):
        return 0
    c = S.cross(d, e)
    return abs(S.dot3(S.pad3(q - p), c)) / S.sqrt(S.dot3(c, c))


scenario('Line.distance_line', 'p:v[D] d:v[D] q:v[D] e:v[D]', 'L.distance_line(M)', setup=TWO, dims=DIM)
scenario('Line.distance_line', 'p:v[D] d:v[D] q:v[D] c:s', 'L.distance_line(M)', setup=LINE + '; M = Line(q, c * d_)', dims=ALL)
lemma('C13', 'the distance of skew lines is the common-normal component of every difference', 'p:v[D] d:v[D] q:v[D] e:v[D] s:s t:s',
      TWO + '; x = L.distance_line(M); w = S.A(q) + t * S.A(e) - S.A(p) - s * S.A(d); c = S.cross(d, e)',
      ['Le(0, x)', 'Eq(x * x * S.sq(c), S.dot3(w, c) ** 2)', 'Eq(M.distance_line(L), x)'],
      pre=['S.sq(d) > 0', 'S.sq(e) > 0', 'not S.parallel(d, e)'], dims=[{'D': 3}])
lemma('C13', 'so no difference is shorter (Cauchy-Schwarz)', 'w:v[D] c:v[D] x:s0', '',
      ['Is(x <= S.norm(w))'], pre=['x * x * S.sq(c) == S.dot(w, c) ** 2', 'S.sq(c) > 0'], dims=ALL)
lemma('C13', 'parallel lines: the distance is that of any point of one to the other', 'p:v[D] d:v[D] q:v[D] c:s t:s',
      LINE + '; M = Line(q, c * d_); x = L.distance_line(M)',
      ['Eq(x, L.distance_point(M.to_point(t)))', 'Eq(M.distance_line(L), x)', 'Le(0, x)'],
      pre=['S.sq(d) > 0', 'c != 0'], dims=ALL)


@spec('Line.intersect_line')
def _(self, other, check_coplanar=True, **kwargs):
    p, d, q, e = (S.A(x) for x in (self.point, self.direction, other.point, other.direction))
    S.req(np.deq(d._shape[0], e._shape[0]))
    S.req(not np.dlt(3, d._shape[0]))
    S.req(not S.parallel(d, e, **kwargs))
    if check_coplanar:
        S.req(coplanar(self, other))
    w = q - p
    t = (S.dot(w, d) * S.sq(e) - S.dot(w, e) * S.dot(d, e)) / (S.sq(d) * S.sq(e) - S.dot(d, e) ** 2)
    return S.point(p + t * d)


CK = {'kw': ['{}', '{"abs_tol": at, "rel_tol": rt}'], 'ck': ['{}', '{"check_coplanar": False}', '{"check_coplanar": True}']}
scenario('Line.intersect_line', 'p:v[D] d:v[D] q:v[D] e:v[D]' + TOL, 'L.intersect_line(M, **ck, **kw)', setup=TWO, dims=DIM, choices=CK)
scenario('Line.intersect_line', 'p:v[D] d:v[D] e:v[D] s:s t:s', 'L.intersect_line(M)',
         setup=LINE + '; M = Line(p_ + t * d_ + s * e_, e_)', dims=D123)
scenario('Line.intersect_line', 'p:v[D] d:v[D] q:v[E] e:v[E]', 'L.intersect_line(M)', setup=TWO,
         dims=[{'D': 2, 'E': 3}, {'D': 3, 'E': 2}, {'D': 1, 'E': 3}])
lemma('C12', 'the intersection lies on both lines and is found wherever it is', 'p:v[D] d:v[D] e:v[D] s:s t:s',
      LINE + '; X = p_ + t * d_; M = Line(X + s * e_, e_); Y = L.intersect_line(M)',
      ['S.eqarr(Y, X)', 'Is(L.contains_point(Y))', 'Is(M.contains_point(Y))', 'S.eqarr(M.intersect_line(L), X)'],
      pre=['S.sq(d) > 0', 'S.sq(e) > 0', 'not S.parallel(d, e)'], dims=[{'D': 2}, {'D': 3}])
