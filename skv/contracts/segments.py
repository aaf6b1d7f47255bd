"""Contracts of LineSegment."""
from ..contract import spec, scenario, lemma, abstract, S, W, np, Eq, Le, Lt, Is
from .vectors import ALL, DIM, D123, KW, KW2, TOL
from .lines import coplanar

SEG = 'L = LineSegment(p, q)'
# every pair of points is p, p + d
SEGD = 'q = p_ + d_; L = LineSegment(p, q)'


@spec('LineSegment.__init__')
def _(self, point_a, point_b):
    a, b = S.new(W.Point, point_a, 1), S.new(W.Point, point_b, 1)
    S.req(np.deq(S.A(a)._shape[0], S.A(b)._shape[0]))
    S.req(not a.is_close(b))
    vars(self).update({'point_a': a, 'point_b': b, 'dimension': a.dimension})


scenario('LineSegment.__init__', 'p:v[D] q:v[D]', 'LineSegment(p, q)', dims=ALL + D123)
scenario('LineSegment.__init__', 'p:v[D] q:v[D]', 'LineSegment(point_a=Point(p), point_b=Point(q))', dims=ALL)
scenario('LineSegment.__init__', 'p:v[D]? q:v[D]?', 'LineSegment(p, q)', dims=[{'D': 2}], nsamples=60)
scenario('LineSegment.__init__', 'p:v[D] q:v[E]', 'LineSegment(p, q)', dims=[{'D': 2, 'E': 3}, {'D': 1, 'E': 2}, {'D': 3, 'E': 1}])


def between(a, b, x, **kwargs):
    u, v = a - x, b - x
    if S.isclose(S.sq(u), 0, **kwargs) or S.isclose(S.sq(v), 0, **kwargs):
        return True
    return S.isclose(S.cos(u, v), -1, **kwargs)


@spec('LineSegment.contains_point')
def _(self, point, **kwargs):
    return between(S.A(self.point_a), S.A(self.point_b), S.A(point), **kwargs)


scenario('LineSegment.contains_point', 'p:v[D] q:v[D] x:v[D]' + TOL, 'L.contains_point(x, **kw)', setup=SEG, dims=ALL, choices=KW)
scenario('LineSegment.contains_point', 'p:v[D] q:v[D] t:s' + TOL, 'L.contains_point(p_ + t * (q_ - p_), **kw)', setup=SEG, dims=ALL, choices=KW2)
lemma('C15', 'every point of the stretch is contained', 'p:v[D] d:v[D] t:s' + TOL, SEGD + '; x = p_ + t * d_',
      ['Is(L.contains_point(x))', 'Is(L.contains_point(x, abs_tol=at, rel_tol=rt))'], pre=['t >= 0', 't <= 1'], dims=ALL)
lemma('C15', 'no point of the extension is contained', 'p:v[D] d:v[D] t:s' + TOL, SEGD + '; x = p_ + t * d_',
      ['S.same(L.contains_point(x), False)'], pre=['S.sq(d) > 0', '(t < 0) | (t > 1)'], dims=ALL)
lemma('C15', 'no point off the line is contained but within the tolerance of a straight angle', 'p:v[D] q:v[D] x:v[D]',
      SEG + '; u = p_ - x_; v = q_ - x_',
      ['S.same(L.contains_point(x), (S.sq(u) == 0) | (S.sq(v) == 0) | S.isclose(S.cos(u, v), -1))'],
      pre=['S.sq(S.A(p) - S.A(x)) > 0', 'S.sq(S.A(q) - S.A(x)) > 0'], dims=ALL)


@spec('LineSegment.intersect_line_segment')
def _(self, other, **kwargs):
    X = W.Line.from_points(self.point_a, self.point_b).intersect_line(W.Line.from_points(other.point_a, other.point_b), **kwargs)
    S.req(self.contains_point(X))
    S.req(other.contains_point(X))
    return X


abstract('point', 'Line.intersect_line')
abstract('bool', 'LineSegment.contains_point', 'Point.is_close', raises=False)
AB = ('Point.is_close', 'Line.intersect_line', 'LineSegment.contains_point')
LM = 'L = LineSegment(p, q); M = LineSegment(r, s)'
CK = {'kw': ['{}', '{"abs_tol": at, "rel_tol": rt}', '{"check_coplanar": False}']}
scenario('LineSegment.intersect_line_segment', 'p:v[D] q:v[D] r:v[D] s:v[D]' + TOL, 'L.intersect_line_segment(M, **kw)',
         setup=LM, dims=DIM, choices=CK, abstract=AB)
scenario('LineSegment.intersect_line_segment', 'p:v[D] d:v[D] e:v[D] s:s t:s', 'L.intersect_line_segment(M)',
         setup='L = LineSegment(p, p_ + d_); x = p_ + a * d_; M = LineSegment(x - b * e_, x + (1 - b) * e_)',
         dims=[{'D': 2}, {'D': 3}], choices={'a': ['t', '0.5', '0.25', '1'], 'b': ['s', '0.5', '0.875']}, abstract=AB)
scenario('LineSegment.intersect_line_segment', 'p:v[D] q:v[D] r:v[E] s:v[E]', 'L.intersect_line_segment(M)',
         setup=LM, dims=[{'D': 2, 'E': 3}, {'D': 1, 'E': 2}], abstract=AB)
lemma('C15', 'crossing segments meet at the common point, found wherever it is', 'p:v[D] d:v[D] e:v[D] s:s t:s',
      'L = LineSegment(p, p_ + d_); x = p_ + t * d_; M = LineSegment(x - s * e_, x + (1 - s) * e_); X = L.intersect_line_segment(M)',
      ['S.eqarr(X, x)', 'Is(L.contains_point(X))', 'Is(M.contains_point(X))'],
      pre=['S.sq(d) > 0', 'S.sq(e) > 0', 'not S.parallel(d, e)', 't >= 0', 't <= 1', 's >= 0', 's <= 1'], dims=[{'D': 2}, {'D': 3}], abstract=('Point.is_close',))
