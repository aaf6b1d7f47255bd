"""Contracts of Points, and of the measurement and transformation functions."""
from ..contract import spec, scenario, lemma, S, W, np, Eq, Le, Lt, Is
from .vectors import ALL, TOL

NM = [{'N': '*', 'D': '*'}]
N3 = [{'N': 1, 'D': '*'}, {'N': 2, 'D': '*'}, {'N': 3, 'D': '*'}]


@spec('Points.unique')
def _(self):
    return S.points(np.unique(S.A(self), axis=0))


@spec('Points.centroid')
def _(self):
    a = S.A(self)
    return S.point(a.sum(axis=0) / np.udim(a._shape[0]))


@spec('Points.mean_center')
def _(self, return_centroid=False):
    a = S.A(self)
    c = a.sum(axis=0) / np.udim(a._shape[0])
    r = S.points(a - c)
    return (r, S.point(c)) if return_centroid else r


@spec('Points.normalize_distance')
def _(self):
    a = S.A(self)
    return S.points(a / np.linalg.norm(a, axis=1).max())


scenario('Points.unique', 'a:m[N,D]', 'P.unique()', setup='P = Points(a)', dims=NM + N3[:2])
scenario('Points.centroid', 'a:m[N,D]', 'P.centroid()', setup='P = Points(a)', dims=NM)
scenario('Points.mean_center', 'a:m[N,D]', 'P.mean_center(**kw)', setup='P = Points(a)', dims=NM,
         choices={'kw': ['{}', '{"return_centroid": False}', '{"return_centroid": True}']})
scenario('Points.normalize_distance', 'a:m[N,D]', 'P.normalize_distance()', setup='P = Points(a)', pre='np.sum(S.A(a) ** 2) > 0',
         dims=[{'N': 1, 'D': '*'}, {'N': 2, 'D': 2}, {'N': 3, 'D': '*'}, {'N': 4, 'D': 3}])
lemma('C24', 'the centred points have centroid zero and the given centroid shifts back', 'a:m[N,D]',
      'P = Points(a); Q, c = P.mean_center(return_centroid=True); z = Q.centroid()',
      ['S.eqarr(z, np.zeros(D))', 'S.eqarr(S.A(Q) + S.A(c), a)', 'S.eqarr(c, P.centroid())'], dims=NM)
lemma('C24', 'the centroid is the mean', 'a:m[N,D]', 'c = Points(a).centroid()',
      ['S.eqarr(N * S.A(c), S.A(a).sum(axis=0))'], dims=NM)
lemma('C24', 'normalised points lie in the unit ball and one lies on the unit sphere', 'a:m[N,D]',
      'Q = Points(a).normalize_distance(); r = [np.linalg.norm(S.A(Q)[i]) for i in range(N)]',
      ['[Le(x, 1) for x in r]', 'Eq(max(r), 1)'], pre='np.sum(S.A(a) ** 2) > 0', dims=[{'N': 1, 'D': '*'}, {'N': 2, 'D': '*'}, {'N': 3, 'D': 2}])


# ---------------------------------------------------------------- affine rank
@spec('Points.affine_rank')
def _(self, tol=None):
    return S.affrank_of(self, tol)


@spec('Points.are_concurrent')
def _(self, tol=None):
    return S.affrank_of(self, tol) <= 0


@spec('Points.are_collinear')
def _(self, tol=None):
    return S.affrank_of(self, tol) <= 1


@spec('Points.are_coplanar')
def _(self, tol=None):
    return S.affrank_of(self, tol) <= 2


RK = [{'N': '*', 'D': '*'}, {'N': 1, 'D': '*'}, {'N': 2, 'D': '*'}]
TK = {'kw': ['{}', '{"tol": at}', '{"tol": None}']}
scenario('Points.affine_rank', 'a:m[N,D] at:s0', 'P.affine_rank(**kw)', setup='P = Points(a)',
         dims=RK + [{'N': 3, 'D': 2}, {'N': 3, 'D': 3}], choices=TK)
for m in ('are_concurrent', 'are_collinear', 'are_coplanar'):
    scenario(f'Points.{m}', 'a:m[N,D] at:s0', f'P.{m}(**kw)', setup='P = Points(a)', dims=RK + [{'N': 3, 'D': '*'}, {'N': 4, 'D': '*'}, {'N': 4, 'D': 2}],
             choices=TK)
lemma('C25', 'exact special cases', 'a:v[D] b:v[D] c:v[D]',
      'one = Points([a]); two = Points([a, b]); three = Points([a, b, c])',
      ['Is(one.are_concurrent())', 'S.same(two.are_concurrent(), S.sq(S.A(a) - S.A(b)) == 0)', 'Is(two.are_collinear())',
       'Is(three.are_coplanar())',
       'S.same(three.are_collinear(), S.sq(S.A(b)-S.A(a))*S.sq(S.A(c)-S.A(a)) == S.dot(S.A(b)-S.A(a), S.A(c)-S.A(a))**2)'], dims=ALL)
lemma('C25', 'on a line, in a plane', 'p:v[D] d:v[D] e:v[D] t:s s:s u:s v:s w:s x:s',
      'col = Points([p, S.A(p)+t*S.A(d), S.A(p)+s*S.A(d), S.A(p)+u*S.A(d)]); '
      'cop = Points([p, S.A(p)+t*S.A(d)+s*S.A(e), S.A(p)+u*S.A(d)+v*S.A(e), S.A(p)+w*S.A(d)+x*S.A(e)])',
      ['Is(col.are_collinear())', 'Is(col.are_coplanar())', 'Is(cop.are_coplanar())'], dims=ALL)
