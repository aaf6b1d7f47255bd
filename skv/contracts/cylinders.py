"""Contracts of Cylinder."""
from ..contract import spec, scenario, lemma, abstract, helper, S, W, np, Eq, Le, Lt, Is
from .vectors import ALL, DIM, D123, KW, KW2, TOL
from .planes import mesh_points

D3 = [{'D': 3}]
G3 = [{'D': '=3'}]
CYL = 'O = Cylinder(p, v, r)'


def cylinder(p, v, r):
    return S.obj(W.Cylinder, point=S.point(p), vector=S.vector(v), radius=r, dimension=3)


@spec('Cylinder.__init__')
def _(self, point, vector, radius):
    p, v = S.new(W.Point, point, 1), S.new(W.Vector, vector, 1)
    S.req(np.deq(S.A(p)._shape[0], 3))
    S.req(np.deq(S.A(v)._shape[0], 3))
    S.req(S.sq(v) != 0)
    S.req(radius > 0)
    vars(self).update({'point': p, 'vector': v, 'radius': radius, 'dimension': 3})


BAD = [{'D': 2, 'E': 3}, {'D': 3, 'E': 2}, {'D': 1, 'E': 3}, {'D': 3, 'E': 1}, {'D': '>=4', 'E': 3}, {'D': 3, 'E': '>=4'}, {'D': 2, 'E': 2}]
scenario('Cylinder.__init__', 'p:v[D] v:v[E] r:s', 'Cylinder(p, v, r)', dims=[{'D': 3, 'E': 3}] + BAD)
scenario('Cylinder.__init__', 'p:v[D] v:v[D] r:s', 'Cylinder(point=Point(p), vector=Vector(v), radius=r)', dims=D3)
scenario('Cylinder.__init__', 'p:v[D]? v:v[D]? r:s', 'Cylinder(p, v, x)', dims=D3, choices={'x': ['r', '0', 'np.nan', 'np.inf', '-1', '2']}, nsamples=80)


@spec('Cylinder.from_points')
def _(cls, point_a, point_b, radius):
    a, b = S.A(point_a), S.A(point_b)
    d = b - a
    S.req(np.deq(a._shape[0], 3))
    S.req(np.deq(d._shape[0], 3))
    S.req(S.sq(d) != 0)
    S.req(radius > 0)
    return cylinder(a, d, radius)


scenario('Cylinder.from_points', 'p:v[D] q:v[E] r:s', 'Cylinder.from_points(p, q, r)',
         dims=[{'D': 3, 'E': 3}, {'D': 2, 'E': 2}, {'D': 1, 'E': 1}, {'D': 4, 'E': 4}, {'D': 2, 'E': 3}, {'D': 3, 'E': 4}])
scenario('Cylinder.from_points', 'p:v[D] q:v[D] r:s', 'Cylinder.from_points(point_a=Point(p), point_b=Point(q), radius=r)', dims=D3)
lemma('C21', 'a cylinder from points has them as its cap centres', 'p:v[D] q:v[D] r:s+', 'O = Cylinder.from_points(p, q, r)',
      ['S.eqarr(O.point, p)', 'S.eqarr(O.point + O.vector, q)', 'Is(O.is_point_within(p))', 'Is(O.is_point_within(q))'],
      pre='S.sq(S.A(q) - S.A(p)) > 0', dims=G3)


# ---------------------------------------------------------------- measures, membership
@spec('Cylinder.length')
def _(self):
    return S.norm(self.vector)


@spec('Cylinder.lateral_surface_area')
def _(self):
    return 2 * np.pi * self.radius * S.norm(self.vector)


@spec('Cylinder.surface_area')
def _(self):
    return 2 * np.pi * self.radius * S.norm(self.vector) + 2 * np.pi * self.radius ** 2


@spec('Cylinder.volume')
def _(self):
    return np.pi * self.radius ** 2 * S.norm(self.vector)


for m in ('length', 'lateral_surface_area', 'surface_area', 'volume'):
    scenario(f'Cylinder.{m}', 'p:v[D] v:v[D] r:s+', f'O.{m}()', setup=CYL, dims=D3)


def axial(self, x):
    """Signed distance of x from the base plane, along the axis."""
    return S.dot(S.A(x) - S.A(self.point), self.vector) / S.norm(self.vector)


def between(self, x):
    h = axial(self, x)
    return bool(0 <= h) and bool(h <= S.norm(self.vector))


@spec('Cylinder.is_point_within')
def _(self, point):
    x = S.arr1(point)
    S.req(np.deq(x._shape[0], 3))
    w = x - S.A(self.point)
    v = S.A(self.vector)
    if not S.norm(w - S.proj(v, w)) <= self.radius:
        return False
    return between(self, x)


scenario('Cylinder.is_point_within', 'p:v[D] v:v[D] r:s+ x:v[D]', 'O.is_point_within(x)', setup=CYL, dims=G3)
scenario('Cylinder.is_point_within', 'p:v[D] v:v[D] r:s+ x:v[D]', 'O.is_point_within(Point(x))', setup=CYL, dims=D3)
scenario('Cylinder.is_point_within', 'p:v[D] v:v[D] r:s+ t:s', 'O.is_point_within(p_ + t * v_)', setup=CYL, dims=D3)
# rim and cap points, given exactly: e is perpendicular to the axis
scenario('Cylinder.is_point_within', 'p:v[D] v:v[D] r:s+ h:s e:v[D]', 'O.is_point_within(x)', setup=CYL + '; x = p_ + h * v_ + e_', dims=G3,
         pre='S.dot(e, v) == 0')
lemma('C20', 'within: distance to the axis and height, both inclusive', 'p:v[D] v:v[D] r:s+ h:s e:v[D]', CYL + '; x = p_ + h * v_ + e_',
      ['S.same(O.is_point_within(x), (S.sq(e) <= r * r) & (0 <= h) & (h <= 1))'], pre=['S.sq(v) > 0', 'S.dot(e, v) == 0'], dims=G3)


# ---------------------------------------------------------------- intersection with a line
def side_hits(self, line, n_digits):
    """Where the line meets the infinite cylinder, ordered along it."""
    c, v, q, d, r = S.A(self.point), S.A(self.vector), S.A(line.point), S.A(line.vector), self.radius
    v, d = v / S.norm(v), d / S.norm(d)
    w = q - c
    e, f = d - S.dot(d, v) * v, w - S.dot(w, v) * v
    a, b, k = S.sq(e), 2 * S.dot(e, f), S.sq(f) - r ** 2
    if n_digits:
        a, b, k = round(a, n_digits), round(b, n_digits), round(k, n_digits)
    S.req(a != 0)
    g = b * b - 4 * a * k
    S.req(g >= 0)
    h = S.sqrt(g)
    return S.point(q + (-b - h) / (2 * a) * d), S.point(q + (-b + h) / (2 * a) * d)


def cap_hit(self, line, centre):
    try:
        x = W.Plane(S.point(centre), self.vector).intersect_line(line)
    except ValueError:
        return None
    return x if S.norm(S.A(x) - centre) <= self.radius else None


@spec('Cylinder.intersect_line')
def _(self, line, n_digits=None, infinite=True):
    S.req(np.deq(S.A(line.point)._shape[0], 3))
    if infinite:
        return side_hits(self, line, n_digits)
    c = S.A(self.point)
    base, top = cap_hit(self, line, c), cap_hit(self, line, c + S.A(self.vector))
    if base is not None and top is not None:
        return base, top
    cap = base if base is not None else top
    out = []
    for x in side_hits(self, line, n_digits):
        out.append(x if between(self, x) else cap)
    S.req(out[0] is not None and out[1] is not None)
    return tuple(out)


abstract('point', 'Plane.intersect_line')
OL = CYL + '; L = Line(q, d)'
DG = {'kw': ['{}', '{"n_digits": None}', '{"n_digits": 0}', '{"n_digits": 3}', '{"n_digits": k}', '{"infinite": True, "n_digits": 9}']}
FG = {'kw': ['{"infinite": False}', '{"infinite": False, "n_digits": 4}', '{"infinite": False, "n_digits": k}']}
V = 'p:v[D] v:v[D] r:s+ q:v[D] d:v[D]'
scenario('Cylinder.intersect_line', V + ' k:i', 'O.intersect_line(L, **kw)', setup=OL, dims=G3, choices=DG)


def special_lines(rng):
    """Lines through rims, cap discs, sides, the axis, and past them, on cylinders with integer data."""
    out = []
    ring = [(3, 4), (5, 0), (0, -5), (-4, 3), (0, 0), (1, 2), (-2, 0), (6, 0), (3, 5), (7, 7)]
    for _ in range(60):
        perm = rng.sample(range(3), 3)
        sg = rng.choice([1, -1])
        n = rng.choice([1, 2, 6])
        o = [rng.randint(-3, 3) for _ in range(3)]

        def at(x, y, z):
            w = [x, y, sg * z]
            return [o[i] + w[perm[i]] for i in range(3)]
        a, b = (at(*rng.choice(ring), rng.choice([0, n, n / 2, -1, n + 1, 0, n])) for _ in range(2))
        if a == b:
            continue
        ax = [0, 0, sg * n]
        out.append({'p': o, 'v': [ax[perm[i]] for i in range(3)], 'r': 5, 'q': a, 'd': [y - x for x, y in zip(a, b)],
                    'k': 5, 'choice': {'kw': '{"infinite": False}'}, 'dims': {'D': 3}})
    return out


scenario('Cylinder.intersect_line', V + ' k:i', 'O.intersect_line(L, **kw)', setup=OL, dims=G3, choices=FG, abstract=('Plane.intersect_line',),
         samples=special_lines)
scenario('Cylinder.intersect_line', 'p:v[E] v:v[E] r:s+ q:v[D] d:v[D]', 'O.intersect_line(L, **kw)', setup=OL,
         dims=[{'E': 3, 'D': 1}, {'E': 3, 'D': 2}, {'E': 3, 'D': 4}], choices={'kw': ['{}', '{"infinite": False}']})
# general position: line point = p + h v + w and direction = k v + e with w, e perpendicular to the axis v
GEN = 'p:v[D] v:v[D] r:s+ h:s w:v[D] k:s e:v[D] s:s'
PRE = ['S.sq(v) > 0', 'S.dot(w, v) == 0', 'S.dot(e, v) == 0', 'k * k * S.sq(v) + S.sq(e) > 0']
LG = CYL + '; L = Line(p_ + h * v_ + w_, k * v_ + e_)'


def on_surface(self, x):
    """On the side between the caps, or on a cap disc."""
    w = S.A(x) - S.A(self.point)
    v, r = S.A(self.vector), self.radius
    h, vv = S.dot(w, v), S.sq(v)
    g = S.sq(w) * vv - h * h - r * r * vv
    return ((g == 0) & (0 <= h) & (h <= vv)) | ((g <= 0) & ((h == 0) | (h == vv)))


helper(on_surface)
lemma('C19', 'infinite: both points are on the surface and on the line, in order', GEN, LG + '; a, b = O.intersect_line(L)',
      ['Eq(L.distance_point(a), 0)', 'Eq(L.distance_point(b), 0)', 'Eq(S.sq(S.A(a) - p_) * S.sq(v) - S.dot(S.A(a) - p_, v) ** 2, r * r * S.sq(v))',
       'Eq(S.sq(S.A(b) - p_) * S.sq(v) - S.dot(S.A(b) - p_, v) ** 2, r * r * S.sq(v))', 'Le(0, S.dot(S.A(b) - S.A(a), L.direction))'], pre=PRE, dims=G3)
lemma('C19', 'infinite: raises exactly when parallel or missing', GEN, LG,
      ['S.same(S.raises(lambda: O.intersect_line(L)), (S.sq(e) == 0) | (S.sq(w) * S.sq(e) - S.dot(w, e) ** 2 > r * r * S.sq(e)))'], pre=PRE, dims=G3)

NEAR = 'S.sq(w) * S.sq(e) - S.dot(w, e) ** 2 <= r * r * S.sq(e)'
# finite: s is the parameter of any point of the line
lemma('C19', 'finite: both points are on the line and on the closed surface', GEN, LG + '; a, b = O.intersect_line(L, infinite=False)',
      ['Eq(L.distance_point(a), 0)', 'Eq(L.distance_point(b), 0)'] + [
       f'Is(on_surface(O, {x}))' for x in 'ab'], pre=PRE, dims=G3)
lemma('C19', 'finite: every point strictly inside is between the two', GEN, LG + '; a, b = O.intersect_line(L, infinite=False); x = L.to_point(s)',
      ['Le(S.dot(S.A(x) - S.A(a), S.A(x) - S.A(b)), 0)'],
      pre=PRE + ['0 < h + s * k', 'h + s * k < 1', 'S.sq(w_ + s * e_) < r * r'], dims=G3)
lemma('C19', 'finite: a line with a point inside is never reported as missing', GEN, LG,
      ['S.same(S.raises(lambda: O.intersect_line(L, infinite=False)), False)'],
      pre=PRE + ['0 <= h + s * k', 'h + s * k <= 1', 'S.sq(w_ + s * e_) <= r * r', NEAR], dims=G3)
lemma('C19', 'a point within the radius bounds the distance of the whole line (used above)', GEN, '',
      ['Eq(r * r * S.sq(e) - S.sq(w) * S.sq(e) + S.dot(w, e) ** 2, S.sq(e) * (r * r - S.sq(w_ + s * e_)) + (S.dot(w, e) + s * S.sq(e)) ** 2)',
       f'Is({NEAR})'],
      pre=PRE + ['S.sq(w_ + s * e_) <= r * r'], dims=G3)


# ---------------------------------------------------------------- mesh
@spec('Cylinder.to_mesh')
def _(self, n_along_axis=100, n_angles=30):
    v = W.Vector.unit(self.vector)
    x = W.Vector.unit(v.cross(v.different_direction()))
    y = W.Vector.unit(v.cross(x))
    c, r = S.A(self.point), self.radius
    t, f = np.meshgrid(np.linspace(0, S.norm(self.vector), n_along_axis), np.linspace(0, 2 * np.pi, n_angles))
    return tuple(S.loose(c[i] + v[i] * t + r * np.sin(f) * x[i] + r * np.cos(f) * y[i]) for i in range(3))


@spec('Cylinder.to_points')
def _(self, **kwargs):
    return mesh_points(self.to_mesh(**kwargs))


NA = [{'D': 3, 'N': '*', 'M': '*'}, {'D': 3, 'N': 1, 'M': 1}, {'D': 3, 'N': 2, 'M': 3}, {'D': 3, 'N': 3, 'M': 2}]
scenario('Cylinder.to_mesh', 'p:v[D] v:v[D] r:s+', 'O.to_mesh(n_along_axis=N, n_angles=M)', setup=CYL, dims=NA)
scenario('Cylinder.to_mesh', 'p:v[D] v:v[D] r:s+', 'O.to_mesh(N, M)', setup=CYL, dims=NA[:1])
scenario('Cylinder.to_mesh', 'p:v[D] v:v[D] r:s+', 'O.to_mesh()', setup=CYL, dims=D3, nsamples=3)
scenario('Cylinder.to_points', 'p:v[D] v:v[D] r:s+', 'O.to_points(n_along_axis=N, n_angles=M)', setup=CYL, dims=NA)
scenario('Cylinder.to_points', 'p:v[D] v:v[D] r:s+', 'O.to_points(n_angles=M)', setup=CYL, dims=[{'D': 3, 'M': 2}], nsamples=3)
lemma('C30', 'cylinder mesh points lie on the surface, from base to top', 'p:v[D] v:v[D] r:s+',
      CYL + '; X, Y, Z = O.to_mesh(n_along_axis=N, n_angles=M); i = S.indices(X); q = S.A([X[i], Y[i], Z[i]]); h = i[1] / (N - 1); c = p_ + h * v_',
      ['Eq(S.sq(q - c), r * r)', 'Eq(S.dot(q - c, v_), 0)', 'Le(0, h)', 'Le(h, 1)'], pre='S.sq(v) > 0', dims=[{'D': 3, 'N': '>=2', 'M': '*'}])
