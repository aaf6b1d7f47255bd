"""Contracts of the plotting methods: the calls received by the axes."""
from ..contract import spec, scenario, lemma, S, W, np
from .. import loader
from .cylinders import cylinder
from .triangles import TRI
from .rounds import circle, sphere

D2, D3 = [{'D': 2}], [{'D': 3}]
STYLE = {'kw': ['{}', '{"c": "k", "alpha": x}', '{"zorder": 3, "label": "s"}']}
SHORT = {'kw': ['{}', '{"c": "k", "alpha": x}']}


def axes3(ax):
    S.req(isinstance(ax, loader.Axes3D))


def scatter(ax, rows, dim, kw):
    if dim == 3:
        axes3(ax)
    ax.scatter(*(rows[:, i] for i in range(dim)), **kw)


def segment(ax, a, b, dim, kw):
    if dim == 3:
        axes3(ax)
    a, b = S.A(a), S.A(b)
    ax.plot(*([a[i], b[i]] for i in range(dim)), **kw)


def drawer(cls, d):
    def deco(f):
        if d == 2:
            def g(self, ax_2d, *args, **kwargs):
                return f(self, ax_2d, d, *args, **kwargs)
        else:
            def g(self, ax_3d, *args, **kwargs):
                return f(self, ax_3d, d, *args, **kwargs)
        spec(f'{cls}.plot_{d}d')(g)
    return deco


# ---------------------------------------------------------------- point, points, vector, line, segment
for d, AX in ((2, 'Axes()'), (3, 'Axes3D()')):
    dim = [{'D': d}]

    @drawer('Point', d)
    def _(self, ax, _d, **kwargs):
        p = S.A(self)
        scatter(ax, S.A([p]), _d, kwargs)

    @drawer('Points', d)
    def _(self, ax, _d, **kwargs):
        scatter(ax, S.A(self), _d, kwargs)

    @drawer('Line', d)
    def _(self, ax, _d, t_1=0, t_2=1, **kwargs):
        p, v = S.A(self.point), S.A(self.direction)
        segment(ax, p + t_1 * v, p + t_2 * v, _d, kwargs)

    @drawer('LineSegment', d)
    def _(self, ax, _d, **kwargs):
        segment(ax, self.point_a, self.point_b, _d, kwargs)

    @drawer('Triangle', d)
    def _(self, ax, _d, part='points', **kwargs):
        a, b, c = (S.A(x) for x in (self.point_a, self.point_b, self.point_c))
        if part == 'points':
            for p in (a, b, c):
                scatter(ax, S.A([p]), _d, kwargs)
        elif part == 'lines':
            t_1, t_2 = kwargs.pop('t_1', 0), kwargs.pop('t_2', 1)
            for p, q in ((b, c), (c, a), (a, b)):
                segment(ax, p + t_1 * (q - p), p + t_2 * (q - p), _d, kwargs)

    X = ' x:s0'
    scenario(f'Point.plot_{d}d', 'p:v[D]' + X, f'P.plot_{d}d(ax, **kw)', setup=f'P = Point(p); ax = {AX}', choices=STYLE, dims=dim)
    scenario(f'Points.plot_{d}d', 'p:m[N,D]' + X, f'P.plot_{d}d(ax, **kw)', setup=f'P = Points(p); ax = {AX}', choices=STYLE,
             dims=[{'N': 1, 'D': d}, {'N': 3, 'D': d}, {'N': '*', 'D': d}])
    scenario(f'Line.plot_{d}d', 'p:v[D] v:v[D] s:s t:s' + X, f'L.plot_{d}d(ax, **kw)', setup=f'L = Line(p, v); ax = {AX}', dims=dim,
             choices={'kw': ['{}', '{"t_1": s, "t_2": t, "c": "k"}', '{"t_1": s}', '{"t_2": t, "alpha": x}']})
    scenario(f'Line.plot_{d}d', 'p:v[D] v:v[D] s:s t:s', f'L.plot_{d}d(ax, s, t)', setup=f'L = Line(p, v); ax = {AX}', dims=dim)
    scenario(f'LineSegment.plot_{d}d', 'p:v[D] v:v[D]' + X, f'L.plot_{d}d(ax, **kw)', setup=f'L = LineSegment(p, p_ + v_); ax = {AX}', dims=dim,
             choices=STYLE, pre='S.sq(v) > 0')
    scenario(f'Triangle.plot_{d}d', 'p:v[D] u:v[D] v:v[D]' + X, f'T.plot_{d}d(ax, **kw)', setup=f'T = Triangle(p, p_ + u_, p_ + v_); ax = {AX}', dims=dim,
             choices={'kw': ['{}', '{"c": "k", "alpha": x}', '{"part": "points", "s": x}', '{"part": "lines"}', '{"part": "lines", "c": "k", "alpha": x}']},
             pre='not S.parallel(u, v)')
    scenario(f'Triangle.plot_{d}d', 'p:v[D] u:v[D] v:v[D] s:s t:s', f'T.plot_{d}d(ax, part="lines", t_1=s, t_2=t)',
             setup=f'T = Triangle(p, p_ + u_, p_ + v_); ax = {AX}', dims=dim, pre='not S.parallel(u, v)')

# a 3D plot of points or lines needs 3D axes
scenario('Point.plot_3d', 'p:v[D]', 'O.plot_3d(ax)', setup='O = Point(p); ax = Axes()', dims=D3)
scenario('Points.plot_3d', 'p:m[N,D]', 'O.plot_3d(ax)', setup='O = Points(p); ax = Axes()', dims=[{'N': 2, 'D': 3}, {'N': '*', 'D': 3}])
scenario('Line.plot_3d', 'p:v[D] v:v[D]', 'O.plot_3d(ax)', setup='O = Line(p, v); ax = Axes()', dims=D3)
scenario('LineSegment.plot_3d', 'p:v[D] v:v[D]', 'O.plot_3d(ax)', setup='O = LineSegment(p, p_ + v_); ax = Axes()', dims=D3, pre='S.sq(v) > 0')
scenario('Vector.plot_3d', 'v:v[D]', 'O.plot_3d(ax)', setup='O = Vector(v); ax = Axes()', dims=D3)
scenario('Triangle.plot_3d', 'p:v[D] u:v[D] v:v[D]', 'O.plot_3d(ax, part=x)', setup='O = Triangle(p, p_ + u_, p_ + v_); ax = Axes()', dims=D3,
         choices={'x': ['"points"', '"lines"']}, pre='not S.parallel(u, v)')


@spec('Vector.plot_2d')
def _(self, ax_2d, point=(0, 0), scalar=1, **kwargs):
    p, v = S.A(point), S.A(self)
    ax_2d.arrow(p[0], p[1], scalar * v[0], scalar * v[1], **kwargs)


@spec('Vector.plot_3d')
def _(self, ax_3d, point=(0, 0, 0), scalar=1, **kwargs):
    p = S.A(point)
    segment(ax_3d, p, p + scalar * S.A(self), 3, kwargs)


for d, AX in ((2, 'Axes()'), (3, 'Axes3D()')):
    dim = [{'D': d}]
    scenario(f'Vector.plot_{d}d', 'p:v[D] v:v[D] t:s x:s0', f'V.plot_{d}d(ax, **kw)', setup=f'V = Vector(v); ax = {AX}', dims=dim,
             choices={'kw': ['{}', '{"point": p}', '{"scalar": t, "color": "k"}', '{"point": p, "scalar": t, "alpha": x}', '{"point": Point(p), "scalar": 2}']})
    scenario(f'Vector.plot_{d}d', 'p:v[D] v:v[D] t:s', f'V.plot_{d}d(ax, p, t)', setup=f'V = Vector(v); ax = {AX}', dims=dim)


# ---------------------------------------------------------------- circle and surfaces
@spec('Circle.plot_2d')
def _(self, ax_2d, **kwargs):
    p = S.A(self.point)
    ax_2d.add_artist(loader._circle((p[0], p[1]), self.radius, **kwargs))


@spec('Plane.plot_3d')
def _(self, ax_3d, lims_x=(-1, 1), lims_y=(-1, 1), **kwargs):
    ax_3d.plot_surface(*self.to_mesh(lims_x, lims_y), **kwargs)


@spec('Sphere.plot_3d')
def _(self, ax_3d, n_angles=30, **kwargs):
    ax_3d.plot_surface(*self.to_mesh(n_angles), **kwargs)


@spec('Cylinder.plot_3d')
def _(self, ax_3d, n_along_axis=100, n_angles=30, **kwargs):
    ax_3d.plot_surface(*self.to_mesh(n_along_axis, n_angles), **kwargs)


scenario('Circle.plot_2d', 'p:v[D] r:s+ x:s0', 'O.plot_2d(ax, **kw)', setup='O = Circle(p, r); ax = Axes()', dims=D2,
         choices={'kw': ['{}', '{"fill": False, "linewidth": x}', '{"zorder": 2}']})
scenario('Plane.plot_3d', 'p:v[D] n:v[D] lx:v[E] ly:v[F] x:s0', 'P.plot_3d(ax, **kw)', setup='P = Plane(p, n); ax = Axes3D()',
         dims=[{'D': 3, 'E': 2, 'F': 2}, {'D': 3, 'E': 2, 'F': 3}],
         choices={'kw': ['{}', '{"lims_x": lx, "lims_y": ly, "alpha": x}', '{"lims_y": ly}', '{"lims_x": lx}']})
scenario('Sphere.plot_3d', 'p:v[D] r:s+ x:s0', 'O.plot_3d(ax, **kw)', setup='O = Sphere(p, r); ax = Axes3D()', dims=D3,
         choices={'kw': ['{"n_angles": 3}', '{"n_angles": 4, "alpha": x}']})
scenario('Cylinder.plot_3d', 'p:v[D] v:v[D] r:s+ x:s0', 'Y.plot_3d(ax, **kw)', setup='Y = Cylinder(p, v, r); ax = Axes3D()', dims=D3,
         choices={'kw': ['{"n_along_axis": 2, "n_angles": 3}', '{"n_along_axis": 3, "n_angles": 2, "alpha": x}']}, pre='S.sq(v) > 0')


# ---------------------------------------------------------------- plotter
FLAT = ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Triangle', 'Circle')
SOLID = ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Triangle', 'Plane', 'Sphere', 'Cylinder')


def dimension(x):
    if isinstance(x, np.ndarray):
        return S.A(x)._shape[-1]
    if hasattr(x, 'point_a'):
        return S.A(x.point_a)._shape[0]
    return S.A(x.point)._shape[0]


def plotter(self, **kwargs):
    d = dimension(self)
    name = type(self).__name__
    if np.deq(d, 2):
        S.req(name in FLAT)
        return lambda ax: self.plot_2d(ax, **kwargs)
    S.req(np.deq(d, 3))
    S.req(name in SOLID)
    return lambda ax: self.plot_3d(ax, **kwargs)


OTHER = [1, 2, 3, '>=4']
for name, vs, make, dims, pre in (
        ('Point', 'p:v[D]', 'Point(p)', [{'D': i} for i in OTHER], None),
        ('Points', 'p:m[N,D]', 'Points(p)', [{'N': 2, 'D': i} for i in OTHER] + [{'N': '*', 'D': 2}, {'N': '*', 'D': 3}, {'N': 3, 'D': 2}, {'N': 2, 'D': 3}], None),
        ('Vector', 'p:v[D]', 'Vector(p)', [{'D': i} for i in OTHER], None),
        ('Line', 'p:v[D] v:v[D]', 'Line(p, v)', [{'D': i} for i in OTHER], None),
        ('LineSegment', 'p:v[D] v:v[D]', 'LineSegment(p, p_ + v_)', [{'D': i} for i in OTHER], 'S.sq(v) > 0'),
        ('Triangle', 'p:v[D] u:v[D] v:v[D]', 'Triangle(p, p_ + u_, p_ + v_)', [{'D': i} for i in (2, 3)], 'not S.parallel(u, v)'),
        ('Plane', 'p:v[D] v:v[D]', 'Plane(p, v)', [{'D': i} for i in OTHER], None),
        ('Circle', 'p:v[D] r:s+', 'Circle(p, r)', D2, None),
        ('Sphere', 'p:v[D] r:s+', 'Sphere(p, r)', D3, None),
        ('Cylinder', 'p:v[D] v:v[D] r:s+', 'Cylinder(p, v, r)', D3, 'S.sq(v) > 0')):
    spec(f'{name}.plotter')(plotter)
    more = {'Sphere': ', n_angles=3', 'Cylinder': ', n_angles=2, n_along_axis=2'}.get(name, '')
    for d, AX in ((2, 'Axes()'), (3, 'Axes3D()')):
        dd = [x for x in dims if (x['D'] != 2) == (d == 3)]
        if dd:
            scenario(f'{name}.plotter', vs + ' x:s0', f'O.plotter(linewidth=x, label="o"{more})(ax)', setup=f'O = {make}; ax = {AX}', dims=dd, **({'pre': pre} if pre else {}))


# ---------------------------------------------------------------- many objects on one figure
@spec('plotting.plot_2d')
def _(*plotters):
    fig, ax = loader._subplots()
    for f in plotters:
        f(ax)
    return fig, ax


@spec('plotting.plot_3d')
def _(*plotters):
    fig = loader._figure()
    ax = fig.add_subplot(111, projection='3d')
    for f in plotters:
        f(ax)
    return fig, ax


scenario('plotting.plot_2d', 'p:v[D] v:v[D] x:s0', 'plotting.plot_2d(*a)', dims=D2,
         choices={'a': ['[]', '[Point(p).plotter(c="k")]', '[Line(p, v).plotter(t_2=x), Point(p).plotter(), Vector(v).plotter(point=p)]',
                        '[Points([p_, v_]).plotter(alpha=x), Point(v).plotter()]']})
scenario('plotting.plot_3d', 'p:v[D] v:v[D] x:s0', 'plotting.plot_3d(*a)', dims=D3,
         choices={'a': ['[]', '[Point(p).plotter(c="k")]', '[Line(p, v).plotter(t_2=x), Point(p).plotter(), Vector(v).plotter(point=p)]',
                        '[Points([p_, v_]).plotter(alpha=x), Point(v).plotter()]']})
