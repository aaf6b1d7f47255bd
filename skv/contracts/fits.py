"""Contracts of the best-fit functions."""
import math
from ..contract import spec, scenario, lemma, helper, S, W, np, Eq, Le, Lt, Is
from .vectors import ALL

NM = [{'N': '*', 'D': '*'}]


def centred(points):
    a = S.A(points)
    c = a.sum(axis=0) / np.udim(a._shape[0])
    return a, c, a - c


def spread(b, v):
    """Sum of the squared components of the rows of b along v."""
    return np.sum(np.dot(b, v) ** 2)


def fit(kind, points, tol, return_error, lowest, kwargs):
    a, c, b = centred(points)
    S.req(S.affrank_of(a, tol) > lowest)
    dim = a._shape[1]
    total = np.sum(b * b)

    def fresh():
        d = S.any('direction', dim, None)
        o = S.line(c, d) if kind == 'Line' else S.plane(c, d)
        return (o, S.opaque_num('error')) if return_error else o

    def clauses(r):
        o, error = r if return_error else (r, None)
        d = S.A(o.direction if kind == 'Line' else o.normal)
        e = S.any('e', dim, best(b, kind))
        w = S.any('w', dim, [1 if i == 0 else 0 for i in range(dim)] if np.is_int(dim) else None)
        S.about_svds(e)
        dd, ee = S.sq(d), S.sq(e)
        gd, ge = spread(b, d), spread(b, e)
        # the sum of squared distances (times dd, ee) from this fit, and from the one along e through c + w
        n = a._shape[0]
        ww, we = S.sq(w), S.dot(w, e)
        N_ = np.udim(n)
        q = b - w
        if kind == 'Line':
            mine, other = np.sum(b * b) * dd - gd, np.sum(q * q) * ee - spread(q, e)
            away = N_ * (ww * ee - we * we)
            opt = Le(ge * dd, gd * ee)
        else:
            mine, other = gd, spread(q, e)
            away = N_ * we * we
            opt = Le(gd * ee, ge * dd)
        out = [('class of the fit', Is(type(o).__name__ == kind))]
        out += [('passes through the centroid', x) for x in S.eqarr(o.point, c)]
        out += [('hint: the direction is a unit vector', Eq(dd, 1)),
                ('step: no other direction is better', opt),
                ('step: moving off the centroid is no better', Le(0, away))]
        out += [('step: total of another fit', Eq(other, (total * ee - ge if kind == 'Line' else ge) + away)),
                ('no other fit has a smaller sum', Le(mine * ee, other * dd))]
        if return_error:
            out.append(('the error is the sum of squared distances', Eq(error * dd, mine)))
        return out

    return S.relational(fresh, clauses)


def best(b, kind):
    """Concretely: the optimal direction."""
    if not S.concrete():
        return None
    V = np.linalg.svd(b)[2]
    return V[0 if kind == 'Line' else 2]


@spec('Line.best_fit')
def _(cls, points, tol=None, return_error=False, **kwargs):
    S.new(W.Points, points, 2)
    return fit('Line', points, tol, return_error, 0, kwargs)


@spec('Plane.best_fit')
def _(cls, points, tol=None, return_error=False, **kwargs):
    S.new(W.Points, points, 2)
    S.req(np.deq(S.A(points)._shape[1], 3))
    return fit('Plane', points, tol, return_error, 1, kwargs)


KW = {'kw': ['{}', '{"return_error": True}', '{"tol": at}', '{"tol": at, "return_error": True}', '{"full_matrices": False}']}
scenario('Line.best_fit', 'a:m[N,D] at:s0', 'Line.best_fit(a, **kw)', dims=NM + [{'N': 1, 'D': '*'}], choices=KW)
scenario('Line.best_fit', 'a:m[N,D]', 'Line.best_fit(Points(a), return_error=True)', dims=NM)
scenario('Plane.best_fit', 'a:m[N,D] at:s0', 'Plane.best_fit(a, **kw)', dims=[{'N': '*', 'D': '=3'}], choices=KW)
scenario('Plane.best_fit', 'a:m[N,D]', 'Plane.best_fit(Points(a), return_error=True)', dims=[{'N': '*', 'D': '=3'}])
scenario('Plane.best_fit', 'a:m[N,D]', 'Plane.best_fit(a)', dims=[{'N': '*', 'D': 1}, {'N': '*', 'D': 2}, {'N': '*', 'D': '>=4'}, {'N': 1, 'D': 3}, {'N': 2, 'D': 3}])


# ---------------------------------------------------------------- circles and spheres
def round_fit(name, dim, points):
    S.new(W.Points, points, 2)
    a = S.A(points)
    n = a._shape[0]
    S.req(np.deq(a._shape[1], dim))
    S.req(not np.dlt(n, dim + 1))
    S.req(S.affrank_of(a) == dim)
    obj = lambda c, r: S.obj(getattr(W, name), point=S.point(c), radius=r, dimension=dim)

    def fresh():
        r = S.opaque_num('radius')
        S.assume(Lt(0, r))
        return obj(S.any('centre', dim, None), r)

    def clauses(o):
        c, r = S.A(o.point), o.radius
        d = a - c
        # |p - c|^2 - r^2 = |p|^2 - (2 p.c + (r^2 - |c|^2)): the residual of the least-squares problem at p
        e = np.sum(d * d, axis=1) - r * r
        return [('class', Is(type(o).__name__ == name)), ('dimension', Is(np.deq(o.dimension, dim))),
                ('the radius is positive', Lt(0, r)), ('residuals are orthogonal to the constants', Eq(np.sum(e), 0))] + \
            [('residuals are orthogonal to the coordinates', Eq(np.sum(e * a[:, j]), 0)) for j in range(dim)]

    for z in S.lstsqs(dim + 1):
        # the points are not all at the centre, and the mean squared distance to it is what the radius is made of
        c = S.A(z[:dim])
        d = a - c
        S.about_rank(a, c)
        S.have(Eq(np.sum(d * d), np.udim(n) * (z[dim] + S.sq(c))))
        S.have(Lt(0, z[dim] + S.sq(c)))

    def concrete():
        A = np.hstack((2 * a, np.ones((n, 1))))
        z = np.linalg.lstsq(A, np.sum(a * a, axis=1))[0]
        c = z[:dim]
        return obj(c, S.sqrt(z[dim] + S.sq(c)))

    return S.relational(fresh, clauses, concrete)


@spec('Circle.best_fit')
def _(cls, points):
    return round_fit('Circle', 2, points)


@spec('Sphere.best_fit')
def _(cls, points):
    return round_fit('Sphere', 3, points)


def far_clusters(dim):
    """Points on and near a small sphere far from the origin: the system is badly scaled but solvable."""
    def samples(rng):
        out = []
        for far in (0, 30, -300):
            n = rng.choice([dim + 1, dim + 3, 9])
            rows = []
            for _ in range(n):
                x = [rng.uniform(-1, 1) for _ in range(dim)]
                k = math.sqrt(sum(c * c for c in x))
                rows.append([far + c / k * rng.choice([1, 1, 1.25]) for c in x])
            out.append(dict(dims={'N': n, 'D': dim}, a=rows))
        return out
    return samples


for C, dim in (('Circle', 2), ('Sphere', 3)):
    good = [{'N': '*', 'D': dim}]
    scenario(f'{C}.best_fit', 'a:m[N,D]', f'{C}.best_fit(a)', dims=good + [{'N': i, 'D': dim} for i in range(1, dim + 1)], samples=far_clusters(dim))
    scenario(f'{C}.best_fit', 'a:m[N,D]', f'{C}.best_fit(a)', dims=[{'N': '*', 'D': d} for d in (1, 2, 3, '>=4') if d != dim])
    scenario(f'{C}.best_fit', 'a:m[N,D]', f'{C}.best_fit(Points(a))', dims=good)
    # hence no circle has a smaller sum of squared residuals, and points lying exactly on one leave none
    lemma('C28', f'{C}: no other centre and radius have a smaller sum of squared residuals', 'a:m[N,D] c:v[D] r:s',
          f'O = {C}.best_fit(a); A = S.A(a); on = lambda x, k: np.sum((A - S.A(x)) * (A - S.A(x)), axis=1) - k * k; e = on(O.point, O.radius); f = on(c, r)',
          ['Eq(np.sum(e * (f - e)), 0)', 'Le(0, np.sum((f - e) * (f - e)))', 'Eq(np.sum(f * f), np.sum(e * e) + np.sum((f - e) * (f - e)) + 2 * np.sum(e * (f - e)))',
           'Le(np.sum(e * e), np.sum(f * f))'], dims=good)


# ---------------------------------------------------------------- cylinders
@helper
def not_in_a_plane(a):
    """Seen along any direction, points of affine rank three are not collinear (assumed linear algebra)."""
    a = S.A(a)

    def fact(x):
        if not S.known(S.affrank_of(a) > 2):
            return
        u = np.array([np.cos(x[1]) * np.sin(x[0]), np.sin(x[1]) * np.sin(x[0]), np.cos(x[0])])
        b = a - a.sum(axis=0) / np.udim(a._shape[0])
        b = b - np.dot(b, u).reshape(-1, 1) * u
        m = np.dot(b.T, b)
        S.assume(Lt(0, np.trace(m) * np.trace(m) - np.sum(m * m)))
    S.when_minimised(fact)
    return True


def near_cylinders(rng):
    """Points on, near and off cylinders in various positions; symmetric and one-sided along the axis."""
    out = []
    from ..concrete import literals
    sizes = [int(x) + e for x in literals() if x == int(x) and 14 <= x <= 150 for e in (1, 9)]
    large = [24, 70] + rng.sample(sizes, min(4, len(sizes)))
    for kind in range(12 + len(large)):
        n = rng.choice([6, 7, 8, 10, 13]) if kind < 12 else large[kind - 12]
        u = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 0), (1, 2, 2), (-2, 1, 3)])
        k = min(range(3), key=lambda i: abs(u[i]))
        e = [1.0 if i == k else 0.0 for i in range(3)]
        p = [u[1] * e[2] - u[2] * e[1], u[2] * e[0] - u[0] * e[2], u[0] * e[1] - u[1] * e[0]]
        q = [u[1] * p[2] - u[2] * p[1], u[2] * p[0] - u[0] * p[2], u[0] * p[1] - u[1] * p[0]]
        unit = lambda x: [c / math.sqrt(sum(d * d for d in x)) for c in x]
        u_, p, q = unit(u), unit(p), unit(q)
        o = [rng.choice([0, 0, 1, -4, 10.5, 100]) for _ in range(3)]
        r, L = rng.choice([0.5, 1, 2, 3]), rng.choice([4, 5, 10])
        rows = []
        for i in range(n):
            t = rng.choice([0, L]) if kind % 3 == 0 else L * rng.random() ** (1 + kind % 4)
            a = 2 * math.pi * (i + rng.random() * 0.3) / n * (0.7 if kind % 5 == 4 else 1)
            x = r * (1 + (rng.uniform(-0.1, 0.1) if kind % 2 or kind > 12 else 0))
            rows.append([o[j] + t * u_[j] + x * (math.cos(a) * p[j] + math.sin(a) * q[j]) for j in range(3)])
        out.append({'a': rows})
    return out


@spec('Cylinder.best_fit')
def _(cls, points):
    S.new(W.Points, points, 2)
    a = S.A(points)
    n = a._shape[0]
    S.req(np.deq(a._shape[1], 3))
    S.req(not np.dlt(n, 6))
    S.req(S.affrank_of(a) > 2)

    # points of affine rank three do not lie on a line
    for o in S.built('Line'):
        q, u = S.A(o.point), S.A(o.direction)
        d = a - q
        t = np.dot(d, u)
        S.assume(Lt(0, np.sum(d * d) * S.sq(u) - np.sum(t * t)))
        i, j = S.index(a), S.index(a)
        S.assume(Lt(t[i], t[j]))
        S.extremes_bound(i, j)
        ends = S.extremes_at()
        for k in ends:
            for l in ends:
                if k is not l:
                    w = t[l] - t[k]
                    S.have(Lt(0, w), deep=False)
                    for x in u:
                        S.have(Eq(w * x * x, 0), deep=False)
                    S.have(Eq(w, 0), deep=False)

    def fresh():
        r = S.opaque_num('radius')
        S.assume(Lt(0, r))
        v = S.any('axis', 3, None)
        S.assume(Lt(0, S.sq(v)))
        return S.obj(W.Cylinder, point=S.point(S.any('base', 3, None)), vector=S.vector(v), radius=r, dimension=3)

    def clauses(o):
        p, v, r = S.A(o.point), S.A(o.vector), o.radius
        d = a - p
        t = np.dot(d, v)
        vv = S.sq(v)
        big = vv * (np.sum(a * a) + np.udim(n) * S.sq(p)) if S.concrete() else None
        out = []
        low, high = np.min(t), np.max(t)
        for h in S.built('Line'):
            u = S.A(h.direction)
            along = np.dot(d, u)
            args = S.extremes_at()
            S.extremes_bound(*args)
            out += [('hint: the axis points along the line', Lt(0, S.dot(v, u)))]
            for k in args:
                x, y = along[k], S.dot(v, u) - along[k]
                out += [('hint', Le(0, x)), ('hint', Le(0, y)), ('hint', Le(0, x * S.dot(v, u))), ('hint', Le(0, y * S.dot(v, u))),
                        ('hint', Eq(t[k], x * S.dot(v, u))), ('hint', Eq(vv - t[k], y * S.dot(v, u))),
                        ('hint', Le(0, t[k])), ('hint', Le(t[k], vv))]
        return out + [('class', Is(type(o).__name__ == 'Cylinder')), ('dimension', Is(o.dimension == 3)),
                ('the radius is positive', Lt(0, r)), ('the axis is not zero', Lt(0, vv)),
                ('the base plane touches the lowest points', Eq(low, 0, scale=big)),
                ('the top plane touches the highest points', Eq(high, vv, scale=big)),
                ('the radius is the root mean square distance', Eq(r * r * np.udim(n) * vv, np.sum(d * d) * vv - np.sum(t * t), scale=big))]

    return S.relational(fresh, clauses)


scenario('Cylinder.best_fit', 'a:m[N,D]', 'Cylinder.best_fit(a)', pre='not_in_a_plane(a_)', samples=near_cylinders, nsamples=60, dims=[{'N': '*', 'D': 3}])
scenario('Cylinder.best_fit', 'a:m[N,D]', 'Cylinder.best_fit(Points(a))', pre='not_in_a_plane(a_)', samples=near_cylinders, nsamples=60, dims=[{'N': '*', 'D': 3}])
scenario('Cylinder.best_fit', 'a:m[N,D]', 'Cylinder.best_fit(a)', dims=[{'N': '*', 'D': 1}, {'N': '*', 'D': 2}, {'N': '*', 'D': '>=4'}] + [{'N': i, 'D': 3} for i in range(1, 6)])
