"""Contracts shared by Point, Vector and Points: construction, padding, comparison, rounding, arithmetic."""
from ..contract import spec, scenario, lemma, S, W, np, Eq, Le, Lt, Is
from .vectors import ALL, KW, KW2, TOL

# ---------------------------------------------------------------- construction (the constructors are inlined)
for C in ('Point', 'Vector'):
    scenario(C, 'a:v[D]', f'{C}(a)', expect=f'S.new({C}, a, 1)', dims=ALL, props=('C01',))
    scenario(C, 'a:v[D]?', f'{C}(a)', expect=f'S.new({C}, a, 1)', dims=ALL + [{'D': 1}, {'D': 2}, {'D': 3}], props=('C01',), nsamples=60)
    scenario(C, 'a:m[N,D]', f'{C}(a)', expect=f'S.new({C}, a, 1)', dims=[{'N': '*', 'D': '*'}, {'N': 1, 'D': 1}, {'N': 1, 'D': 3}],
             props=('C01',))
    scenario(C, 't:s', f'{C}(x)', expect=f'S.new({C}, x, 1)', choices={'x': ['[]', 't', '[[]]', '[[t]]', '[[[t]]]', '()']}, props=('C01',))
    scenario(C, 'a:v[D]', f'{C}(V)', setup='V = Vector(a); Q = Point(a)', expect=f'S.new({C}, a, 1)', dims=ALL, props=('C01',))
    scenario(C, 'a:v[D]', f'{C}(Q)', setup='V = Vector(a); Q = Point(a)', expect=f'S.new({C}, a, 1)', dims=ALL, props=('C01',))
# integers that a float would not keep
for C in ('Point', 'Vector'):
    scenario(C, 'a:v[D]', f'{C}(a)', expect=f'S.new({C}, a, 1)', dims=[{'D': 2}], props=('C01', 'C03', 'C34'), name=f'{C}(large integers)', tol=1e-30,
             samples=lambda rng: [dict(dims={'D': 2}, a=[2 ** 53 + 1, -7]), dict(dims={'D': 2}, a=[-2 ** 62 - 1, 3])])
scenario('Points', 'a:m[N,D]', 'Points(a)', expect='S.new(Points, a, 2)', dims=[{'N': 2, 'D': 2}], props=('C01', 'C03', 'C34'), name='Points(large integers)', tol=1e-30,
         samples=lambda rng: [dict(dims={'N': 2, 'D': 2}, a=[[2 ** 53 + 1, -7], [1, 2 ** 60 + 3]])])
scenario('Points', 'a:m[N,D]', 'Points(a)', expect='S.new(Points, a, 2)', dims=[{'N': '*', 'D': '*'}], props=('C01',))
scenario('Points', 'a:m[N,D]?', 'Points(a)', expect='S.new(Points, a, 2)',
         dims=[{'N': '*', 'D': '*'}, {'N': 1, 'D': 2}, {'N': 2, 'D': 3}, {'N': 3, 'D': 1}], props=('C01',), nsamples=60)
scenario('Points', 'a:v[D]', 'Points(a)', expect='S.new(Points, a, 2)', dims=ALL, props=('C01',))
scenario('Points', 't:s', 'Points(x)', expect='S.new(Points, x, 2)',
         choices={'x': ['[]', 't', '[[]]', '[[t]]', '[[[t]]]', '[[], []]', 'np.zeros((0, 2))']}, props=('C01',))
scenario('Points', 'a:m[N,D]', 'Points(P)', setup='P = Points(a)', expect='S.new(Points, a, 2)', dims=[{'N': '*', 'D': '*'}], props=('C01',))
scenario('Points', 'a:v[D] b:v[D] c:v[D]', 'Points([Point(a), b, Vector(c)])', expect='S.new(Points, np.array([a_, b_, c_]), 2)',
         dims=ALL, props=('C01',))


# ---------------------------------------------------------------- set_dimension
@spec('Point.set_dimension', 'Vector.set_dimension')
def _(self, dim):
    a = S.A(self)
    n = np.dim(dim)
    d = a._shape[0]
    S.req(np.dlt(d, n) or np.deq(d, n))
    return S.like(self, np.concatenate([a, np.zeros(np.udim(np.dsub(n, d)))]))


@spec('Points.set_dimension')
def _(self, dim):
    a = S.A(self)
    n = np.dim(dim)
    m, d = a._shape
    S.req(np.dlt(d, n) or np.deq(d, n))
    return S.like(self, np.concatenate([a, np.zeros((np.udim(m), np.udim(np.dsub(n, d))))], axis=1))


SD = [{'D': i, 'n': j} for i in (1, 2, 3, 4) for j in (1, 2, 3, 4, 6)] + [{'D': '*', 'n': 3}]
SDS = [{'D': '*', 'n': '*'}]
for C in ('Point', 'Vector'):
    scenario(f'{C}.set_dimension', 'a:v[D]', 'V.set_dimension(n)', setup=f'V = {C}(a)', dims=SD)
    scenario(f'{C}.set_dimension', 'a:v[D]', 'V.set_dimension(n)', setup=f'V = {C}(a)', dims=SDS, tol=1e-30,
             samples=lambda rng: [dict(dims={'D': d, 'n': n}, a=[-2 ** 53 - 1] * d) for d, n in ((1, 1), (1, 2), (2, 3), (3, 4), (2, 7), (4, 12))])
    scenario(f'{C}.set_dimension', 'a:v[D]', 'V.set_dimension(D + 1).set_dimension(D + 3)', setup=f'V = {C}(a)', dims=[{'D': '*'}])
scenario('Points.set_dimension', 'a:m[N,D]', 'V.set_dimension(n)', setup='V = Points(a)',
         dims=[dict(d, N='*') for d in SD])
scenario('Points.set_dimension', 'a:m[N,D]', 'V.set_dimension(n)', setup='V = Points(a)', dims=[{'D': '*', 'n': '*', 'N': '*'}], tol=1e-30,
         # the coordinates are copied: integers that no float represents keep their values
         samples=lambda rng: [dict(dims={'N': 2, 'D': d, 'n': n}, a=[[2 ** 53 + 1 + i] * (d - 1) + [-3 - i] for i in (0, 2)]) for d, n in ((1, 1), (1, 2), (2, 3), (3, 4), (2, 7), (4, 12))])

# the result is a new object: writing to it leaves the original as it was
SDN = [{'D': i, 'n': j} for i in (1, 2, 3) for j in (i, i + 1)]
for C in ('Point', 'Vector'):
    scenario(f'{C}.set_dimension', 'a:v[D]A', '[r := V.set_dimension(n), r.fill(7), V][2]', setup=f'V = {C}(a)', dims=SDN)
scenario('Points.set_dimension', 'a:m[N,D]A', '[r := V.set_dimension(n), r.fill(7), V][2]', setup='V = Points(a)', dims=[dict(d, N='*') for d in SDN])


# ---------------------------------------------------------------- copies, comparison, rounding
@spec('Point.to_array', 'Vector.to_array', 'Points.to_array')
def _(self):
    return np.array(S.A(self))


@spec('Point.is_equal', 'Vector.is_equal', 'Points.is_equal')
def _(self, other):
    a, b = S.A(self), S.A(other)
    if a.ndim != b.ndim or not all(np.deq(x, y) for x, y in zip(a._shape, b._shape)):
        return False
    return (a == b).all()


@spec('Point.is_close', 'Vector.is_close', 'Points.is_close')
def _(self, other, **kwargs):
    rel = kwargs.pop('rel_tol', S.DEFAULT_REL)
    ab = kwargs.pop('abs_tol', 0)
    S.req(not kwargs, TypeError)
    a, b = S.A(self), S.A(other)
    return (np.abs(a - b) <= np.maximum(rel * np.maximum(np.abs(a), np.abs(b)), ab)).all()


@spec('Point.round', 'Vector.round', 'Points.round')
def _(self, decimals=0):
    return S.like(self, np.around(S.A(self), decimals=decimals))


for C, v, dims in (('Point', 'v[D]', ALL), ('Vector', 'v[D]', ALL), ('Points', 'm[N,D]', [{'N': '*', 'D': '*'}])):
    scenario(f'{C}.to_array', f'a:{v}', 'V.to_array()', setup=f'V = {C}(a)', dims=dims)
    scenario(f'{C}.to_array', f'a:{v}A', '[r := V.to_array(), r.fill(7), V][2]', setup=f'V = {C}(a)', dims=dims)
    scenario(f'{C}.is_equal', f'a:{v} b:{v}', 'V.is_equal(b)', setup=f'V = {C}(a)', dims=dims)
    scenario(f'{C}.is_equal', f'a:{v}', 'V.is_equal(a_)', setup=f'V = {C}(a)', dims=dims)
    scenario(f'{C}.is_close', f'a:{v} b:{v}' + TOL, 'V.is_close(b, **kw)', setup=f'V = {C}(a)', dims=dims, choices=KW)
    scenario(f'{C}.is_close', f'a:{v} b:{v}' + TOL, f'V.is_close({C}(b), **kw)', setup=f'V = {C}(a)', dims=dims, choices=KW2)
    for dec in ('()', '(1)', '(decimals=3)', '(0)', '(2)', '(decimals=-1)'):
        scenario(f'{C}.round', f'a:{v}', f'V.round{dec}', setup=f'V = {C}(a)', dims=dims)
scenario('Point.is_equal', 'a:v[D] b:v[E]', 'V.is_equal(b)', setup='V = Point(a)', dims=[{'D': 2, 'E': 3}, {'D': 3, 'E': 2}])


# ---------------------------------------------------------------- NumPy integration
BIN = ['V + b', 'V - b', 'b_ + V', 'b_ - V', 'V * b', 'V / c', 'V * c', 'c * V', 'V + c', 'c - V', '-V', 'abs(V)', 'V + U', 'V - U',
       'V ** 2', 'np.abs(V)', 'np.add(V, b)', 'np.multiply(c, V)', 'V / b']


def arith(e):
    """The same expression on plain arrays."""
    return e.replace('V', 'S.A(a)').replace('U', 'S.A(b)').replace(' b', ' S.A(b)').replace('/ S.A(b)', '/ S.A(b)')


for C, v, dims in (('Point', 'v[D]', ALL), ('Vector', 'v[D]', ALL), ('Points', 'm[N,D]', [{'N': '*', 'D': '*'}])):
    for e in BIN:
        pre = 'c != 0' if '/ c' in e else ('(S.A(b) != 0).all()' if '/ b' in e else '')
        dd = dims if '/ b' not in e else ([{'D': 2}, {'D': 3}] if v == 'v[D]' else [{'N': 2, 'D': 2}])
        scenario('arith', f'a:{v} b:{v} c:s', e, setup=f'V = {C}(a); U = {C}(b)', dims=dd,
                 expect=f'S.mk({C}, {arith(e)})', pre=pre, props=('C34',))
    scenario('arith', f'a:{v} c:s', 'V / z', setup=f'V = {C}(a); z = 0 * c + 0.0', dims=dims, expect='S.A(a) / z', props=('C34',), sym=False)
    for e in ('V.sum()', 'V.mean()', 'V.max()', 'V.min()', 'np.sum(V)'):
        dd = [{'N': 2, 'D': 2}, {'N': 3, 'D': 1}] if C == 'Points' and 'm' in e[-5:] and 'su' not in e else dims
        scenario('reduce', f'a:{v}', e, setup=f'V = {C}(a)', dims=dd, expect=e.replace('V', 'S.A(a)'), props=('C34',))
for C in ('Point', 'Vector'):
    scenario('reduce', 'a:v[D] b:v[D]', 'V.dot(b)', setup=f'V = {C}(a)', dims=ALL, expect='S.dot(a, b)', props=('C34',))
    scenario('reduce', 'a:v[D] b:v[D]', 'np.dot(b, V)', setup=f'V = {C}(a)', dims=ALL, expect='S.dot(a, b)', props=('C34',))
    scenario('index', 'a:v[D] i:i', 'V[0]', setup=f'V = {C}(a)', dims=ALL, expect='S.A(a)[0]', props=('C34',))
    scenario('arith', 'a:v[D] b:m[N,D]', 'V + b_', setup=f'V = {C}(a)', dims=[{'N': 2, 'D': 3}, {'N': '>=2', 'D': '*'}], expect='S.A(a) + S.A(b)', props=('C34',))
scenario('arith', 'a:m[N,D] b:v[D]', 'V + b', setup='V = Points(a)', dims=[{'N': '*', 'D': '*'}], expect='S.mk(Points, S.A(a) + S.A(b))', props=('C34',))
scenario('arith', 'a:m[N,D] b:v[D]', 'V - U', setup='V = Points(a); U = Point(b)', dims=[{'N': '*', 'D': '*'}], expect='S.mk(Points, S.A(a) - S.A(b))', props=('C34',))
scenario('arith', 'a:v[D] b:v[D]', 'V + U', setup='V = Point(a); U = Vector(b)', dims=ALL, expect='S.mk(Point, S.A(a) + S.A(b))', props=('C34',))
scenario('reduce', 'a:m[N,D]', 'V.sum(axis=1).shape', setup='V = Points(a)', dims=[{'N': 3, 'D': 2}], expect='(3,)', props=('C34',))
