"""Concrete runs: counterexample search and replay, and the bounded stand-in.

Every sample is run (a) by the real library under CPython/NumPy floats in another process,
(b) by the same source in exact arithmetic, and (c) by the contracts in exact arithmetic.
"""
import ast
import json
import math
import os
import random
import subprocess
import sys
from fractions import Fraction
import mpmath
from . import term as tm
from . import symnp, loader
from . import contract as K
from .engine import E, Unsupported, PathEnd, EngineExit
from .scalar import SymNum, SymBool, tof, fof
from .symnp import ndarray, Buf
from .term import T, F, TRUE, FALSE

PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable


# ----------------------------------------------------------------------------------
# Samples
# ----------------------------------------------------------------------------------
STYLES = ['int3', 'dec', 'rel', 'sparse', 'rel', 'float', 'near', 'int9', 'rel', 'big', 'small', 'lit', 'rel', 'mixed', 'tiny', 'scaled']
HARD = ['unit', 'float', 'close', 'micro', 'unit', 'near', 'dec', 'rel', 'many', 'thin', 'mixed']      # searching for an input of a failed obligation
_lits = {}


def literals():
    """Numeric constants of the source under verification."""
    if 'x' in _lits:
        return _lits['x']
    out = set()
    for root, _, files in os.walk(os.path.join(loader.SRC, 'skspatial')):
        for f in files:
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(root, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        if abs(n.value) < 1e6:
                            out.add(n.value)
    _lits['x'] = sorted(out)
    return _lits['x']


def concretise_dims(spec, rng, i, many=False):
    out = {}
    for name, v in spec.items():
        if isinstance(v, int):
            out[name] = v
        elif many and not v.startswith('=') and rng.random() < 0.7:
            # sizes around the constants of the source, and large ones
            low = int(v[2:]) if v.startswith('>=') else 1
            top = 150 if name[0] in 'NM' else 12
            ls = [x + e for x in literals() if x == int(x) and 3 <= x < 300 for e in (0, 1, 2)] if name[0] in 'NM' else [4, 5, 6, 8]
            ch = [x for x in ls + [17, 35, 70, 130] if low <= x <= max(top, low)] or [low]
            out[name] = rng.choice(ch)
        else:
            low = 1
            if v.startswith('='):
                out[name] = int(v[1:])
                continue
            if v.startswith('>='):
                low = int(v[2:])
            if name[0] in 'NM':
                ch = [low, low + 1, low + 2, low + 3, low + 5, low + 9]
            else:
                ch = [low + 1, low + 2, low, low + 3, low + 1, low + 2, low + 5]
            out[name] = ch[(i // 2) % len(ch)] if rng.random() < 0.6 else rng.choice(ch)
    return out


def scalar_value(rng, style, flags):
    pos = '+' in flags
    nn = '0' in flags
    if style in ('int3', 'sparse', 'rel', 'int9'):
        x = rng.choice([1, 2, 3, 4, 5, 7, 10] if pos else [-3, -2, -1, 0, 1, 2, 3, 5])
    elif style in ('dec', 'mixed', 'near', 'thin'):
        x = rng.choice([0.5, 1.5, 0.1, 2.5, 3.7, 1.0, 0.25] if pos else [-2.5, -0.5, 0.0, 0.1, 1.5, 3.3, 0.75])
    elif style == 'big':
        x = rng.choice([100, 1000.0, 12345.5])
    elif style in ('small', 'tiny'):
        x = rng.choice([0.001, 0.0001, 0.01])
    elif style == 'micro':
        x = rng.choice([1e-4, 1e-5, 1e-6, 1e-3]) * rng.uniform(0.5, 2)
    elif style == 'unit':
        x = round(rng.uniform(0.1, 2) if pos else rng.uniform(-2, 2), 1)
    elif style == 'lit':
        x = rng.choice(literals())
        x = rng.choice([x, x + 1, x - 1, x * 2])
        if isinstance(x, float) and abs(x) < 1e-5:
            x = 0.5
    else:
        x = round(rng.uniform(0.1, 8) if pos else rng.uniform(-8, 8), 4)
    if pos:
        x = abs(x) or 1
    if nn:
        x = abs(x)
    return x


def tol_value(rng):
    return rng.choice([0, 1e-12, 1e-9, 1e-6, 1e-3, 0.01, 0.1, 0.5, 1, 5, 1e-10])


def base_vec(rng, d, style):
    if style in ('int3', 'rel', 'near'):
        return [rng.randint(-3, 3) for _ in range(d)]
    if style == 'int9':
        return [rng.randint(-9, 9) for _ in range(d)]
    if style == 'sparse':
        return [rng.choice([0, 0, 0, 1, -1, 2]) for _ in range(d)]
    if style in ('dec', 'thin'):
        return [round(rng.uniform(-5, 5), 2) for _ in range(d)]
    if style == 'big':
        return [round(rng.uniform(-5e3, 5e3), 1) for _ in range(d)]
    if style == 'small':
        return [round(rng.uniform(-5e-3, 5e-3), 6) for _ in range(d)]
    if style == 'tiny':
        return [rng.choice([0.0, 1e-5, -1e-5, 1e-6, 3e-5, 1.0]) for _ in range(d)]
    if style == 'scaled':
        s = rng.choice([1e-3, 1e3, 10.0, 0.1])
        return [rng.randint(-3, 3) * s for _ in range(d)]
    if style == 'lit':
        ls = [x for x in literals() if abs(x) <= 1000 and (x == 0 or abs(x) > 1e-4)] or [1]
        return [rng.choice(ls + [1, 0, -1, 2]) for _ in range(d)]
    if style == 'micro':
        e = rng.choice([1e-4, 1e-5, 1e-6, 1e-3, 1e-9, 1e-11])
        return [rng.choice([-1, 1, 0.5, 0]) * e * rng.choice([1, 1, rng.uniform(0.5, 2)]) for _ in range(d)]
    if style == 'unit':
        return [round(rng.uniform(-2, 2), 1) for _ in range(d)]
    if style == 'mixed':
        return [rng.choice([0, 1, -2, 0.5, 3.25, -1.5]) for _ in range(d)]
    return [rng.uniform(-5, 5) for _ in range(d)]


def related(rng, d, prev, style):
    """A vector in a special position relative to earlier ones."""
    pool = [p for p in prev if len(p) == d]
    if not pool or rng.random() < 0.15:
        return base_vec(rng, d, 'int3' if style == 'rel' else style)
    k = rng.randrange(8)
    p = rng.choice(pool)
    if k == 0:
        return list(p)
    if k == 1:
        c = rng.choice([-2, -1, 2, 3, -3])
        return [c * x for x in p]
    if k == 2:
        v = base_vec(rng, d, 'int3')
        pp = sum(x * x for x in p)
        vp = sum(x * y for x, y in zip(v, p))
        return [x * pp - y * vp for x, y in zip(v, p)]
    if k == 3:
        return [0 for _ in p]
    if k == 4 and d == 2:
        return [-p[1], p[0]]
    out = [0] * d
    for _ in range(rng.choice([1, 2, 2, 3])):
        c = rng.choice([-2, -1, 1, 1, 2, 3])
        q = rng.choice(pool)
        out = [x + c * y for x, y in zip(out, q)]
    return out


def near(rng, v):
    e = rng.choice([1e-3, 1e-4, 1e-6, 1e-7, 1e-2])
    return [x + e * rng.choice([-1, 0, 1]) for x in v]


def gen_matrix(rng, n, d, style, prev):
    k = rng.randrange(6)
    if style == 'thin':
        # a flat but for one tiny coordinate, or one late row
        r = rng.randint(0, max(0, d - 1))
        rows = [[float(rng.randint(-4, 4)) if j < r else 0.0 for j in range(d)] for _ in range(n)]
        rows[-1 if rng.random() < 0.7 else rng.randrange(n)][rng.randrange(r, d)] = rng.choice([1e-17, 1e-16, 1e-15, 1e-14, 1e-12, 1e-9, 1e-6, 1.0])
        return rows
    if k == 0 and style != 'float':
        r = rng.randint(0, max(0, min(d, 3) - 1))
        o = base_vec(rng, d, 'int3')
        bs = [base_vec(rng, d, 'int3') for _ in range(r)]
        rows = []
        for _ in range(n):
            v = list(o)
            for b in bs:
                c = rng.randint(-3, 3)
                v = [x + c * y for x, y in zip(v, b)]
            rows.append(v)
        return rows
    if style == 'micro' and rng.random() < 0.6:
        e = rng.choice([1e-4, 1e-6, 1e-9, 1e-11])
        return [[rng.randint(-3, 3) * e for _ in range(d)] for _ in range(n)]
    if n > 15 and rng.random() < 0.5:
        rows = [[rng.randint(-9, 9) if j < d - 1 else 0 for j in range(d)] for _ in range(n)]
        rows[-1] = [rng.randint(1, 9) + 10 for _ in range(d)]
        return rows
    rows = [base_vec(rng, d, style if style not in ('rel', 'near') else 'int9') for _ in range(n)]
    if style == 'close':
        e = rng.choice([1e-8, 1e-9, 1e-10, 1e-11])
        for i in range(1, n):
            if rng.random() < 0.6:
                rows[i] = [y * (1 + e * rng.uniform(-1, 1)) for y in rng.choice(rows[:i])]
    if k == 1 and n > 1:
        rows[rng.randrange(n)] = list(rows[0])
    if k == 2 and n > 2:
        rows[-1] = list(rows[1])
        rows[-2] = list(rows[0])
    if style == 'rel' and prev:
        for i in range(n):
            if rng.random() < 0.5:
                rows[i] = related(rng, d, prev, style)
    return rows


def gen_sample(scn, dims_spec, rng, i, styles=None):
    dims = concretise_dims(dims_spec, rng, i)
    style = (styles or STYLES)[i % len(styles or STYLES)]
    if style == 'many':
        dims = concretise_dims(dims_spec, rng, i, many=True)
        style = rng.choice(['int9', 'dec', 'micro', 'sparse'])
    vals = {}
    prev = []
    for v in scn.vars:
        if v.type == 'v':
            d = v.shape(dims)[0]
            st = style
            if style == 'rel':
                x = related(rng, d, prev, style)
            elif style == 'near':
                x = near(rng, related(rng, d, prev, 'rel'))
            elif style == 'close':
                x = list(rng.choice([p for p in prev if len(p) == d] or [base_vec(rng, d, 'float')]))
                if prev:
                    e = rng.choice([1e-8, 1e-9, 1e-10, 1e-11])
                    x = [y * (1 + e * rng.uniform(-1, 1)) for y in x] if rng.random() < 0.6 else base_vec(rng, d, 'float')
            else:
                x = base_vec(rng, d, style) if rng.random() < 0.85 or not prev else related(rng, d, prev, style)
            if '?' in v.flags and rng.random() < 0.5:
                x = [float(y) for y in x]
                x[rng.randrange(d)] = rng.choice([float('nan'), float('inf'), float('-inf')])
            prev.append(x)
            vals[v.name] = x
        elif v.type == 'm':
            n, d = v.shape(dims)
            x = gen_matrix(rng, n, d, style, prev)
            if '?' in v.flags and rng.random() < 0.5:
                x = [[float(y) for y in r] for r in x]
                x[rng.randrange(n)][rng.randrange(d)] = rng.choice([float('nan'), float('inf'), float('-inf')])
            vals[v.name] = x
        elif v.type == 'i':
            vals[v.name] = rng.choice([-1, 0, 1, 2, 3, 4, 5, 6]) if '+' not in v.flags else rng.choice([1, 2, 3, 4, 5, 7])
        elif '0' in v.flags and v.name in ('at', 'rt', 'tol'):
            vals[v.name] = tol_value(rng)
        else:
            vals[v.name] = scalar_value(rng, style, v.flags)
    # one dtype per array
    for v in scn.vars:
        if v.type in 'vm':
            vals[v.name] = unify(vals[v.name])
    if style == 'mixed':        # an array of integers, the others of fractions
        arrays = [v for v in scn.vars if v.type in 'vm']
        for v in arrays:
            if rng.random() < 0.5:
                vals[v.name] = rounded(vals[v.name])
    return dict(dims=dims, vals=vals, style=style)


def rounded(x):
    if isinstance(x, list):
        return [rounded(y) for y in x]
    return int(round(x)) if isinstance(x, (int, float)) and abs(x) < 1e6 else x


def unify(x):
    def flat(y):
        return [z for w in y for z in flat(w)] if isinstance(y, list) else [y]
    if any(isinstance(z, float) for z in flat(x)):
        def f(y):
            return [f(z) for z in y] if isinstance(y, list) else float(y)
        return f(x)
    return x


def make_samples(scn, count, seed, styles=None, strict=False):
    rng = random.Random(f'{seed}/{scn.target}/{scn.index}/{scn.name}')
    dl = scn.concrete_dims if scn.concrete_dims is not None else scn.dims
    chs = list(scn.choice_list())
    out = []
    if scn.samples:
        for j, s in enumerate(scn.samples(rng)):
            for ch in (chs if len(chs) <= 6 else [chs[j % len(chs)]]):
                vals = {k: (unify(v) if isinstance(v, list) else v) for k, v in s.items() if k not in ('dims', 'choice')}
                out.append(dict(dims=s.get('dims', {}), vals=vals, style='special', choice=s.get('choice', ch), form=['nd', 'list', 'tuple'][j % 3]))
                if 'choice' in s:
                    break
    n = scn.nsamples or count
    n = max(n, len(dl) * len(chs))
    for i in range(n):
        s = gen_sample(scn, dl[i % len(dl)], rng, i // len(dl), styles)
        if strict:
            s['strict'] = True
        s['choice'] = chs[(i // len(dl)) % len(chs)]
        s['form'] = ['nd', 'list', 'nd', 'tuple', 'list'][i % 5]
        out.append(s)
    return out


# ----------------------------------------------------------------------------------
# Real library
# ----------------------------------------------------------------------------------
def hexed(x):
    if isinstance(x, list):
        return [hexed(y) for y in x]
    if isinstance(x, float):
        if x != x:
            return 'nan'
        if abs(x) == float('inf'):
            return 'inf' if x > 0 else '-inf'
        return x.hex()
    return x


def job_of(scn, s):
    vs = {}
    for v in scn.vars:
        x = s['vals'][v.name]
        if v.type in 'vm':
            form = s['form']
            if 'A' in v.flags:
                form = 'nd'
            elif 'L' in v.flags and form == 'nd':
                form = 'list'
            vs[v.name] = ['a', form, hexed(x)]
            vs[v.name + '_'] = ['a', 'nd', hexed(x)]
        elif isinstance(x, str):
            vs[v.name] = ['str', '', x]
        else:
            vs[v.name] = ['s', '', hexed(x)]
    return dict(vars=vs, setup=scn.setup, call=scn.call, choice=s['choice'], dims=s['dims'],
                axes=any(w in scn.setup + scn.call for w in ('Axes', 'plot')))


def run_real(jobs, timeout=300):
    if not jobs:
        return []
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               SKV_REPO=loader.REPO, PYTHONPATH='', PYTHONHASHSEED='0')
    env.setdefault('MPLCONFIGDIR', os.path.join('/tmp', f'skv-mpl-{os.getuid()}'))
    p = subprocess.run([PY, os.path.join(os.path.dirname(__file__), 'executor.py')], input=json.dumps(jobs),
                       capture_output=True, text=True, timeout=timeout, env=env)
    if p.returncode != 0:
        raise RuntimeError('executor failed: ' + p.stderr[-400:])
    r = json.loads(p.stdout)
    if isinstance(r, dict):
        raise ImportError(r['import'])
    return r


# ----------------------------------------------------------------------------------
# Encodings
# ----------------------------------------------------------------------------------
def dec_num(s):
    if s in ('nan', 'inf', '-inf'):
        return float(s)
    if 'x' in s:
        return Fraction(float.fromhex(s))
    return int(s)


def enc_t(t):
    if isinstance(t, F):
        if t in (TRUE, FALSE):
            return ['b', t is TRUE]
        raise Unsupported('symbolic truth value in a concrete run')
    if t is tm.NAN:
        return ['n', float('nan')]
    if t.op == 'inf':
        return ['n', float('inf') * t.args[0]]
    if not tm.is_c(t):
        raise Unsupported(f'symbolic value in a concrete run: {t}')
    return ['n', tm.cv(t)]


def enc(v, d=0):
    if d > 6:
        return ['x', 'deep']
    if v is None:
        return ['none']
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, SymBool):
        return enc_t(v.f)
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, ndarray):
        if not all(symnp.is_int(x) for x in v._shape):
            raise Unsupported('symbolic shape in a concrete run')
        import itertools
        dim = vars(v).get('dimension')
        if isinstance(dim, SymNum):
            dim = int(dim)
        xs = [enc_t(v._get(i)) for i in itertools.product(*[range(x) for x in v._shape])]
        return ['a', '*' if vars(v).get('anycls') else type(v).__name__, list(v._shape), dim, xs]
    if isinstance(v, SymNum):
        return enc_t(v.t)
    if isinstance(v, (int, Fraction)):
        return ['n', v]
    if isinstance(v, float):
        return ['n', Fraction(v) if math.isfinite(v) else v]
    if isinstance(v, (tuple, list)):
        return ['q', 'tuple' if isinstance(v, tuple) else 'list', [enc(x, d + 1) for x in v]]
    if isinstance(v, dict):
        return ['d', {str(k): enc(x, d + 1) for k, x in v.items()}]
    if isinstance(v, loader.Recorder):
        return ['r', v._name]
    if isinstance(v, loader.Patch):
        kw = {k: x for k, x in v.k.items() if k not in ('xy', 'radius')}
        return ['p', v.kind, {'xy': enc(tuple(v.k['xy'])), 'radius': enc(v.k.get('radius', 5)), 'kw': enc(kw)}]
    t = type(v)
    if t.__module__.startswith('skspatial'):
        return ['o', t.__name__, {k: enc(x, d + 1) for k, x in vars(v).items() if not k.startswith('_')}]
    return ['x', t.__name__]


def enc_out(o):
    if o.kind == 'raise':
        return ['raise', type(o.v).__name__, [c.__name__ for c in type(o.v).__mro__], str(o.v)[:160]]
    if isinstance(o.v, K.Skip):
        return ['skip']
    return ['value', enc(o.v), [[x[0], enc(tuple(x[1])), enc(dict(x[2]))] for x in o.log]]


def whole(x):
    """An encoded integer (exact encodings hold numbers, those of the real run hold text)."""
    return 'x' not in x and x not in ('nan', 'inf', '-inf') if isinstance(x, str) else isinstance(x, int)


def dec(e):
    """Shim value of an encoded real result."""
    k = e[0]
    if k == 'none':
        return None
    if k in ('b', 's'):
        return e[1]
    if k == 'n':
        x = number(e[1])
        return SymNum(tm.C(x) if not isinstance(x, float) else tm.C(x), 'i' if isinstance(x, int) else 'f', True)
    if k == 'a':
        kind = 'b' if any(x[0] == 'b' for x in e[4]) else 'i' if all(whole(x[1]) for x in e[4]) else 'f'
        dense = [(TRUE if x[1] else FALSE) if x[0] == 'b' else tm.C(number(x[1])) for x in e[4]]
        a = ndarray._make(Buf(tuple(e[2]), kind, dense=dense))
        if e[1] != 'ndarray':
            cls = getattr(K.W, e[1], None)
            a = ndarray._make(a._buf, cls=cls or ndarray)
            vars(a)['dimension'] = e[3]
        return a
    if k == 'q':
        xs = [dec(x) for x in e[2]]
        return tuple(xs) if e[1] == 'tuple' else xs
    if k == 'd':
        return {a: dec(b) for a, b in e[1].items()}
    if k == 'o':
        o = object.__new__(getattr(K.W, e[1]))
        for a, b in e[2].items():
            vars(o)[a] = dec(b)
        return o
    return object()


def number(x):
    if isinstance(x, str):
        return dec_num(x)
    return x


def array_like(e):
    """Nested sequences of numbers as an array encoding of any class."""
    if e[0] == 'a':
        return ['a', '*', e[2], None, e[4]]
    if e[0] == 'q' and e[2]:
        xs = [array_like(x) for x in e[2]]
        if all(x[0] == 'n' for x in xs):
            return ['a', '*', [len(xs)], None, xs]
        if all(x[0] == 'a' for x in xs) and len({tuple(x[2]) for x in xs}) == 1:
            return ['a', '*', [len(xs)] + list(xs[0][2]), None, [y for x in xs for y in x[4]]]
    return e


def loosen(e):
    """Plot arguments: only the numbers matter, not the kind of sequence."""
    if e[0] == 'q':
        return ['q', e[1], [array_like(x) if x[0] in 'aq' else x for x in e[2]]]
    if e[0] == 'd':
        return ['d', {k: array_like(x) for k, x in e[1].items()}]
    return e


def diff(a, e, tol, path='result'):
    """First difference between an actual and an expected encoding, or None.  Returns (path, text, size)."""
    if e[0] != a[0]:
        return path, f'{brief(a)} instead of {brief(e)}', None
    k = e[0]
    if k == 'none':
        return None
    if k in ('b', 's', 'r'):
        return None if a[1] == e[1] else (path, f'{a[1]!r} instead of {e[1]!r}', None)
    if k == 'n':
        x, y = number(a[1]), number(e[1])
        fx, fy = isinstance(x, float), isinstance(y, float)
        if fx or fy:
            if fx and fy and (x == y or (x != x and y != y)):
                return None
            return path, f'{brief(a)} instead of {brief(e)}', None
        if isinstance(x, int) and isinstance(y, (int, Fraction)) and y == int(y) and abs(x) < 2 ** 40 and abs(y) < 2 ** 40:
            return None if x == y else (path, f'{x} instead of {y}', None)
        x, y = tm.mp(Fraction(x) if isinstance(x, int) else x), tm.mp(Fraction(y) if isinstance(y, int) else y)
        d = abs(x - y)
        if d <= tol * (1 + abs(y)):
            return None
        return path, f'{mpmath.nstr(x, 17)} instead of {mpmath.nstr(y, 17)}', d
    if k == 'a':
        if a[1] != e[1] and e[1] != '*':
            return path, f'class {a[1]} instead of {e[1]}', None
        if list(a[2]) != list(e[2]):
            return path, f'shape {a[2]} instead of {e[2]}', None
        if e[3] is not None and a[3] != e[3]:
            return path, f'dimension {a[3]} instead of {e[3]}', None
        worst = None
        for i, (x, y) in enumerate(zip(a[4], e[4])):
            if x[0] != y[0]:
                x = ['n', int(x[1])] if x[0] == 'b' else x
                y = ['n', int(y[1])] if y[0] == 'b' else y
            r = diff(x, y, tol, f'{path}[{i}]')
            if r is not None:
                if r[2] is None:
                    return r
                if worst is None or r[2] > worst[2]:
                    worst = r
        return worst
    if k == 'q':
        if a[1] != e[1] or len(a[2]) != len(e[2]):
            return path, f'{a[1]} of {len(a[2])} instead of {e[1]} of {len(e[2])}', None
        return first(diff(x, y, tol, f'{path}[{i}]') for i, (x, y) in enumerate(zip(a[2], e[2])))
    if k in ('d',):
        if set(a[1]) != set(e[1]):
            return path, f'keys {sorted(a[1])} instead of {sorted(e[1])}', None
        return first(diff(a[1][n], e[1][n], tol, f'{path}[{n!r}]') for n in e[1])
    if k == 'p':
        if a[1] != e[1]:
            return path, f'{a[1]} instead of {e[1]}', None
        return first(diff(a[2][n], e[2][n], tol, f'{path}.{n}') for n in e[2])
    if k == 'o':
        if a[1] != e[1]:
            return path, f'class {a[1]} instead of {e[1]}', None
        for n in e[2]:
            if n not in a[2]:
                return f'{path}.{n}', 'attribute missing', None
        return first(diff(a[2][n], e[2][n], tol, f'{path}.{n}') for n in e[2])
    return None if a == e else (path, f'{a} instead of {e}', None)


def first(it):
    worst = None
    for r in it:
        if r is not None:
            if r[2] is None:
                return r
            if worst is None or r[2] > worst[2]:
                worst = r
    return worst


def brief(e):
    k = e[0]
    if k == 'n':
        x = number(e[1])
        return f'{float(x):.17g}' if not isinstance(x, mpmath.mpf) else mpmath.nstr(x, 17)
    if k in ('b', 's'):
        return repr(e[1])
    if k == 'none':
        return 'None'
    if k == 'a':
        return f"{e[1]}({[brief(x) for x in e[4][:6]]}{'...' if len(e[4]) > 6 else ''})".replace("'", '')
    if k == 'q':
        return '(' + ', '.join(brief(x) for x in e[2]) + ')'
    if k == 'o':
        return f'{e[1]}(' + ', '.join(f'{n}={brief(x)}' for n, x in e[2].items()) + ')'
    if k == 'raise':
        return f'{e[1]}: {e[3]}'
    if k == 'value':
        return brief(e[1])
    return str(e)[:80]


def diff_out(a, e, tol):
    """a, e: ['value', enc, log] or ['raise', cls, mro, msg]."""
    if a[0] != e[0]:
        return 'outcome', f'{"raises " if a[0] == "raise" else "returns "}{brief(a)} instead of {"raising " if e[0] == "raise" else ""}{brief(e)}', None
    if a[0] == 'raise':
        if e[1] not in a[2]:
            return 'outcome', f'raises {a[1]} instead of {e[1]}', None
        return None
    r = diff(a[1], e[1], tol)
    if r is not None:
        return r
    la, le = ([x for x in l if x[0] not in K.FIGURE] for l in (a[2], e[2]))
    if [x[0] for x in la] != [x[0] for x in le]:
        return 'plot', f'{[x[0] for x in la]} instead of {[x[0] for x in le]}', None
    for x, y in zip(la, le):
        r = diff(loosen(x[1]), loosen(y[1]), tol, f'{x[0]} args') or diff(loosen(x[2]), loosen(y[2]), tol, f'{x[0]} kwargs')
        if r is not None:
            return r
    return None


# ----------------------------------------------------------------------------------
# Exact runs
# ----------------------------------------------------------------------------------
class Discard(Exception):
    """The sample does not satisfy the preconditions."""


def exact_run(scn, s, which, actual=None):
    """which: 'spec' or 'code'. Returns (encoded outcome, margin, relations)."""
    tm.CONCRETE[0] = True
    E.reset([])
    E.feasible = None
    tm.MARGIN[0] = None
    try:
        ns = K.build_vars(scn, s['dims'], None, s['form'] if s['form'] != 'tuple' else 'list', conc=s['vals'])
        K.CTX.mode = 'stub' if which == 'spec' else 'real'
        K.CTX.spec_depth = 0
        K.choice_ns(ns, s['choice'])
        try:
            if scn.setup:
                exec(K.compile_cached(scn.setup, 'exec'), ns)
            if scn.pre:
                K.CTX.mode = 'stub'
                for p in ([scn.pre] if isinstance(scn.pre, str) else scn.pre):
                    if fof(eval(K.compile_cached(p, 'eval'), ns)) is not TRUE:
                        raise Discard('precondition')
        except Discard:
            raise
        except Exception as e:
            raise Discard(f'setup: {type(e).__name__}: {e}')
        code = K.compile_cached(scn.call if which == 'code' or scn.expect is None else scn.expect, 'eval')
        tm.reset_margin()
        if which == 'spec':
            K.CTX.mode = 'check'
            K.CTX.obligations = []
            K.CTX.target = scn.target
            K.CTX.actual = actual
            o = K.outcome(lambda: eval(code, ns))
            return enc_out(o), tm.MARGIN[0], list(K.CTX.obligations)
        K.CTX.mode = 'real'
        o = K.outcome(lambda: eval(code, ns))
        return enc_out(o), tm.MARGIN[0], []
    finally:
        K.CTX.mode = 'real'
        K.CTX.spec_depth = 0
        K.STATE.restore()
        tm.CONCRETE[0] = False


TOL = mpmath.mpf('1e-9')
EXACT_TOL = mpmath.mpf('1e-30')
REL_TOL = mpmath.mpf('1e-6')


def perturbed(s, rng, rel, abs_):
    def scale_of(x):
        if isinstance(x, list):
            return max([scale_of(y) for y in x] or [0])
        return abs(x) if isinstance(x, (int, float)) and math.isfinite(x) else 0

    def f(x, sc):
        if isinstance(x, list):
            return [f(y, sc) for y in x]
        if isinstance(x, str) or (isinstance(x, float) and not math.isfinite(x)):
            return x
        return float(x) * (1 + rel * rng.uniform(-1, 1)) + abs_ * sc * rng.uniform(-1, 1)
    t = dict(s)
    t['vals'] = {k: (v if isinstance(v, (int, str)) and not isinstance(v, float) or not isinstance(v, (list, float)) else f(v, scale_of(v)))
                 for k, v in s['vals'].items()}
    return t


def judge(scn, s, real):
    """Compare one sample.  Returns (status, detail): ok | discard | undecided | violation."""
    if 'error' in real:
        return 'undecided', 'executor: ' + real['error']
    if 'setup' in real:
        try:
            exact_run(scn, s, 'spec')
        except Discard:
            return 'discard', real['setup']
        except (EngineExit, tm.NonFiniteUse) as e:
            return 'discard', str(e)
        except BaseException:
            pass
        return 'discard', 'setup (real): ' + real['setup']
    if real.get('changed'):
        n, b, a = real['changed'][0]
        return 'violation', dict(what=f'frame: {n} was modified', before=brief(b), after=brief(a), kind='frame')
    if real.get('unstable'):
        return 'violation', dict(what='repeating the call gives a different result', first=brief(real['out']),
                                 second=brief(real['unstable']), kind='history')
    if real.get('stale'):
        return 'violation', dict(what='after its operands are updated in place the call gives a result that depends on the earlier call',
                                 got=brief(real['stale'][0]), fresh=brief(real['stale'][1]), kind='history')
    a = real['out']
    act = K.Out('value', dec(a[1]), []) if a[0] == 'value' else K.Out('raise', exc_like(a))
    try:
        c, margin, rels = exact_run(scn, s, 'spec', act)
    except Discard as e:
        return 'discard', str(e)
    except (Unsupported, tm.NonFiniteUse, PathEnd) as e:
        return 'undecided', f'specification: {e}'
    tol = scn.tol or TOL
    if c[0] == 'skip':
        bad = [(n, r) for n, r in rels if (r.holds(REL_TOL) if isinstance(r, K.Rel) else fof(r) is TRUE) is not True]
        if not bad:
            return strict(scn, s, a, c, rels) if s.get('strict') else ('ok', None)
        n, r = bad[0]
        # a relation that fails only through rounding holds for a slightly perturbed input as well: be strict
        hard = [(n, r) for n, r in bad if not isinstance(r, K.Rel) or r.op == 'true' or r.holds(mpmath.mpf('1e-3')) is not True]
        if hard and margin == 0 and n.startswith('outcome'):
            return 'undecided', f'{n}: a comparison of the specification is within rounding'
        if hard:
            n, r = hard[0]
            return 'violation', dict(what=f'relation violated: {n}', got=brief(a), kind='relation',
                                     detail=f'{show(r)}')
        return 'undecided', f'relation {n} within rounding'
    d = diff_out(a, c, tol)
    if d is None:
        # the same source in exact arithmetic may still disagree by less than the tolerance
        return strict(scn, s, a, c, rels) if s.get('strict') else ('ok', None)
    if scn.tol is not None and scn.tol < 1e-20:
        return 'violation', dict(what=f'{d[0]}: {d[1]}', kind='value', got=brief(a), specified=brief(c))     # values that are only copied
    # sensitivity of the specification at this input
    rng = random.Random(1)
    sens = mpmath.mpf(0)
    stable = True
    for rel, ab in ((1e-9, 0), (1e-9, 0), (1e-9, 1e-9), (1e-10, 1e-10), (1e-11, 1e-11), (1e-9, 0), (1e-9, 1e-9), (1e-10, 1e-10)):
        try:
            c2, _, _ = exact_run(scn, perturbed(s, rng, rel, ab), 'spec', act)
        except (Discard, EngineExit, tm.NonFiniteUse):
            stable = False
            break
        x = diff_out(c2, c, EXACT_TOL)
        if x is not None:
            if x[2] is None:
                stable = False
                break
            sens = max(sens, x[2])
    if margin is not None and (margin == 0 or (d[2] is None and margin <= 1.0001e-6)):
        stable = False                      # a comparison is within rounding whatever the input
    if stable and (d[2] is None or d[2] > 100 * sens + REL_TOL):
        if noise(scn, s, a, c, d):
            return 'undecided', f'{d[0]}: {d[1]} (rounding noise)'
        return 'violation', dict(what=f'{d[0]}: {d[1]}', kind='value', got=brief(a), specified=brief(c))
    # on a boundary or ill-conditioned: let exact arithmetic decide
    try:
        b, _, _ = exact_run(scn, s, 'code')
    except Discard as e:
        return 'undecided', f'exact run of the code: {e}'
    except (EngineExit, tm.NonFiniteUse) as e:
        return 'undecided', f'exact run of the code: {e}'
    x = diff_out(b, c, mpmath.mpf('1e-20'))
    if x is None:
        return 'ok', 'rounding only'
    if diff_out(a, b, mpmath.mpf('1e-6')) is None:
        return 'violation', dict(what=f'{d[0]}: {d[1]}', kind='boundary', got=brief(a), specified=brief(c))
    return 'undecided', f'{d[0]}: {d[1]} (boundary)'


def noise(scn, s, a, c, d):
    """Is the deviation rounding noise: the source agrees with its contract in exact arithmetic, and the real run varies as
    much when the input changes by units in the last place?"""
    try:
        b, _, _ = exact_run(scn, s, 'code')
    except (Discard, EngineExit, tm.NonFiniteUse):
        return False
    if b[0] == 'skip' or diff_out(b, c, mpmath.mpf('1e-20')) is not None:
        return False
    rng = random.Random(2)
    try:
        rs = run_real([job_of(scn, jittered(s, rng)) for _ in range(8)])
    except Exception:
        return False
    for r in rs:
        if 'out' not in r:
            return True
        o = r['out']
        x = diff_out(o, a, EXACT_TOL)
        if x is not None and (x[2] is None or (d[2] is not None and x[2] > d[2] / 100)):
            return True
    return False


def jittered(s, rng):
    def f(x):
        if isinstance(x, list):
            return [f(y) for y in x]
        return x * (1 + rng.choice([-2, -1, 0, 1, 2]) * 2.0 ** -52) if isinstance(x, float) and math.isfinite(x) else x
    return dict(s, vals={k: f(v) for k, v in s['vals'].items()})


def strict(scn, s, a, c, rels):
    """For inputs that belong to a failed obligation: does the source deviate from its contract in exact arithmetic, with the
    real run following it?  (A deviation of less than the tolerance of an ordinary comparison.)"""
    try:
        b, _, _ = exact_run(scn, s, 'code')
    except (Discard, EngineExit, tm.NonFiniteUse):
        return 'ok', None
    if b[0] == 'skip' or b[0] != a[0]:
        return 'ok', None
    if c[0] == 'skip':
        if b[0] != 'value':
            return 'ok', None
        low = mpmath.mpf('1e-12')
        try:
            _, _, rels_b = exact_run(scn, s, 'spec', K.Out('value', dec(b[1]), []))
        except (Discard, EngineExit, tm.NonFiniteUse):
            return 'ok', None
        bad_a = {n for n, r in rels if isinstance(r, K.Rel) and r.op != 'true' and r.holds(low) is not True}
        bad_b = [(n, r) for n, r in rels_b if isinstance(r, K.Rel) and r.op != 'true' and r.holds(low) is not True]
        bad = [(n, r) for n, r in bad_b if n in bad_a]
        if bad:
            n, r = bad[0]
            return 'violation', dict(what=f'relation violated: {n}', got=brief(a), kind='exact', detail=show(r))
        return 'ok', None
    x = diff_out(b, c, mpmath.mpf('1e-12'))
    if x is None or x[2] is None:
        return 'ok', None
    y = diff_out(a, b, x[2] / 1000 if x[2] < 1 else mpmath.mpf('1e-3'))
    if y is None or (y[2] is not None and y[2] < x[2] / 20):
        return 'violation', dict(what=f'{x[0]}: {x[1]} (in exact arithmetic, which the floating-point run follows)', kind='exact',
                                 got=brief(a), specified=brief(c))
    return 'ok', None


def show(r):
    if isinstance(r, K.Rel):
        try:
            if r.op == 'true':
                return tm.show_f(fof(r.a))
            return f'{tm.show(tof(r.a))} {dict(eq="==", le="<=", lt="<")[r.op]} {tm.show(tof(r.b))}'
        except BaseException:
            return r.op
    return str(r)[:100]


def exc_like(a):
    for n in a[2]:
        t = getattr(__builtins__, n, None) if not isinstance(__builtins__, dict) else __builtins__.get(n)
        if isinstance(t, type) and issubclass(t, Exception):
            try:
                return t(a[3])
            except Exception:
                pass
    return Exception(a[3])


def describe(scn, s):
    """Python text that replays the sample."""
    lines = []
    for v in scn.vars:
        x = s['vals'][v.name]
        if v.type in 'vm':
            lines.append(f"{v.name} = np.array({x!r})" if s['form'] == 'nd' else f'{v.name} = {x!r}')
            if v.name + '_' in scn.call + scn.setup:
                lines.append(f'{v.name}_ = np.array({x!r})')
        else:
            lines.append(f'{v.name} = {x!r}')
    for k, v in s['choice'].items():
        lines.append(f'{k} = {v}')
    for k, v in s['dims'].items():
        lines.append(f'{k} = {v}')
    if scn.setup:
        lines.append(scn.setup)
    lines.append(f'result = {scn.call}')
    return '\n'.join(lines)
