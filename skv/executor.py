"""Runs calls on the real library (CPython, NumPy, SciPy) in a separate process.

stdin: JSON list of jobs; stdout: JSON list of results.  Nothing of skv is imported here.
"""
import json
import math
import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get('SKV_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
import warnings
warnings.simplefilter('ignore')
import numpy as np

ATTRS = ('point', 'vector', 'direction', 'normal', 'radius', 'dimension', 'point_a', 'point_b', 'point_c')
LOG = []


def num(x):
    x = float(x) if not isinstance(x, int) else x
    if isinstance(x, int):
        return ['n', str(x)]
    if math.isnan(x):
        return ['n', 'nan']
    if math.isinf(x):
        return ['n', 'inf' if x > 0 else '-inf']
    return ['n', x.hex()]


def enc(v, d=0):
    if d > 6:
        return ['x', 'deep']
    if v is None:
        return ['none']
    if isinstance(v, (bool, np.bool_)):
        return ['b', bool(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, np.ndarray):
        if v.dtype.kind not in 'biuf':
            return ['x', f'array of {v.dtype}']
        if v.shape == () and type(v) is np.ndarray:
            return enc(v[()])            # NumPy 1 returns reductions of subclasses as 0-d arrays
        dim = v.__dict__.get('dimension', None) if hasattr(v, '__dict__') else None
        flat = [bool(x) if v.dtype.kind == 'b' else (int(x) if v.dtype.kind in 'iu' else float(x)) for x in np.asarray(v).ravel().tolist()]
        return ['a', type(v).__name__, list(v.shape), dim, [['b', x] if isinstance(x, bool) else num(x) for x in flat]]
    if isinstance(v, (int, np.integer)):
        return num(int(v))
    if isinstance(v, (float, np.floating)):
        return num(float(v))
    if isinstance(v, (tuple, list)):
        return ['q', 'tuple' if isinstance(v, tuple) else 'list', [enc(x, d + 1) for x in v]]
    if isinstance(v, dict):
        return ['d', {str(k): enc(x, d + 1) for k, x in v.items()}]
    if isinstance(v, FakeBase):
        return ['r', v._name]
    t = type(v)
    if t.__module__.startswith('matplotlib.patches'):
        if t.__name__ == 'Circle':
            return ['p', 'Circle', {'xy': enc(tuple(float(x) for x in v.center)), 'radius': enc(float(v.radius)),
                                    'kw': enc({k: x for k, x in getattr(v, '_skv_kw', {}).items()})}]
        return ['x', t.__name__]
    if t.__module__.startswith('skspatial'):
        out = {}
        for k in ATTRS:
            try:
                out[k] = enc(getattr(v, k), d + 1) if not callable(getattr(v, k)) else None
            except AttributeError:
                continue
            if out[k] is None:
                del out[k]
        return ['o', t.__name__, out]
    return ['x', t.__name__]


class FakeBase:
    _name = 'ax'


def make_axes():
    """Recording stand-ins for matplotlib axes."""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    from mpl_toolkits.mplot3d import Axes3D

    def rec(cls, nm):
        def getter(self, n):
            if n in ('scatter', 'plot', 'plot_surface', 'add_artist', 'add_patch', 'arrow', 'quiver', 'plot_wireframe',
                     'add_collection', 'text', 'annotate', 'fill', 'plot_trisurf', 'set_aspect', 'set_xlim', 'set_ylim', 'set_title', 'legend'):
                def call(*a, **k):
                    LOG.append([nm + '.' + n, a, k])
                return call
            return object.__getattribute__(self, n)
        return type('Fake' + cls.__name__, (FakeBase, cls), {'__getattribute__': getter, '_name': nm, '__init__': lambda self: None,
                                                            '__del__': lambda self: None})
    A2, A3 = rec(Axes, 'ax'), rec(Axes3D, 'ax3')

    class Fig(FakeBase):
        _name = 'fig'

        def add_subplot(self, *a, **k):
            r = A3() if k.get('projection') == '3d' else A2()
            LOG.append(['fig.add_subplot', a, k])
            return r

    def subplots(*a, **k):
        kw = k.get('subplot_kw') or {}
        LOG.append(['plt.subplots', a, k])
        return Fig(), (A3() if kw.get('projection') == '3d' else A2())

    def figure(*a, **k):
        LOG.append(['plt.figure', a, k])
        return Fig()
    plt.subplots = subplots
    plt.figure = figure
    real = plt.Circle

    class Circle(real):
        def __init__(self, xy, radius=5, **kw):
            super().__init__(xy, radius, **kw)
            self._skv_kw = kw
    Circle.__module__ = 'matplotlib.patches'
    plt.Circle = Circle
    matplotlib.patches.Circle = Circle
    return A2, A3


def val(x, spec, form):
    """Input value: spec 'a' array_like, 's' scalar."""
    def cv(y):
        if isinstance(y, list):
            return [cv(z) for z in y]
        if isinstance(y, str):
            if y in ('nan', 'inf', '-inf'):
                return float(y)
            return float.fromhex(y)
        return y
    if spec == 'a':
        y = cv(x)
        if form == 'nd':
            return np.array(y)
        if form == 'tuple':
            def tup(z):
                return tuple(tup(w) for w in z) if isinstance(z, list) else z
            return tup(y)
        return y
    return cv(x)


def run_job(job, base):
    ns = dict(base)
    for name, (spec, form, x) in job['vars'].items():
        ns[name] = val(x, spec, form) if spec != 'str' else x
    ns.update(job.get('dims', {}))
    if job.get('axes'):
        if 'A2' not in base:
            base['A2'], base['A3'] = make_axes()
            import skspatial.plotting
            base['plotting'] = skspatial.plotting
        ns['plotting'] = base['plotting']
        ns['Axes'] = base['A2']
        ns['Axes3D'] = base['A3']
    try:
        for k, v in job.get('choice', {}).items():
            ns[k] = eval(v, ns) if isinstance(v, str) else v
        if job['setup']:
            exec(job['setup'], ns)
    except Exception as e:
        return {'setup': type(e).__name__ + ': ' + str(e)[:120]}
    watch = [k for k in ns if k not in base and k not in ('__builtins__',)]
    before = {k: enc(ns[k]) for k in watch}
    res = []
    code = compile(job['call'], '<call>', 'eval')
    for _ in range(2):
        del LOG[:]
        try:
            with np.errstate(all='ignore'):
                v = eval(code, ns)
            r = ['value', enc(v), [[n, enc(tuple(a)), enc(dict(k))] for n, a, k in LOG]]
        except Exception as e:
            r = ['raise', type(e).__name__, [c.__name__ for c in type(e).__mro__], str(e)[:160]]
        res.append(r)
        if _ == 0:
            after = {k: enc(ns[k]) for k in watch}
            changed = [k for k in watch if before[k] != after[k]]
            if changed:
                break
    out = {'out': res[0], 'changed': [[k, before[k], after[k]] for k in changed]}
    if not changed and len(res) > 1 and res[1] != res[0]:
        out['unstable'] = res[1]
    elif not changed and job.get('alt'):
        r = after_update(job, base, ns, code)
        if r is not None:
            out['stale'] = r
    return out


class NoCopy(Exception):
    pass


def copy_into(x, y, seen):
    """Give x (reused in place) the value of y; the value to use in its place otherwise."""
    if x is y or id(x) in seen:
        return x
    if isinstance(x, np.ndarray):
        seen.add(id(x))
        if type(x) is not type(y) or x.shape != y.shape or x.dtype != y.dtype or not x.flags.writeable:
            raise NoCopy
        x[...] = np.asarray(y)
        return x
    if isinstance(x, list) and isinstance(y, list):
        x[:] = y
        return x
    if type(x).__module__.startswith('skspatial') and hasattr(x, '__dict__') and not isinstance(x, type):
        seen.add(id(x))
        if type(x) is not type(y):
            raise NoCopy
        for k in ATTRS:
            if k in x.__dict__ and k in y.__dict__:
                v = copy_into(x.__dict__[k], y.__dict__[k], seen)
                if v is not x.__dict__[k]:
                    setattr(x, k, v)
        return x
    return y


def after_update(job, base, ns, code):
    """The operands get new values in place: the call must give what it gives on fresh operands."""
    ns2 = dict(base)
    for name, (spec, form, x) in job['alt'].items():
        ns2[name] = val(x, spec, form) if spec != 'str' else x
    for k in ns:
        if k not in ns2 and (k in job.get('dims', {}) or k in ('plotting', 'Axes', 'Axes3D')):
            ns2[k] = ns[k]

    def call(n):
        del LOG[:]
        try:
            with np.errstate(all='ignore'):
                v = eval(code, n)
            return ['value', enc(v), [[m, enc(tuple(a)), enc(dict(k))] for m, a, k in LOG]]
        except Exception as e:
            return ['raise', type(e).__name__]
    try:
        for k, v in job.get('choice', {}).items():
            ns2[k] = eval(v, ns2) if isinstance(v, str) else v
        if job['setup']:
            exec(job['setup'], ns2)
    except Exception:
        return None
    want = call(ns2)
    ns3 = dict(ns)
    try:
        seen = set()
        for k in ns2:
            if k in base or k == '__builtins__':
                continue
            if k not in ns3:
                return None
            ns3[k] = copy_into(ns3[k], ns2[k], seen)
    except NoCopy:
        return None
    got = call(ns3)
    return None if got == want or near(got, want) else [got, want]


def near(a, b):
    """Equal up to a relative 1e-9 (memory layout may change the order of a sum)."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 2 and len(b) == 2 and a[0] == b[0] == 'n':
            x, y = (float.fromhex(z) if 'x' in z else float(z) for z in (a[1], b[1]))
            return x == y or (x != x and y != y) or abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-300) or abs(x - y) < 1e-12
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    return a == b


def main():
    jobs = json.load(sys.stdin)
    try:
        import skspatial.objects as O
        import skspatial.measurement as M
        import skspatial.transformation as Tm
    except Exception as e:
        json.dump({'import': f'{type(e).__name__}: {e}'}, sys.stdout)
        return
    base = {n: getattr(O, n) for n in O.__all__ if hasattr(O, n)}
    base.update(np=np, math=math, measurement=M, transformation=Tm)
    out = []
    for j in jobs:
        try:
            out.append(run_job(j, base))
        except RecursionError as e:
            out.append({'error': 'RecursionError'})
        except Exception as e:
            out.append({'error': f'{type(e).__name__}: {e}'})
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
