"""Load /repo's real source files into a world where numpy, math, ... are the symbolic ones.

Nothing of the source is rewritten: every file is compiled as it stands and executed by
CPython.  Only the names it imports (and a few builtins) are bound to symbolic versions.
"""
import ast
import builtins
import os
import sys
import types
from . import term as tm
from . import symnp, symlinalg, symmath
from .engine import E, Unsupported
from .scalar import SymNum, SymBool, tof, fof, mkbool, kindof
from .symnp import ndarray

REPO = os.environ.get('SKV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


# ----------------------------------------------------------------------------------
# builtins
# ----------------------------------------------------------------------------------
class _TypeProxy(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


class FloatProxy(metaclass=_TypeProxy):
    _skv_type = 'float'
    _real = builtins.float
    _inst = staticmethod(lambda x: isinstance(x, builtins.float) or (isinstance(x, SymNum) and x.kind == 'f'))
    fromhex = builtins.float.fromhex

    def __new__(cls, x=0.0):
        if isinstance(x, SymNum):
            return SymNum(x.t, 'f', False)
        if isinstance(x, SymBool):
            return SymNum(tof(x), 'f', False)
        if isinstance(x, ndarray):
            return SymNum(tof(x._scalar()), 'f', False)
        return builtins.float(x)


class IntProxy(metaclass=_TypeProxy):
    _skv_type = 'int'
    _real = builtins.int
    _inst = staticmethod(lambda x: isinstance(x, builtins.int) or
                         (isinstance(x, SymNum) and x.kind == 'i' and not x.np) or isinstance(x, SymBool))

    def __new__(cls, x=0, *a):
        if isinstance(x, ndarray):
            x = x._scalar()
        if isinstance(x, SymNum):
            if x.kind == 'i':
                return SymNum(x.t, 'i', False)
            if x.t is tm.NAN:
                raise ValueError('cannot convert float NaN to integer')
            if tm.special(x.t):
                raise OverflowError('cannot convert float infinity to integer')
            return SymNum(tm.fn('trunc', x.t), 'i', False)
        if isinstance(x, SymBool):
            return SymNum(tof(x), 'i', False)
        return builtins.int(x, *a)


class BoolProxy(metaclass=_TypeProxy):
    _skv_type = 'bool'
    _real = builtins.bool
    _inst = staticmethod(lambda x: isinstance(x, (builtins.bool, SymBool)))

    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, ndarray) and x.ndim == 0:
            x = x._scalar()
        if isinstance(x, SymNum):
            return mkbool(fof(x))
        return builtins.bool(x)


def b_len(x):
    if isinstance(x, ndarray):
        return x._len()
    if hasattr(x, '_skv_len'):
        return x._skv_len()
    return builtins.len(x)


def b_range(*a):
    vals = []
    for x in a:
        if isinstance(x, SymNum):
            x = x.__index__()
        vals.append(x)
    return builtins.range(*vals)


def b_isinstance(x, t):
    return builtins.isinstance(x, t)


class Comprehensions(ast.NodeTransformer):
    """[e for x in it] becomes __skv_map__(lambda x: e, it), and the same inside sum(...).

    Python evaluates both forms alike; the second one lets `it` have a symbolic length.  Comprehensions with
    filters, several clauses, assignment expressions or awaits are left as they are.
    """

    def fits(self, n):
        g = n.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async or not isinstance(g[0].target, ast.Name):
            return False
        return not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n))

    def mapped(self, n):
        t = n.generators[0].target
        f = ast.Lambda(ast.arguments([], [ast.arg(t.id)], None, [], [], None, []), n.elt)
        r = ast.Call(ast.Name('__skv_map__', ast.Load()), [f, n.generators[0].iter], [])
        return ast.fix_missing_locations(ast.copy_location(r, n))

    def visit_ClassDef(self, n):
        # names of a class body are not visible inside a lambda in it, nor inside a comprehension's element
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return self.mapped(n) if self.fits(n) else n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'sum' and n.args and isinstance(n.args[0], ast.GeneratorExp) \
                and self.fits(n.args[0]):
            n.args[0] = self.mapped(n.args[0])
        return n


def desugar(tree):
    return Comprehensions().visit(tree)


def b_map(f, it):
    a = it if isinstance(it, ndarray) else getattr(it, '_skv_arr', None)
    if a is None or symnp.is_int(a._shape[0]):
        return [f(x) for x in it]
    return symnp.mapped(f, a)


def b_sum(x, *start):
    a = getattr(x, '_skv_arr', None) if not isinstance(x, ndarray) else x
    if a is None or symnp.is_int(a._shape[0]):
        return builtins.sum(x, *start)
    r = symnp.sum(a, axis=0)
    return start[0] + r if start else r


def b_pow(a, b, m=None):
    return a ** b if m is None else builtins.pow(a, b, m)


def b_print(*a, **k):
    pass


PATCH = dict(float=FloatProxy, int=IntProxy, bool=BoolProxy, len=b_len, range=b_range, pow=b_pow, print=b_print, sum=b_sum, __skv_map__=b_map)


# ----------------------------------------------------------------------------------
# stubs of other packages
# ----------------------------------------------------------------------------------
class OptimizeResult(dict):
    __getattr__ = dict.__getitem__


def minimize(fun, x0, args=(), method=None, **kw):
    """Contract of scipy.optimize.minimize: some point x of the shape of x0 (nothing is assumed about
    its optimality: the optimiser is iterative)."""
    x0 = symnp.asarray(x0)
    if tm.CONCRETE[0]:
        raise Unsupported('minimize in a concrete run')
    n = x0._shape[0]
    nm = E.fresh_name('argmin')
    x = symnp.ndarray._make(symnp.Buf((n,), 'f', lambda i: tm.el(nm, [symnp.ix(j) for j in i])))
    for f in getattr(E.facts, 'on_minimise', ()):
        f(x)
    return OptimizeResult(x=x, fun=SymNum(tm.V(nm + '.fun')), success=True, nit=1, message='')


def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


class Recorder:
    """An object whose method calls are recorded (matplotlib axes and figures)."""

    def __init__(self, name, log):
        self._name = name
        self._log = log

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return RecMethod(self, n)


class RecMethod:
    def __init__(self, owner, n):
        self.owner, self.n = owner, n

    def __call__(self, *a, **k):
        r = Recorder(f'{self.owner._name}.{self.n}()', self.owner._log)
        self.owner._log.append((self.owner._name + '.' + self.n, a, k, r))
        return r


class Axes(Recorder):
    pass


class Axes3D(Axes):
    pass


class Figure(Recorder):
    def add_subplot(self, *a, **k):
        cls = Axes3D if k.get('projection') == '3d' else Axes
        r = cls('ax3' if cls is Axes3D else 'ax', self._log)
        self._log.append((self._name + '.add_subplot', a, k, r))
        return r


LOG = []


def _subplots(*a, **k):
    f = Figure('fig', LOG)
    kw = k.get('subplot_kw') or {}
    ax = (Axes3D if kw.get('projection') == '3d' else Axes)('ax3' if kw.get('projection') == '3d' else 'ax', LOG)
    LOG.append(('plt.subplots', a, k, ax))
    return f, ax


def _figure(*a, **k):
    f = Figure('fig', LOG)
    LOG.append(('plt.figure', a, k, f))
    return f


class Patch:
    def __init__(self, kind, a, k):
        self.kind, self.a, self.k = kind, a, k


def _circle(*a, **k):
    names = ['xy', 'radius']
    d = dict(zip(names, a))
    d.update(k)
    return Patch('Circle', (), d)


class _Meta:
    @staticmethod
    def version(n):
        return '0'

    class PackageNotFoundError(Exception):
        pass


def stub_modules():
    meta = mod('importlib.metadata', version=_Meta.version, PackageNotFoundError=_Meta.PackageNotFoundError)
    plt = mod('matplotlib.pyplot', subplots=_subplots, figure=_figure, Circle=_circle)
    patches = mod('matplotlib.patches', Circle=_circle)
    axes = mod('matplotlib.axes', Axes=Axes)
    mpl = mod('matplotlib', pyplot=plt, axes=axes, patches=patches)
    mp3 = mod('mpl_toolkits.mplot3d', Axes3D=Axes3D)
    sopt = mod('scipy.optimize', minimize=minimize, OptimizeResult=OptimizeResult)
    return {
        'numpy': symnp, 'numpy.linalg': symlinalg, 'math': symmath,
        'importlib.metadata': meta, 'importlib': mod('importlib', metadata=meta), 'importlib_metadata': meta,
        'matplotlib': mpl, 'matplotlib.pyplot': plt, 'matplotlib.axes': axes, 'matplotlib.patches': patches,
        'mpl_toolkits': mod('mpl_toolkits', mplot3d=mp3), 'mpl_toolkits.mplot3d': mp3,
        'scipy': mod('scipy', optimize=sopt), 'scipy.optimize': sopt,
        'numpy.typing': mod('numpy.typing', NDArray=object, ArrayLike=object),
    }


REAL_OK = {'typing', 'functools', 'itertools', 'dataclasses', 'inspect', '__future__', 'operator', 'collections',
           'abc', 'enum', 'warnings', 'copy', 'contextlib', 'numbers', 'types', 'sys', 'os', 'collections.abc',
           'typing_extensions', 're', 'string', 'fractions', 'decimal', 'weakref', 'statistics', 'bisect', 'textwrap'}


class World:
    def __init__(self, src=SRC, package='skspatial'):
        self.src = src
        self.package = package
        self.mods = {}
        self.stubs = stub_modules()
        b = dict(builtins.__dict__)
        b.update(PATCH)
        b['__import__'] = self.imp
        self.builtins = b
        symnp.linalg = symlinalg

    def path_of(self, name):
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        raise ModuleNotFoundError(f'No module named {name!r}')

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rpartition('.')[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        path, pkg = self.path_of(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        sys.modules[name] = m
        with open(path) as f:
            code = compile(desugar(ast.parse(f.read(), path)), path, 'exec', dont_inherit=True)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            sys.modules.pop(name, None)
            raise
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            setattr(self.mods[parent], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pk = pk.rpartition('.')[0]
            name = pk + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == self.package:
            m = self.load(name)
            if not fromlist:
                return self.mods[top]
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        self.load(name + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if name in self.stubs:
            m = self.stubs[name]
            return m if fromlist else self.stubs.get(top, m)
        if top in self.stubs:
            # submodule of a stubbed package
            if name.startswith('numpy.'):
                raise Unsupported(f'import of {name}')
            raise Unsupported(f'import of {name}')
        if top in REAL_OK or top.startswith('_'):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported(f'import of {name}')

    def load_all(self):
        self.load(self.package)
        for root, dirs, files in os.walk(os.path.join(self.src, self.package)):
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(root, f), self.src)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.load(rel)
        return self
