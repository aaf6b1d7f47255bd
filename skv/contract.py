"""Contracts (sidecar specifications) on the real functions of /repo, and their verification.

A contract is a specification function with the public signature of the function it describes.
  * At a call site inside verified code the contract replaces the callee (modular verification).
  * Verifying a function runs its real body on symbolic inputs, path by path, and proves that the
    outcome (value, exception class, class, shape, every element, every attribute) is the one the
    contract gives, and that nothing in the frame was modified.
"""
import builtins
import functools
import ast
import inspect
import itertools
import sys
import time
import types
from fractions import Fraction
import mpmath
from . import term as tm
from . import nf as N
from . import poly as P
from . import symnp, symlinalg, symmath, loader, prove as PR
from .engine import E, Unsupported, PathEnd, EngineExit, NeedCoords, Facts
from .scalar import SymNum, SymBool, tof, fof, mkbool, kindof
from .symnp import ndarray, Buf
from .term import T, F, TRUE, FALSE

np = symnp
SPECS = {}          # 'Class.method' or 'module.function' -> spec function
ORDER = []


def spec(*keys, **opts):
    """Register a contract for one or more public functions."""
    def deco(f):
        for k in keys:
            f.opts = opts
            SPECS[k] = f
            ORDER.append(k)
        return f
    return deco


# ----------------------------------------------------------------------------------
# Call modes
# ----------------------------------------------------------------------------------
class Ctx:
    mode = 'real'            # real | stub | verify
    target = None
    armed = False            # verify: the outermost call of the target runs its body
    used = set()
    actual = None            # relational contracts: the outcome under scrutiny
    obligations = None       # relational contracts: collected (name, formula/relation)
    spec_depth = 0
    checking = None          # key whose contract is being checked relationally
    inline = frozenset()     # callees executed by their bodies (their contracts failed)
    abstract = frozenset()   # callees replaced by uninterpreted functions of their arguments
    history = False          # compare a repeated call with the first instead of the contract


CTX = Ctx()


class Skip:
    """Result of a relational contract in check mode: everything was checked by its clauses."""

    def __init__(self, r):
        self.r = r


def _signature_of(f):
    s = getattr(f, '_skv_sig', None)
    if s is None:
        s = f._skv_sig = inspect.signature(f)
    return s


ABSTRACT = {}


def abstract(result, *keys, raises=True):
    """Contracts that a caller's proof may use as an uninterpreted function of the arguments.

    result: 'bool', 'num', 'num+' or 'point' (of the receiver's dimension).
    """
    for k in keys:
        ABSTRACT[k] = (result, raises)


def value_id(x):
    if isinstance(x, SymNum) or (isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)):
        return ('n', N.nf(tof(x)).key())
    if x is None or isinstance(x, (bool, str)):
        return ('c', repr(x))
    if isinstance(x, SymBool):
        raise Unsupported('symbolic truth value as an argument')
    if isinstance(x, (symnp.ndarray, list, tuple)):
        return ('a', symnp.array_id(symnp.asarray(x)))
    if isinstance(x, type):
        return ('t', x.__name__)
    d = getattr(x, '__dict__', None)
    if d is None:
        raise Unsupported(f'argument {type(x).__name__}')
    return ('o', type(x).__name__) + tuple((k, value_id(d[k])) for k in sorted(d))


def run_abstract(key, args, kwargs):
    CTX.used.add(key)
    kind, raises = ABSTRACT[key]
    b = _signature_of(SPECS[key]).bind(*args, **kwargs)
    b.apply_defaults()
    ident = []
    for n, v in b.arguments.items():
        if b.signature.parameters[n].kind is inspect.Parameter.VAR_KEYWORD:
            ident.append((n, tuple((k, value_id(v[k])) for k in sorted(v))))
        else:
            ident.append((n, value_id(v)))
    k = ('call', key, tuple(ident))
    nm = symnp.OPAQUE.get(k)
    if nm is None:
        nm = symnp.OPAQUE[k] = f'{key}#{len(symnp.OPAQUE)}'
    if raises and E.decide(tm.lt(tm.V(nm + '.raises'), tm.ZERO)):
        raise ValueError('specified')
    if kind == 'bool':
        return mkbool(tm.lt(tm.V(nm), tm.ZERO))
    if kind == 'num':
        return SymNum(tm.V(nm), 'f')
    if kind == 'num+':
        E.assume(tm.le(tm.ZERO, tm.V(nm)))
        return SymNum(tm.V(nm), 'f')
    if kind == 'point':
        me = args[0]
        a = me if isinstance(me, symnp.ndarray) else me.point
        return S.mk(W.Point, symnp.ndarray._make(symnp.Buf((a._shape[-1],), 'f', lambda idx: tm.el(nm, [symnp.ix(i) for i in idx]))))
    raise AssertionError(kind)


def run_spec(key, args, kwargs):
    f = SPECS[key]
    if key in CTX.abstract and key in ABSTRACT and not (CTX.mode == 'check' and CTX.spec_depth == 0 and key == CTX.target):
        return run_abstract(key, args, kwargs)
    CTX.used.add(key)
    CTX.spec_depth += 1
    old = CTX.checking
    if CTX.spec_depth > 1 or CTX.mode != 'check':
        CTX.checking = None
    try:
        return f(*args, **kwargs)
    finally:
        CTX.spec_depth -= 1
        CTX.checking = old


def binds(key, args, kwargs):
    try:
        _signature_of(SPECS[key]).bind(*args, **kwargs)
        return True
    except TypeError:
        return False


def dispatch(key, orig, args, kwargs):
    m = CTX.mode
    if m == 'real' or (CTX.spec_depth == 0 and key in CTX.inline and m != 'check'):
        if m == 'verify' and key == CTX.target:
            CTX.armed = False
        return orig(*args, **kwargs)
    if m == 'verify':
        if CTX.spec_depth == 0 and key == CTX.target and CTX.armed:
            CTX.armed = False
            return orig(*args, **kwargs)
    if not binds(key, args, kwargs):
        if m == 'check' or CTX.spec_depth:
            raise Unsupported(f'call of {key} outside its documented signature')
        return orig(*args, **kwargs)
    r = run_spec(key, args, kwargs)
    if m == 'verify' and CTX.spec_depth == 0 and key.endswith('.__init__') and args:
        E.facts.built = getattr(E.facts, 'built', ()) + (args[0],)
    return r


def make_wrapper(key, orig):
    def wrapper(*args, **kwargs):
        return dispatch(key, orig, args, kwargs)
    try:
        functools.update_wrapper(wrapper, orig)
    except Exception:
        pass
    wrapper._skv_key = key
    return wrapper


class Missing(Exception):
    """A function under contract does not exist in the source."""


def install(world):
    """Wrap every contracted public function of the loaded source."""
    objs = world.mods['skspatial.objects']
    missing = []
    for key in list(SPECS):
        owner, _, name = key.rpartition('.')
        if owner and owner[0].isupper():
            cls = getattr(objs, owner, None)
            if cls is None:
                missing.append(key)
                continue
            try:
                raw = inspect.getattr_static(cls, name)
            except AttributeError:
                missing.append(key)
                continue
            if isinstance(raw, classmethod):
                w = classmethod(make_wrapper(key, raw.__func__))
            elif isinstance(raw, staticmethod):
                w = staticmethod(make_wrapper(key, raw.__func__))
            elif isinstance(raw, property):
                missing.append(key)
                continue
            elif callable(raw):
                if getattr(raw, '_skv_key', None) is not None:
                    raw = raw.__wrapped__
                w = make_wrapper(key, raw)
            else:
                missing.append(key)
                continue
            INSTALL.append((cls, name, w))
        else:
            m = world.mods.get('skspatial.' + owner) if owner else None
            f = getattr(m, name, None) if m is not None else None
            if f is None or not callable(f):
                missing.append(key)
                continue
            w = make_wrapper(key, f)
            for mm in world.mods.values():
                for n, v in list(vars(mm).items()):
                    if v is f:
                        setattr(mm, n, w)
    # an attribute found on a base class is wrapped per public class
    for cls, name, w in INSTALL:
        setattr(cls, name, w)
    INSTALL.clear()
    return missing


INSTALL = []
W = types.SimpleNamespace()     # public classes by name
MODS = {}


def setup_world():
    w = loader.World().load_all()
    objs = w.mods['skspatial.objects']
    for n in ('Circle', 'Cylinder', 'Line', 'LineSegment', 'Plane', 'Point', 'Points', 'Sphere', 'Triangle', 'Vector'):
        setattr(W, n, getattr(objs, n, None))
    from . import contracts       # registers the contracts
    contracts.load()
    MODS.clear()
    MODS.update(w.mods)
    W.missing = install(w)
    W.world = w
    STATE.init(w)
    return w


# ----------------------------------------------------------------------------------
# Hidden state of the modules under verification
# ----------------------------------------------------------------------------------
class State:
    """Module globals, class attributes, mutable defaults and closures: restored between paths."""

    def init(self, w):
        self.slots = []
        seen = set()
        for m in w.mods.values():
            self.slots.append((m.__dict__, dict(m.__dict__)))
            for v in list(m.__dict__.values()):
                self.visit(v, seen)
        self.conts = {}
        for d, c in self.slots:
            for v in c.values():
                self.cont(v)
        for f in self.funcs:
            for v in (f.__defaults__ or ()):
                self.cont(v)
            for v in (f.__kwdefaults__ or {}).values():
                self.cont(v)
            for c in (f.__closure__ or ()):
                try:
                    self.cont(c.cell_contents)
                except ValueError:
                    pass
        self.fdicts = [(f, dict(f.__dict__)) for f in self.funcs]
        self.cells = []
        for f in self.funcs:
            for c in (f.__closure__ or ()):
                try:
                    self.cells.append((c, c.cell_contents))
                except ValueError:
                    pass

    funcs = ()

    def visit(self, v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if not self.funcs:
            self.funcs = []
        if isinstance(v, type) and getattr(v, '__module__', '').startswith('skspatial'):
            self.slots.append((v, dict(v.__dict__)))
            for b in v.__mro__:
                if getattr(b, '__module__', '').startswith('skspatial'):
                    self.visit(b, seen)
            for x in list(v.__dict__.values()):
                self.visit(x, seen)
        elif isinstance(v, (classmethod, staticmethod)):
            self.visit(v.__func__, seen)
        elif isinstance(v, types.FunctionType):
            if getattr(v, '__globals__', {}).get('__name__', '').startswith('skspatial') or hasattr(v, '_skv_key'):
                self.funcs.append(v)
                for c in (v.__closure__ or ()):
                    try:
                        self.visit(c.cell_contents, seen)
                    except ValueError:
                        pass
                if hasattr(v, '__wrapped__'):
                    self.visit(v.__wrapped__, seen)

    def cont(self, v):
        if id(v) in self.conts:
            return
        if isinstance(v, (list, set, bytearray)):
            self.conts[id(v)] = (v, type(v)(v))
        elif isinstance(v, dict) and not isinstance(v, types.MappingProxyType):
            if '__builtins__' in v or '__name__' in v:
                return
            self.conts[id(v)] = (v, dict(v))
        elif isinstance(v, ndarray):
            self.conts[id(v)] = (v, (v._buf.wcount, list(v._buf.dense) if v._buf.dense is not None else None,
                                     list(v._buf.writes)))

    def dirty(self):
        """Has the hidden state changed, or is there state that cannot be seen (functools caches)?"""
        for d, c in self.slots:
            cur = d if isinstance(d, dict) else d.__dict__
            if any(k not in cur or cur[k] is not c[k] for k in c if k not in ('__dict__', '__weakref__')) or any(k not in c for k in cur):
                return True
            if any(type(v).__name__ == '_lru_cache_wrapper' for v in c.values()):
                return True
        for f, c in self.fdicts:
            if (f.__dict__.keys() ^ c.keys()) - {'_skv_sig'} or any(f.__dict__[k] is not c[k] for k in c):
                return True
        for c, v in self.cells:
            try:
                if c.cell_contents is not v:
                    return True
            except ValueError:
                return True
        for v, c in self.conts.values():
            if isinstance(v, ndarray):
                if v._buf.wcount != c[0]:
                    return True
            elif isinstance(v, dict):
                if v.keys() != c.keys() or any(v[k] is not c[k] for k in c):
                    return True
            elif v != c if isinstance(v, set) else len(v) != len(c) or any(x is not y for x, y in zip(v, c)):
                return True
        return False

    def restore(self):
        """Put the hidden state back; True when a path had changed it."""
        changed = False
        for d, c in self.slots:
            if isinstance(d, dict):
                if d.keys() != c.keys() or any(d[k] is not c[k] for k in c):
                    changed = True
                    for k in list(d):
                        if k not in c:
                            del d[k]
                    d.update(c)
            else:
                cur = d.__dict__
                for k in list(cur):
                    if k not in c:
                        changed = True
                        try:
                            delattr(d, k)
                        except Exception:
                            pass
                for k, v in c.items():
                    if cur.get(k) is not v and k not in ('__dict__', '__weakref__'):
                        changed = True
                        try:
                            setattr(d, k, v)
                        except Exception:
                            pass
        for f, c in self.fdicts:
            if f.__dict__.keys() != c.keys() or any(f.__dict__[k] is not c[k] for k in c):
                if set(f.__dict__) - {'_skv_sig'} != set(c) - {'_skv_sig'}:
                    changed = True
                f.__dict__.clear()
                f.__dict__.update(c)
        for c, v in self.cells:
            try:
                if c.cell_contents is not v:
                    changed = True
                    c.cell_contents = v
            except ValueError:
                c.cell_contents = v
        for v, c in self.conts.values():
            if isinstance(v, ndarray):
                if v._buf.wcount != c[0]:
                    changed = True
                    v._buf.wcount = c[0]
                    v._buf.writes[:] = c[2]
                    if c[1] is not None:
                        v._buf.dense[:] = c[1]
                    v._buf.memo.clear()
            elif isinstance(v, dict):
                if v.keys() != c.keys() or any(v[k] is not c[k] for k in c):
                    changed = True
                    v.clear()
                    v.update(c)
            elif isinstance(v, set):
                if v != c:
                    changed = True
                    v.clear()
                    v.update(c)
            else:
                if len(v) != len(c) or any(x is not y for x, y in zip(v, c)):
                    changed = True
                    v[:] = c
        return changed


STATE = State()


# ----------------------------------------------------------------------------------
# Relations used by relational contracts and lemmas
# ----------------------------------------------------------------------------------
class Rel:
    """op in {'eq', 'le', 'lt', 'true'}; lhs, rhs numbers (or a formula)."""

    def __init__(self, op, a, b=None, scale=None):
        self.op, self.a, self.b, self.scale = op, a, b, scale

    def formula(self):
        if self.op == 'true':
            return fof(self.a)
        a, b = tof(self.a), tof(self.b)
        if tm.special(a) or tm.special(b):
            return TRUE if (self.op == 'eq' and a is b and a is not tm.NAN) else FALSE
        return dict(eq=tm.eq, le=tm.le, lt=tm.lt)[self.op](a, b)

    def holds(self, tol):
        """Concrete evaluation with a tolerance: True / False / None."""
        if self.op == 'true':
            f = fof(self.a)
            return True if f is TRUE else False if f is FALSE else None
        a, b = tof(self.a), tof(self.b)
        if not (tm.is_c(a) and tm.is_c(b)):
            if tm.special(a) or tm.special(b):
                return self.formula() is TRUE
            return None
        x, y = tm.mp(tm.cv(a)), tm.mp(tm.cv(b))
        s = 1 + abs(x) + abs(y) + (0 if self.scale is None else abs(tm.mp(tm.cv(tof(self.scale)))))
        if self.op == 'eq':
            return abs(x - y) <= tol * s
        return x - y <= tol * s


def Eq(a, b, scale=None):
    return Rel('eq', a, b, scale)


def Le(a, b, scale=None):
    return Rel('le', a, b, scale)


def Lt(a, b, scale=None):
    return Rel('lt', a, b, scale)


def Is(f):
    return Rel('true', f)


# ----------------------------------------------------------------------------------
# Symbolic inputs
# ----------------------------------------------------------------------------------
SeqList = symnp.SeqList


def sym_array(name, shape, kind='f', nn=False):
    def fn(idx):
        t = tm.el(name, [symnp.ix(i) for i in idx])
        return t
    return ndarray._make(Buf(shape, kind, fn, origin=name))


def as_list(a):
    """Nested Python lists of an array with concrete shape, else a symbolic sequence."""
    if all(symnp.is_int(d) for d in a._shape):
        def rec(idx):
            if len(idx) == len(a._shape):
                return SymNum(a._get(idx), a._kind, False)
            return [rec(idx + (i,)) for i in range(a._shape[len(idx)])]
        return rec(())
    if symnp.is_int(a._shape[0]):
        return [SeqList(a[i]) for i in range(a._shape[0])]
    return SeqList(a)


class VarDecl:
    def __init__(self, s):
        name, _, rest = s.partition(':')
        self.name = name
        self.dims = ()
        self.flags = ''
        self.type = rest[0]
        rest = rest[1:]
        if rest.startswith('['):
            d, _, rest = rest[1:].partition(']')
            self.dims = tuple(x.strip() for x in d.split(','))
        self.flags = rest

    def shape(self, dims):
        return tuple(int(d) if d.isdigit() else dims[d] for d in self.dims)


def parse_vars(s):
    return [VarDecl(x) for x in s.split()]


# ----------------------------------------------------------------------------------
# Scenarios
# ----------------------------------------------------------------------------------
class Scn:
    """How a function under contract is exercised: declared inputs, set-up, and the call."""

    def __init__(self, target, vars, call, setup='', dims=None, choices=None, variants=None, pre='', hyps=None,
                 lemmas=None, samples=None, name=None, repeat=False, max_paths=400, concrete_dims=None, nsamples=None,
                 sym=True, tol=None, expect=None, props=(), abstract=()):
        self.target = target
        self.vars = parse_vars(vars)
        self.call = call
        self.setup = setup
        self.dims = dims if dims is not None else [{}]
        self.choices = choices or {}
        self.variants = variants
        self.pre = pre
        self._setup_names = None
        self.lemmas = lemmas or []
        self.samples = samples
        self.name = name or call
        self.repeat = repeat
        self.max_paths = max_paths
        self.concrete_dims = concrete_dims
        self.nsamples = nsamples
        self.sym = sym
        self.tol = tol
        self.expect = expect      # specification expression, when the call itself is not under contract
        self.props = props
        self.abstract = abstract  # callees first tried as uninterpreted functions of their arguments

    def setup_names(self):
        if self._setup_names is None:
            self._setup_names = {n.id for n in ast.walk(ast.parse(self.setup or ''))
                                 if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return self._setup_names

    def choice_list(self):
        names = sorted(self.choices)
        for combo in itertools.product(*[self.choices[n] for n in names]):
            yield dict(zip(names, combo))


SCENARIOS = {}      # target -> [Scn]


def scenario(target, vars, call, **kw):
    s = Scn(target, vars, call, **kw)
    SCENARIOS.setdefault(target, []).append(s)
    s.index = len(SCENARIOS[target]) - 1
    return s


LEMMAS = {}         # property -> [Scn with target None]


def lemma(prop, name, vars, setup, goals, **kw):
    """A consequence of the contracts: goals (Rel or formula expressions) hold after setup."""
    s = Scn(None, vars, 'None', setup=setup, name=name, lemmas=goals, **kw)
    LEMMAS.setdefault(prop, []).append(s)
    s.index = len(LEMMAS[prop]) - 1
    return s


def resolve_dims(spec_):
    """Concrete ints, symbolic '*' (>= 1), '*>=k', or another dimension's expression."""
    out = {}
    for name, v in spec_.items():
        if isinstance(v, int):
            out[name] = v
        else:
            low = 1
            fix = None
            if v.startswith('>='):
                low = int(v[2:])
            elif v.startswith('='):
                fix = int(v[1:])
            t = tm.V(name if v == '*' else f'{name}{v}', integer=True, pos=True)
            N.MIN[t.args[0]] = fix or low
            E.assume(tm.le(tm.C(low), t))
            if fix is not None:
                E.assume(tm.eq(t, tm.C(fix)))
            out[name] = t
    return out


def base_ns():
    ns = {'np': symnp, 'math': symmath, 'S': S, 'Eq': Eq, 'Le': Le, 'Lt': Lt, 'Is': Is, 'loader': loader,
          'Axes': lambda: loader.Axes('ax', loader.LOG), 'Axes3D': lambda: loader.Axes3D('ax3', loader.LOG),
          '__builtins__': W.world.builtins}
    for n in ('Circle', 'Cylinder', 'Line', 'LineSegment', 'Plane', 'Point', 'Points', 'Sphere', 'Triangle', 'Vector'):
        ns[n] = getattr(W, n)
    for m in ('measurement', 'transformation', 'plotting'):
        mm = MODS.get('skspatial.' + m)
        if mm is not None:
            ns[m] = mm
    ns.update(HELPERS)
    return ns


HELPERS = {}        # specification functions usable in lemma goals


def helper(f):
    HELPERS[f.__name__] = f
    return f


def build_vars(scn, dims, kind, form, conc=None, prime=''):
    """Namespace with the declared inputs (symbolic, or the concrete sample conc)."""
    ns = base_ns()
    d = None
    if conc is None:
        d = resolve_dims(dims)
        for n, v in d.items():
            ns[n] = v if isinstance(v, int) else SymNum(v, 'i', False)
    else:
        ns.update({n: v for n, v in dims.items()})
    n_arrays = 0
    for v in scn.vars:
        if v.type in 'vm':
            k = 'f' if 'f' in v.flags else kind
            if conc is None and kind in ('m', 'w'):        # mixed: integers and fractions by turns
                k = 'f' if 'f' in v.flags or (n_arrays % 2 == 0) == (kind == 'w') else 'i'
            n_arrays += 1
            if conc is None:
                nm = ('?' if '?' in v.flags else '') + v.name + prime
                a = sym_array(nm, v.shape(d), k)
                if '?' in v.flags:
                    pass
            else:
                a = conc_array(conc[v.name], v)
            f = form
            if 'A' in v.flags:
                f = 'nd'
            elif 'L' in v.flags:
                f = 'list'
            ns[v.name] = as_list(a) if f == 'list' else a
            if v.name + '_' not in ns:
                ns[v.name + '_'] = a
        else:
            if conc is None:
                k = 'i' if v.type == 'i' else ('f' if 'f' in v.flags or v.type != 's' or kind in ('m', 'w') else kind)
                t = tm.V(v.name + prime, pos='+' in v.flags, nn='0' in v.flags)
                if '+' in v.flags:
                    E.assume(tm.lt(tm.ZERO, t))
                elif '0' in v.flags:
                    E.assume(tm.le(tm.ZERO, t))
                ns[v.name] = SymNum(t, k, False)
            else:
                x = conc[v.name]
                ns[v.name] = x if isinstance(x, str) else SymNum(tm.C(tm.exact(x)) if x == x and abs(x) != float('inf')
                                                                 else tm.C(x), 'i' if isinstance(x, int) else 'f', False)
    return ns


def conc_array(x, v):
    """ndarray (exact rationals) from nested lists of numbers."""
    def flat(y):
        if isinstance(y, list):
            return [z for w in y for z in flat(w)]
        return [y]
    xs = flat(x)
    shape = []
    y = x
    while isinstance(y, list):
        shape.append(len(y))
        y = y[0] if y else None
    kind = 'i' if all(isinstance(z, int) for z in xs) else 'f'
    dense = [(tm.C(tm.exact(z)) if z == z and abs(z) != float('inf') else tm.C(float(z))) for z in xs]
    return ndarray._make(Buf(tuple(shape), kind, dense=dense, fn=None))


# ----------------------------------------------------------------------------------
# Outcomes
# ----------------------------------------------------------------------------------
class Out:
    def __init__(self, kind, v, log=None):
        self.kind = kind       # 'value' | 'raise'
        self.v = v
        self.log = log

    def __repr__(self):
        if self.kind == 'raise':
            return f'raises {type(self.v).__name__}'
        return f'returns {show_value(self.v)}'


def show_value(v):
    try:
        if isinstance(v, ndarray):
            return f'{type(v).__name__}{v._shape}'
        return repr(v)[:200]
    except BaseException:
        return type(v).__name__


def outcome(thunk):
    del loader.LOG[:]
    try:
        v = thunk()
        return Out('value', v, list(loader.LOG))
    except tm.NonFiniteUse as e:
        raise Unsupported(str(e))
    except (P.TooBig, N.NotPoly) as e:
        raise Unsupported(f'{type(e).__name__}')
    except RecursionError as e:
        raise Unsupported('recursion')
    except Exception as e:
        return Out('raise', e, list(loader.LOG))


class Collect:
    """Obligations of one path: (name, formula)."""

    def __init__(self):
        self.obs = []

    def add(self, name, f):
        self.obs.append((name, f))

    def add_iff(self, name, f, g):
        self.obs.append((name, (f, g)))

    def fail(self, name, why):
        self.obs.append((f'{name} [{why}]', FALSE))


SCALARS = (SymNum, int, float, Fraction, SymBool, bool)


def is_boolish(x):
    return isinstance(x, (SymBool, bool))


def is_num(x):
    return isinstance(x, (SymNum, int, float, Fraction)) and not isinstance(x, bool)


def as_array_like(x):
    """A sequence of numbers as an array (loose comparison); anything else unchanged."""
    if isinstance(x, ndarray):
        return symnp.asarray(x)
    if isinstance(x, SeqList):
        return x._skv_arr
    if isinstance(x, (list, tuple)) and x and all(is_num(y) or isinstance(y, (list, tuple, ndarray)) for y in x):
        try:
            return symnp.array(x)
        except (ValueError, TypeError):
            return x
    return x


def compare(name, a, e, C, loose=False):
    """Obligations for actual value a to be the specified value e."""
    if isinstance(e, Skip):
        return
    if loose:
        a, e = as_array_like(a), as_array_like(e)
    if isinstance(e, ndarray):
        if not isinstance(a, ndarray):
            return C.fail(name, f'expected {type(e).__name__}, got {type(a).__name__}')
        if not loose and not getattr(e, 'anycls', False) and type(a).__name__ != type(e).__name__:
            return C.fail(name, f'class {type(a).__name__}, specified {type(e).__name__}')
        if len(a._shape) != len(e._shape):
            return C.fail(name, f'{len(a._shape)} axes, specified {len(e._shape)}')
        for i, (p, q) in enumerate(zip(a._shape, e._shape)):
            if p is not q and p != q:
                C.add(f'{name}.shape[{i}]', tm.eq(symnp.dt_(p), symnp.dt_(q)))
        if 'dimension' in vars(e):
            if 'dimension' not in vars(a):
                return C.fail(name, 'no dimension attribute')
            compare(f'{name}.dimension', vars(a)['dimension'], vars(e)['dimension'], C)
        return elements(name, a, e, C)
    if isinstance(e, (SymBool, bool)):
        if not is_boolish(a):
            return C.fail(name, f'expected a truth value, got {type(a).__name__}')
        return C.add_iff(name, fof(a), fof(e))
    if is_num(e):
        if not is_num(a):
            return C.fail(name, f'expected a number, got {type(a).__name__}')
        return num_ob(name, tof(a), tof(e), C)
    if e is None or isinstance(e, str):
        if type(a) is not type(e) or a != e:
            return C.fail(name, f'got {show_value(a)}, specified {e!r}')
        return C.add(name, TRUE)
    if isinstance(e, (tuple, list)):
        if not isinstance(a, type(e)) or len(a) != len(e):
            return C.fail(name, f'got {show_value(a)}, specified {type(e).__name__} of {len(e)}')
        for i, (x, y) in enumerate(zip(a, e)):
            compare(f'{name}[{i}]', x, y, C, loose)
        return
    if isinstance(e, dict):
        if not isinstance(a, dict) or set(a) != set(e):
            return C.fail(name, f'keywords {sorted(a) if isinstance(a, dict) else a}, specified {sorted(e)}')
        for k in e:
            compare(f'{name}[{k!r}]', a[k], e[k], C, loose)
        return
    if isinstance(e, loader.Patch):
        if not isinstance(a, loader.Patch) or a.kind != e.kind:
            return C.fail(name, 'expected a matplotlib patch')
        return compare(name, a.k, e.k, C, True)
    if isinstance(e, loader.Recorder):
        if type(a) is not type(e) or a._name != e._name:
            return C.fail(name, f'expected {e._name}')
        return C.add(name, TRUE)
    if hasattr(e, '__dict__') and type(e).__module__.startswith('skspatial'):
        if type(a).__name__ != type(e).__name__:
            return C.fail(name, f'class {type(a).__name__}, specified {type(e).__name__}')
        for k, y in vars(e).items():
            try:
                x = getattr(a, k)
            except AttributeError:
                C.fail(f'{name}.{k}', 'attribute missing')
                continue
            compare(f'{name}.{k}', x, y, C)
        return
    if type(e) is object:
        return
    raise Unsupported(f'comparison with {type(e).__name__}')


def num_ob(name, x, y, C):
    if isinstance(x, F) or isinstance(y, F):
        if isinstance(x, F) and isinstance(y, F):
            return C.add_iff(name, x, y)
        x = x if not isinstance(x, F) else tm.ite(x, tm.ONE, tm.ZERO)
        y = y if not isinstance(y, F) else tm.ite(y, tm.ONE, tm.ZERO)
    if tm.special(x) or tm.special(y):
        return C.add(name, TRUE) if x is y else C.fail(name, f'{x} vs {y}')
    C.add(name, tm.eq(x, y, note=False))


MAX_ELEMS = 4000


def elements(name, a, e, C):
    shape = e._shape
    idx = []
    generic = False
    n = 1
    for d, d2 in zip(shape, a._shape):
        if symnp.is_int(d) and symnp.is_int(d2):
            if d != d2:
                return C.fail(name, f'shape {a._shape}, specified {shape}')
            idx.append(list(range(d)))
            n *= d
        elif symnp.is_int(d) or symnp.is_int(d2):      # the equality of the shapes is an obligation of its own
            idx.append(list(range(d if symnp.is_int(d) else d2)))
            n *= len(idx[-1])
        else:
            idx.append([symnp.generic(d, 'e')])
    if n > MAX_ELEMS:
        raise Unsupported('too many elements to compare')
    for i in itertools.product(*idx):
        num_ob(f"{name}[{','.join(str(j) if isinstance(j, int) else '*' for j in i)}]", a._get(i), e._get(i), C)


def compare_out(a, e, C):
    if e.kind == 'value' and isinstance(e.v, Skip):
        return
    if a.kind != e.kind:
        if e.kind == 'raise':
            return C.fail('outcome', f'returned, specified {type(e.v).__name__}')
        return C.fail('outcome', f'raised {type(a.v).__name__}({str(a.v)[:80]}), specified a value')
    if a.kind == 'raise':
        want = type(e.v)
        ok = isinstance(a.v, want)
        if not ok:
            return C.fail('outcome', f'raised {type(a.v).__name__}, specified {want.__name__}')
        return C.add('outcome', TRUE)
    compare('result', a.v, e.v, C)
    compare_log(a.log, e.log, C)


FIGURE = ('plt.subplots', 'plt.figure', 'fig.add_subplot', 'fig.subplots', 'plt.axes', 'fig.gca', 'plt.gcf', 'plt.gca')


def compare_log(la, le, C):
    la = [x for x in la if x[0] not in FIGURE]
    le = [x for x in le if x[0] not in FIGURE]
    if len(la) != len(le):
        return C.fail('plot', f'{[x[0] for x in la]} calls, specified {[x[0] for x in le]}')
    for i, (x, y) in enumerate(zip(la, le)):
        if x[0] != y[0]:
            C.fail(f'plot[{i}]', f'{x[0]}, specified {y[0]}')
            continue
        compare(f'plot[{i}].args', tuple(x[1]), tuple(y[1]), C, True)
        compare(f'plot[{i}].kwargs', x[2], y[2], C, True)


# ----------------------------------------------------------------------------------
# Frames
# ----------------------------------------------------------------------------------
def reach(x, out, seen, path):
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, ndarray):
        out.append((path, 'arr', x, (x._buf, x._buf.wcount, x._snap(), x._shape, type(x).__name__, frozenset(getattr(x, '__dict__', ())))))
    elif isinstance(x, SeqList):
        reach(x._skv_arr, out, seen, path)
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out.append((path, 'list', x, list(x)))
        for i, y in enumerate(x):
            reach(y, out, seen, f'{path}[{i}]')
    elif hasattr(x, '__dict__') and getattr(type(x), '__module__', '').startswith('skspatial') \
            and not isinstance(x, (type, types.FunctionType)):
        out.append((path, 'obj', x, dict(vars(x))))
        for k, y in vars(x).items():
            reach(y, out, seen, f'{path}.{k}')


def snapshot(ns, names):
    out, seen = [], set()
    for n in names:
        reach(ns[n], out, seen, n)
    return out


def frame_obs(snap, C):
    """Obligations: nothing reachable from the inputs has changed."""
    for path, kind, x, s in snap:
        if kind == 'arr':
            buf, wc, g, shape, cls, _ = s
            if buf.wcount != wc:
                idx = [list(range(d)) if symnp.is_int(d) else [symnp.generic(d, 'w')] for d in shape]
                for i in itertools.product(*idx):
                    num_ob(f'frame: {path} unchanged', x._get(i), g(i), C)
            if x._shape != shape or x._buf is not buf:
                C.fail(f'frame: {path}', 'array replaced')
        elif kind == 'list':
            if len(x) != len(s) or any(p is not q for p, q in zip(x, s)):
                C.fail(f'frame: {path}', 'list modified')
        else:
            for k, v in s.items():
                w = vars(x).get(k, Skip)
                if w is v:
                    continue
                if w is Skip:
                    C.fail(f'frame: {path}.{k}', 'attribute removed')
                    continue
                try:
                    compare(f'frame: {path}.{k} unchanged', w, v, C)
                except Unsupported:
                    C.fail(f'frame: {path}.{k}', 'attribute replaced')


# ----------------------------------------------------------------------------------
# Running a scenario symbolically
# ----------------------------------------------------------------------------------
class Report:
    def __init__(self, scn, dims, variant, choice):
        self.scn, self.dims, self.variant, self.choice = scn, dims, variant, choice
        self.paths = 0
        self.value_paths = 0
        self.raise_paths = 0
        self.skipped = 0
        self.obs = 0
        self.discharged = 0
        self.by = {}
        self.failed = []        # (name, why, model, path decisions)
        self.unsupported = None
        self.suspect = []
        self.state_changed = False
        self.used = set()
        self.time = 0.0

    def label(self):
        d = ','.join(f'{k}={v}' for k, v in self.dims.items())
        c = ','.join(f'{k}={v}' for k, v in self.choice.items())
        return f"{self.scn.target or 'lemma'}: {self.scn.name} [{d}] {'/'.join(self.variant)} {c}".strip()


def compile_cached(src, mode):
    k = (src, mode)
    c = _code.get(k)
    if c is None:
        c = _code[k] = compile(src, '<scenario>', mode)
    return c


_code = {}


def choice_ns(ns, choice):
    for k, v in choice.items():
        ns[k] = eval(compile_cached(v, 'eval'), ns) if isinstance(v, str) else v


def run_symbolic(scn, dims, variant, choice, deadline=None):
    """The run, with the callees of scn.abstract uninterpreted as far as the obligations allow."""
    if not scn.abstract:
        return run_symbolic_(scn, dims, variant, choice, deadline)
    keys = tuple(scn.abstract)
    ladder = [keys] + ([tuple(k for k in keys if k != z) for z in reversed(keys)] if len(keys) > 1 else [])
    if len(keys) > 2:
        ladder += [(k,) for k in keys]
    t, suspect = 0.0, []
    for names in ladder + [()]:
        CTX.abstract = frozenset(names)
        try:
            r = run_symbolic_(scn, dims, variant, choice, deadline)
        finally:
            CTX.abstract = frozenset()
        t += r.time
        r.time = t
        if not (r.failed or r.unsupported):
            return r
        if r.failed and names:
            suspect = suspect or r.failed
    if r.unsupported and not r.failed:
        r.suspect = suspect      # failed with callees uninterpreted, and out of reach otherwise
    return r


def run_symbolic_(scn, dims, variant, choice, deadline=None):
    rep = Report(scn, dims, variant, choice)
    t0 = time.time()
    kind, form = variant
    CTX.used = set()
    PR._feas_budget[0] = 400
    tm.CONCRETE[0] = False
    E.feasible = PR.feasible_hook

    def one():
        try:
            return path_body(scn, dims, kind, form, choice, rep)
        finally:
            CTX.mode = 'real'
            if STATE.restore():
                rep.state_changed = True

    try:
        for _ in E.explore(one, max_paths=scn.max_paths):
            if deadline is not None and time.time() > deadline:
                raise Unsupported('time limit')
    except Unsupported as e:
        rep.unsupported = f'{type(e).__name__}: {e}'
    except (P.TooBig, N.NotPoly, tm.NonFiniteUse) as e:
        rep.unsupported = type(e).__name__
    finally:
        CTX.mode = 'real'
        CTX.spec_depth = 0
    rep.used = set(CTX.used)
    rep.time = time.time() - t0
    return rep


def split_pre(scn, ns):
    """Preconditions on the inputs alone (assumed before the set-up runs), and the others."""
    early, late = [], []
    pre = scn.pre or []
    for p in ([pre] if isinstance(pre, str) else pre):
        names = {n.id for n in ast.walk(ast.parse(p, mode='eval')) if isinstance(n, ast.Name)}
        (late if names & scn.setup_names() else early).append(p)
    return early, late


def path_body(scn, dims, kind, form, choice, rep):
    ns = build_vars(scn, dims, kind, form)
    CTX.mode = 'stub'
    CTX.spec_depth = 0
    try:
        choice_ns(ns, choice)
        early, late = split_pre(scn, ns)
        for p in early:
            E.assume(fof(eval(compile_cached(p, 'eval'), ns)))
        if scn.setup:
            exec(compile_cached(scn.setup, 'exec'), ns)
        for p in late:
            E.assume(fof(eval(compile_cached(p, 'eval'), ns)))
    except Exception as e:
        rep.skipped += 1
        rep.last_skip = repr(e)
        if scn.target is None:
            import os
            if os.environ.get('SKV_DEBUG'):
                raise
        return
    if scn.target is None:
        rep.paths += 1
        rep.value_paths += 1
        C = Collect()
        for g in scn.lemmas:
            r = eval(compile_cached(g, 'eval'), ns)
            for rel in (r if isinstance(r, list) else [r]):
                C.add(g, rel.formula() if isinstance(rel, Rel) else fof(rel))
        discharge(C, rep, ns, steps=True)
        return
    names = [v.name for v in scn.vars] + [k for k in ns if k not in ('__builtins__',) and k[0] != '_']
    snap = snapshot(ns, dict.fromkeys(n for n in names if n in ns and not inspect.ismodule(ns[n])))
    n_out = 2 if scn.repeat or CTX.history else 1
    C = Collect()
    fresh0, prev = E.fresh, None
    code = compile_cached(scn.call, 'eval')
    xcode = code if scn.expect is None else compile_cached(scn.expect, 'eval')
    for rnd in range(n_out):
        CTX.mode = 'verify'
        CTX.target = scn.target
        CTX.armed = True
        CTX.spec_depth = 0
        if CTX.history:
            E.fresh = fresh0          # dependencies are functions of their arguments
        act = outcome(lambda: eval(code, ns))
        if CTX.armed and scn.expect is None:
            raise Unsupported(f'the scenario never reaches {scn.target}')
        frame_obs(snap, C)
        if CTX.history:
            if prev is not None:
                compare_out(act, prev, C)
            if prev is None and (new_attributes(snap) or STATE.dirty()):
                after_update(scn, dims, kind, form, choice, ns, code, C)
                exp = act
                break
            prev = exp = act
            if act.kind == 'raise':
                break
            continue
        CTX.mode = 'check'
        CTX.actual = act
        CTX.spec_depth = 0
        CTX.target = scn.target
        CTX.obligations = []
        exp = outcome(lambda: eval(xcode, ns))
        for n, rel in CTX.obligations:
            C.add(n, rel.formula() if isinstance(rel, Rel) else fof(rel))
        compare_out(act, exp, C)
    rep.paths += 1
    if exp.kind == 'value':
        rep.value_paths += 1
    else:
        rep.raise_paths += 1
    discharge(C, rep, ns, f'{act!r} / specified: {exp!r}')


def new_attributes(snap):
    """Has a call left something new on an object reachable from the operands?"""
    for path, kind, x, s in snap:
        if kind == 'obj' and any(k not in s for k in vars(x)):
            return True
        if kind == 'arr' and hasattr(x, '__dict__') and set(vars(x)) - s[5]:
            return True
    return False


class NoCopy(Exception):
    pass


def copy_into(x, y, seen):
    """Give x (reused in place) the value of y; the value to use in its place otherwise."""
    if x is y or id(x) in seen:
        return x
    if isinstance(x, ndarray):
        seen.add(id(x))
        if not isinstance(y, ndarray) or x._shape != y._shape or x._kind != y._kind:
            raise NoCopy
        x[...] = y
        return x
    if hasattr(x, '__dict__') and getattr(type(x), '__module__', '').startswith('skspatial') and not isinstance(x, (type, types.FunctionType)):
        seen.add(id(x))
        if type(x) is not type(y):
            raise NoCopy
        for k in list(vars(y)):
            if k in vars(x):
                v = copy_into(vars(x)[k], vars(y)[k], seen)
                if v is not vars(x)[k]:
                    setattr(x, k, v)
        return x
    return y


def after_update(scn, dims, kind, form, choice, ns, code, C):
    """The call has left state behind: after the operands get new values in place, it must give
    what it gives on fresh operands with these values."""
    ns2 = build_vars(scn, dims, kind, form, prime="'")
    CTX.mode = 'stub'
    try:
        choice_ns(ns2, choice)
        early, late = split_pre(scn, ns2)
        for p in early:
            E.assume(fof(eval(compile_cached(p, 'eval'), ns2)))
        if scn.setup:
            exec(compile_cached(scn.setup, 'exec'), ns2)
        for p in late:
            E.assume(fof(eval(compile_cached(p, 'eval'), ns2)))
    except Exception:
        return
    base = base_ns()
    seen = set()
    ns3 = dict(ns)
    try:
        for k in ns2:
            if k in ns3 and k not in base and k != '__builtins__':
                ns3[k] = copy_into(ns3[k], ns2[k], seen)
    except NoCopy:
        return
    CTX.mode = 'verify'
    CTX.target = scn.target
    fresh = E.fresh
    CTX.spec_depth = 0
    CTX.armed = True
    act = outcome(lambda: eval(code, ns3))
    STATE.restore()
    E.fresh = fresh
    CTX.mode = 'verify'
    CTX.spec_depth = 0
    CTX.armed = True
    exp = outcome(lambda: eval(code, ns2))
    compare_out(act, exp, C)


def discharge(C, rep, ns, note='', steps=False):
    infeas = None
    CTX.mode = 'real'
    for name, f in C.obs:
        if name.startswith('hint'):
            # an intermediate fact: used when it can be proved, no obligation of its own
            if not isinstance(f, tuple) and PR.prove(f, E.facts):
                E.facts.assert_(f)
            continue
        rep.obs += 1
        try:
            r = PR.prove_iff(*f, E.facts) if isinstance(f, tuple) else PR.prove(f, E.facts)
        except (P.TooBig, N.NotPoly) as e:
            r = PR.Result(False, 'too-big', why=str(type(e).__name__))
        if not r:
            if infeas is None:
                try:
                    infeas = PR.infeasible(E.facts)
                except (P.TooBig, N.NotPoly):
                    infeas = False
            if infeas:
                r = PR.Result(True, 'infeasible')
        if r and (steps or name.startswith('step')) and not isinstance(f, tuple):
            E.facts.assert_(f)
        if r:
            rep.discharged += 1
            rep.by[r.how] = rep.by.get(r.how, 0) + 1
        else:
            model = r.model
            rep.failed.append(dict(name=name, why=f'{r.how}: {r.why}', note=note, model=named_model(model),
                                   path=[f'{tm.show_f(x)[:200]}' for x in E.facts.forms][:40]))


def named_model(model):
    if not model:
        return None
    out = {}
    for i, v in model.items():
        A = N.atoms[i]
        if A.kind == 'v':
            out[A.data] = v
        elif A.kind == 'el':
            ixs = []
            for p in A.data[1]:
                if P.is_const(p):
                    ixs.append(int(P.const_val(p)))
                else:
                    ixs = None
                    break
            if ixs is not None:
                out[(A.data[0], tuple(ixs))] = v
    return out


# ----------------------------------------------------------------------------------
# Vocabulary of the specifications
# ----------------------------------------------------------------------------------
class SpecLib:
    """Mathematical vocabulary; objects are built without running library constructors."""

    def A(self, x):
        """The plain array of an array_like."""
        if isinstance(x, ndarray):
            return symnp.asarray(x)
        return symnp.array(x)

    def mk(self, cls, a):
        a = self.A(a)
        # a result owns its storage
        r = ndarray._make(Buf(a._shape, a._kind, a._snap()), cls=cls)
        n = a._shape[0] if len(a._shape) == 1 else a._shape[1]
        vars(r)['dimension'] = symnp.udim(n)
        return r

    def point(self, a):
        return self.mk(W.Point, a)

    def vector(self, a):
        return self.mk(W.Vector, a)

    def points(self, a):
        return self.mk(W.Points, a)

    def loose(self, a):
        """An array of any array class."""
        a = self.A(a)
        r = ndarray._make(Buf(a._shape, a._kind, a._snap()))
        r.anycls = True
        return r

    def like(self, obj, a):
        return self.mk(type(obj), a)

    def dim(self, x):
        return symnp.udim(self.A(x)._shape[-1])

    def req(self, c, exc=ValueError):
        """Raise unless c."""
        if not c:
            raise exc('specified')

    def dot(self, a, b):
        return symnp.dot(self.A(a), self.A(b))

    def sq(self, a):
        return self.dot(a, a)

    def norm(self, a):
        return symlinalg.norm(self.A(a))

    def sqrt(self, x):
        from .scalar import ssqrt
        return SymNum(ssqrt(tof(x), True), 'f')

    def abs(self, x):
        return abs(x)

    def pad3(self, a):
        """Coordinates padded with zeros to three (ValueError above three dimensions)."""
        a = self.A(a)
        d = a._shape[0]
        if not symnp.is_int(d):
            if symnp.dlt(3, d):
                raise ValueError('dimension above three')
            raise NeedCoords('padding in Gram mode')
        if d > 3:
            raise ValueError('dimension above three')
        return [a[i] for i in range(d)] + [0] * (3 - d)

    def cross(self, a, b):
        """3D cross product of the padded vectors, as a list of three numbers."""
        x, y = self.pad3(a), self.pad3(b)
        return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]

    def dot3(self, x, y):
        return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]

    def sign(self, x):
        """-1, 0 or 1."""
        if x > 0:
            return 1
        if x < 0:
            return -1
        return 0

    def isclose(self, a, b, rel_tol=Fraction(1, 10 ** 9), abs_tol=0):
        return symmath.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def obj(self, cls, **attrs):
        o = object.__new__(cls)
        vars(o).update(attrs)
        return o

    def line(self, p, d):
        p, d = self.point(p), self.vector(d)
        return self.obj(W.Line, point=p, vector=d, direction=d, dimension=p.dimension)

    def plane(self, p, n):
        p, n = self.point(p), self.vector(n)
        return self.obj(W.Plane, point=p, vector=n, normal=n, dimension=p.dimension)

    def arr1(self, x):
        """Coordinates of a point or vector (ValueError unless one-dimensional and not empty)."""
        a = self.A(x)
        self.req(a.ndim == 1)
        self.req(symnp.size(a) > 0)
        return a

    def parallel(self, a, b, **kw):
        """The library's documented notion: a zero vector, or |cos| close to 1."""
        aa, bb = self.sq(a), self.sq(b)
        if self.isclose(aa, 0, **kw) or self.isclose(bb, 0, **kw):
            return True
        return self.isclose(abs(self.cos(a, b)), 1, **kw)

    def cos(self, a, b):
        n = self.norm(a) * self.norm(b)
        self.req(n != 0)
        return self.dot(a, b) / n

    def perpendicular(self, a, b, **kw):
        return self.isclose(self.dot(a, b), 0, **kw)

    def proj(self, d, v):
        """Vector projection of v onto d."""
        d = self.A(d)
        return self.dot(d, v) / self.sq(d) * d

    def affrank(self, rows, tol=None):
        """Affine rank of a fixed list of points."""
        rows = [self.A(r) for r in rows]
        for r in rows[1:]:
            self.req(symnp.deq(r._shape[0], rows[0]._shape[0]))
        if tol is None and not tm.CONCRETE[0]:
            return symlinalg.matrix_rank(symnp.array([r - rows[0] for r in rows[1:]]))
        return self.affrank_of(symnp.array(rows), tol)

    def affrank_of(self, a, tol=None):
        """Affine rank of the rows of an array: the rank of the distinct rows less their mean."""
        a = self.A(a)
        if tm.CONCRETE[0]:
            return symlinalg.matrix_rank(a - a[0] if tol is None else self._centred(a), tol=tol)
        if tol is not None and not (CTX.checking == 'Points.affine_rank' or CTX.target == 'Points.affine_rank'):
            return self.opaque_int('affine_rank', a, tol)
        if tol is None and symnp.is_int(a._shape[0]):
            return symlinalg.matrix_rank(a[1:] - a[0]) if a._shape[0] > 1 else 0
        if not (CTX.target == 'Points.affine_rank'):
            return self.opaque_int('affine_rank', a, None)
        return symlinalg.matrix_rank(self._centred(a), tol=tol)

    def _centred(self, a):
        u = symnp.unique(a, axis=0)
        return u - u.sum(axis=0) / u._shape[0] if symnp.is_int(u._shape[0]) else u - u.mean(axis=0)

    def opaque_int(self, name, a, tol):
        # the affine rank of translated points is the same
        about = a if symnp.is_int(a._shape[0]) else a - a.sum(axis=0) / symnp.udim(a._shape[0])
        nm = symnp.opaque_name(name, about, None if tol is None else N.nf(tof(tol)).key())
        r = tm.V(nm, integer=True, nn=True)
        for d in a._shape:
            E.assume(tm.le(r, symnp.dt_(d)))
        if name == 'affine_rank' and (tol is None or E.facts.ev(tm.le(tm.ZERO, tof(tol))) is True):
            # n points have an affine rank of at most n - 1
            E.assume(tm.le(r, tm.sub(symnp.dt_(a._shape[0]), tm.ONE)))
        return SymNum(r, 'i')

    def raises(self, f, exc=ValueError):
        """Whether the call raises exc (lemmas)."""
        try:
            f()
        except exc:
            return True
        return False

    DEFAULT_REL = Fraction(1, 10 ** 9)

    def new(self, cls, x, ndim):
        """The contract of Point, Vector (ndim 1) and Points (ndim 2)."""
        a = self.A(x)
        self.req(a.ndim == ndim)
        self.req(symnp.size(a) != 0)
        self.req(symnp.isfinite(a).all())
        return self.mk(cls, a)

    def eqarr(self, a, b):
        """Elementwise equality, as a list of relations."""
        a, b = self.A(a), self.A(b)
        idx = []
        if a.ndim != b.ndim:
            return [Is(False)]
        for d, d2 in zip(a._shape, b._shape):
            if symnp.is_int(d) and symnp.is_int(d2):
                if d != d2:
                    return [Is(False)]
                idx.append(list(range(d)))
            else:
                if not symnp.deq(d, d2):
                    return [Is(False)]
                idx.append(list(range(d if symnp.is_int(d) else d2)) if symnp.is_int(d) or symnp.is_int(d2) else [symnp.generic(d, 'e')])
        return [Eq(symnp.box(a._get(i), a._kind), symnp.box(b._get(i), b._kind)) for i in itertools.product(*idx)]

    def any(self, name, dim, example):
        """An arbitrary vector (universally quantified in a clause); concretely the example."""
        if tm.CONCRETE[0]:
            return self.A(example)
        nm = E.fresh_name(name)
        return ndarray._make(symnp.Buf((dim,), 'f', lambda i: tm.el(nm, [symnp.ix(j) for j in i])))

    def concrete(self):
        return tm.CONCRETE[0]

    def assume(self, rel):
        E.assume(rel.formula() if isinstance(rel, Rel) else fof(rel))

    def about_rank(self, a, q):
        """Points of affine rank at least one (asked by the caller) are not all equal to q."""
        if not tm.CONCRETE[0]:
            d = a - q
            E.assume(tm.lt(tm.ZERO, tof(symnp.sum(d * d))))

    def have(self, rel, deep=True):
        """Prove an intermediate fact and keep it (ignored when it cannot be proved)."""
        if tm.CONCRETE[0]:
            return
        f = rel.formula() if isinstance(rel, Rel) else fof(rel)
        if PR.prove(f, E.facts, deep=deep):
            E.facts.assert_(f)

    def built(self, name):
        """The objects of the class that the code under scrutiny has constructed on this path."""
        return [] if tm.CONCRETE[0] else [o for o in getattr(E.facts, 'built', ()) if type(o).__name__ == name]

    def when_minimised(self, f):
        """Run f on the result x of every scipy.optimize.minimize call of this path."""
        if not tm.CONCRETE[0]:
            E.facts.on_minimise = getattr(E.facts, 'on_minimise', ()) + (f,)

    def known(self, c):
        return E.facts.ev(fof(c)) is True

    def index(self, a, hint='i'):
        """Some row number of the array."""
        d = symnp.dt_(a._shape[0])
        k = E.fresh_var(hint, integer=True, nn=True)
        E.facts.idx[k.args[0]] = d
        E.assume(tm.lt(k, d))
        return SymNum(k, 'i')

    def indices(self, a):
        """Some position in the array."""
        out = []
        for d in a._shape:
            k = E.fresh_var('i', integer=True, nn=True)
            E.facts.idx[k.args[0]] = symnp.dt_(d)
            E.assume(tm.lt(k, symnp.dt_(d)))
            out.append(SymNum(k, 'i'))
        return tuple(out)

    def extremes_at(self):
        """Where the minima and maxima of this path are attained."""
        return [SymNum(m[4], 'i') for m in (getattr(E.facts, 'extremes', None) or {}).values()]

    def extremes_bound(self, *idx):
        """The minima and maxima of this path bound the elements with these numbers."""
        if not tm.CONCRETE[0]:
            for i in idx:
                symnp.extreme_bounds(tof(i))

    def lstsqs(self, k):
        """The least-squares solutions with k unknowns of this path."""
        if tm.CONCRETE[0]:
            return []
        out = []
        for a, b, x, g in (getattr(E.facts, 'lstsqs', None) or {}).values():
            if len(x) == k:
                out.append([SymNum(t, 'f') for t in x])
        return out

    def opaque_num(self, name):
        return SymNum(E.fresh_var(name), 'f')

    def about_svds(self, *vs):
        if not tm.CONCRETE[0]:
            for v in vs:
                symlinalg.about_svds(v)

    def same(self, f, g):
        return Is(mkbool(tm.iff(fof(f), fof(g))))

    # -------------------------------------------------------- relational contracts
    def relational(self, fresh, clauses, concrete=None):
        """A contract given by clauses on the result.

        fresh() builds an unconstrained result; clauses(r) lists (name, relation); concrete() is the exact
        result on concrete inputs, where there is one.
        Clauses named 'step...' may be used for the ones that follow; 'hint...' are used when they can be proved.
        """
        if concrete is not None and tm.CONCRETE[0]:
            return concrete()
        if CTX.mode == 'check' and CTX.spec_depth == 1:
            act = CTX.actual
            if act.kind == 'raise':
                if CTX.obligations is not None:
                    CTX.obligations.append((f'outcome [raised {type(act.v).__name__}: {str(act.v)[:80]}; '
                                            f'specified a value]', FALSE))
                return Skip(None)
            try:
                cl = clauses(act.v)
            except (AttributeError, TypeError, IndexError, KeyError) as e:
                CTX.obligations.append((f'result [not of the specified form: {e}]', FALSE))
                return Skip(act.v)
            CTX.obligations.extend(x for x in cl if not (tm.CONCRETE[0] and x[0].startswith('hint')))
            return Skip(act.v)
        if tm.CONCRETE[0]:
            raise Unsupported('relational contract in a concrete run')
        r = fresh()
        for n, c in clauses(r):
            E.assume(c.formula() if isinstance(c, Rel) else fof(c))
        return r


S = SpecLib()
