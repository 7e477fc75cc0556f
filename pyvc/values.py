"""Symbolic values used by the extractor."""
import itertools
import weakref
from .term import *
from fractions import Fraction

_serial = itertools.count(1)


class OutOfReach(Exception):
    """the code uses something the extractor has no rule for"""


class Retry(Exception):
    """an object created before the current loop is mutated inside it"""

    def __init__(self, obj):
        self.obj = obj


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, etype, args=()):
        self.etype = etype
        self.eargs = args

    def __str__(self):
        return 'raises %s' % getattr(self.etype, '__name__', self.etype)


def isconst(t):
    return isinstance(t, T) and t.op == 'const'


def dim(x):
    return lift(x) if not isinstance(x, T) else x


def as_py(t):
    """concrete python number of a constant term, else the term"""
    if isinstance(t, T) and t.op == 'const':
        v = t.args[0]
        if isinstance(v, bool):
            return v
        if t.sort == 'I':
            return int(v)
        return float(v) if Fraction(float(v)) == v else t
    return t


class Arr:
    """array with symbolic shape; element (i, j, ...) is body[vars := i, j, ...]"""

    def __init__(self, shape, fn=None, vars=None, body=None, kind='np', sparse=False):
        self.shape = tuple(dim(s) for s in shape)
        self.kind = kind
        self.serial = next(_serial)
        self.views = None            # live views of this array (weak)
        self.base = None             # array this one is a view of
        self.sym = False             # purely symbolic primitive
        if fn is not None:
            vars = tuple(fresh('x') for _ in self.shape)
            body = lift(fn(*vars))
        self.vars = vars
        self.body = body

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        assert len(idx) == len(self.vars), (idx, self.vars)
        return subst(self.body, {v: lift(i) for v, i in zip(self.vars, idx)})

    def like(self, fn, shape=None, kind=None):
        return Arr(self.shape if shape is None else shape, fn, kind=kind or self.kind)

    def copy(self):
        return Arr(self.shape, vars=self.vars, body=self.body, kind=self.kind)

    def subst(self, m):
        a = Arr([subst(s, m) for s in self.shape], vars=self.vars, body=subst(self.body, {k: v for k, v in m.items() if k not in self.vars}), kind=self.kind)
        a.sym = self.sym
        return a

    def view_of(self, other):
        self.base = other
        if other.views is None:
            other.views = weakref.WeakSet()
        other.views.add(self)
        return self

    def __repr__(self):
        return '%s%r[%s -> %s]' % (self.kind, self.shape, ','.join(map(str, self.vars)), self.body)


class Filt:
    """one-dimensional selection: elements elem(v) for v in [0, n) with cond(v), in order"""

    def __init__(self, n, var, cond, elem):
        self.n, self.var, self.cond, self.elem = dim(n), var, cond, elem

    def map(self, f):
        return Filt(self.n, self.var, self.cond, f(self.elem))

    def subst(self, m):
        return type(self)(subst(self.n, m), self.var, subst(self.cond, m), vsubst(self.elem, m))


class FSeg(Filt):
    """a filtered segment of a list: the elements are list items"""


class Poly:
    """np.poly1d with body a polynomial in the variable x"""

    def __init__(self, x, body):
        self.x, self.body = x, lift(body)

    def at(self, t):
        return subst(self.body, {self.x: lift(t)})

    def subst(self, m):
        return Poly(self.x, subst(self.body, m))


class Seg:
    """n repetitions of the items elems(var), var = 0..n-1, inside a list"""

    def __init__(self, n, var, elems):
        self.n, self.var, self.elems = dim(n), var, list(elems)

    @property
    def nested(self):
        return any(isinstance(e, (Seg, FSeg)) for e in self.elems)

    @property
    def count(self):
        if not self.nested:
            return mul(self.n, len(self.elems))
        c = ZERO
        for e in self.elems:
            if isinstance(e, FSeg):
                raise OutOfReach('length of a filtered list')
            c = add(c, e.count if isinstance(e, Seg) else 1)
        return sum_(self.var, ZERO, self.n, c) if self.var in fv(c) else mul(self.n, c)

    def at(self, k, j=0):
        return vsubst(self.elems[j], {self.var: lift(k)})

    def subst(self, m):
        m = {k: v for k, v in m.items() if k is not self.var}
        return Seg(subst(self.n, m), self.var, [vsubst(e, m) for e in self.elems])


class Rec:
    """an uninterpreted python value: name applied to values; cls is its python class, spec its behaviour
    (attribute name -> function of the interpreter and the value; '__call__', '__getitem__', '__contains__', '__len__'
    additionally take the arguments)"""
    symbolic_value = True

    def __init__(self, name, args=(), cls=None, spec=None):
        self.name, self.args, self.cls, self.spec = name, tuple(args), cls, spec or {}

    def subst(self, m):
        return Rec(self.name, [vsubst(a, m) for a in self.args], self.cls, self.spec)

    def map(self, f):
        return Rec(self.name, [f(a) for a in self.args], self.cls, self.spec)

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))


class SDct:
    """a dictionary made from a symbolic sequence of pairs"""
    symbolic_value = True

    def __init__(self, pairs):
        self.pairs = pairs

    def subst(self, m):
        return SDct(vsubst(self.pairs, m))

    def map(self, f):
        return SDct(f(self.pairs))


def has_seg(v):
    """a list or tuple with parts of symbolic length"""
    return isinstance(v, (Lst, tuple)) and any(isinstance(x, (Seg, FSeg)) for x in v)


class Lst(list):
    """a python list; items may be Seg"""

    def __init__(self, *a):
        super().__init__(*a)
        self.serial = next(_serial)
        self.rec = None      # recording of appended items while a loop body runs

    def symbolic(self):
        return any(isinstance(x, (Seg, FSeg)) for x in self)

    __hash__ = object.__hash__


class Cat:
    """concatenation of n blocks of varying width along the last axis; block k is elem(k), an Arr"""

    def __init__(self, n, var, elem):
        self.n, self.var, self.elem = dim(n), var, elem
        self.ndim = elem.ndim

    def at(self, k):
        return vsubst(self.elem, {self.var: lift(k)})

    def subst(self, m):
        return Cat(subst(self.n, m), self.var, vsubst(self.elem, m))


class Dct(dict):
    def __init__(self, *a):
        super().__init__(*a)
        self.serial = next(_serial)
        self.log = None      # writes under symbolic keys: see DictLog
        self.seen = None     # the last membership test: (key, truth)
        self.groups = None   # once iterated: (number of keys, key(h), values(h)) and the values assigned since

    __hash__ = object.__hash__


class SIter:
    """symbolic sequence: length n, element function"""

    def __init__(self, n, at):
        self.n, self.at = dim(n), at


class Obj:
    """instance of a repository class"""

    def __init__(self, cls, attrs=None, whole=False):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.whole = whole      # built by the code itself: it has no other attributes
        self.serial = next(_serial)

    def __repr__(self):
        return '<%s %s>' % (self.cls.__name__, list(self.attrs))


class Closure:
    def __init__(self, node, env, fnglobals, name, defaults, kwdefaults, frame=None):
        self.node, self.env, self.globals, self.name = node, env, fnglobals, name
        self.defaults, self.kwdefaults = defaults, kwdefaults


class BoundMethod:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Model_:
    """a modelled callable"""

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


class Opq:
    """an opaque object with an explicit table of attributes (values or Model_)"""

    def __init__(self, name, attrs=None, getter=None):
        self.name = name
        self.attrs = dict(attrs or {})

    def __repr__(self):
        return '<opaque %s>' % self.name


SYMBOLIC = (T, Arr, Filt, Poly, Seg, SIter, Obj, Closure, BoundMethod, Opq, Cat, Rec, SDct)


def is_symbolic(v):
    if isinstance(v, SYMBOLIC) or getattr(v, 'symbolic_value', False) is True:
        return True
    if isinstance(v, (list, tuple)):
        return any(is_symbolic(x) for x in v)
    if isinstance(v, dict):
        return any(is_symbolic(x) for x in v.values()) or bool(getattr(v, 'log', None))
    return False


def plain(v):
    """Lst/Dct -> builtin containers, for native calls"""
    if isinstance(v, Lst):
        return [plain(x) for x in v]
    if type(v) is tuple:
        return tuple(plain(x) for x in v)
    if isinstance(v, Dct):
        return {k: plain(x) for k, x in v.items()}
    return v


def vsubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, (Arr, Filt, Poly, Seg, Cat, Rec, SDct)):
        return v.subst(m)
    if isinstance(v, Lst):
        return Lst([vsubst(x, m) for x in v])
    if isinstance(v, list):
        return [vsubst(x, m) for x in v]
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, Obj):
        o = Obj(v.cls, {k: vsubst(x, m) for k, x in v.attrs.items()})
        return o
    if isinstance(v, Dct):
        return Dct({k: vsubst(x, m) for k, x in v.items()})
    return v


def mentions(v, atoms):
    """does the value mention one of the variables / function names"""
    names = {a for a in atoms if isinstance(a, str)}
    vs = {a for a in atoms if isinstance(a, T)}

    def go(x):
        if isinstance(x, T):
            return bool(fv(x) & vs) or bool(ufs(x) & names)
        if isinstance(x, Arr):
            return go(x.body) or any(go(s) for s in x.shape)
        if isinstance(x, Poly):
            return go(x.body)
        if isinstance(x, Filt):
            return go(x.n) or go(x.cond) or go(x.elem)
        if isinstance(x, Cat):
            return go(x.n) or go(x.elem)
        if isinstance(x, Seg):
            return go(x.n) or any(go(e) for e in x.elems)
        if isinstance(x, (list, tuple)):
            return any(go(e) for e in x)
        if isinstance(x, dict):
            return any(go(e) for e in x.values())
        if isinstance(x, Obj):
            return any(go(e) for e in x.attrs.values())
        if isinstance(x, Rec):
            return any(go(e) for e in x.args)
        if isinstance(x, SDct):
            return go(x.pairs)
        return False
    return go(v)
