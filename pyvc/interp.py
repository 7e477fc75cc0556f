"""Extraction: symbolic interpretation of the AST of the real functions."""
import ast
import os
import sys
import builtins
import inspect
import operator
import textwrap
import types
import functools
from fractions import Fraction
import numpy as np
from .term import *
from . import term as tm
from . import ring
from .prove import Ctx, solve_eq, simp
from .values import *

MAX_PATHS = 400
_src_cache = {}


def fn_node(fn):
    """FunctionDef / Lambda node of a real function, parsed from its current source file"""
    key = fn.__code__
    if key in _src_cache:
        return _src_cache[key]
    fname = fn.__code__.co_filename
    mod = _module_ast(fname)
    want = fn.__code__.co_firstlineno
    best = None
    for n in ast.walk(mod):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            first = n.lineno
            if isinstance(n, ast.FunctionDef):
                if n.decorator_list:
                    first = min(first, min(d.lineno for d in n.decorator_list))
                if n.name != fn.__name__:
                    continue
            elif fn.__name__ != '<lambda>':
                continue
            if first == want:
                best = n
    if best is None:
        raise OutOfReach('source of %s not found' % fn)
    _src_cache[key] = best
    return best


_mods = {}


def _module_ast(fname):
    if fname not in _mods:
        with open(fname) as f:
            _mods[fname] = ast.parse(f.read(), fname)
    return _mods[fname]


_stored = {}


def stored_attrs(cls):
    """names of the attributes the methods of a class store"""
    if cls not in _stored:
        names = set()
        for c in cls.__mro__:
            m = sys.modules.get(c.__module__)
            if c is object or getattr(m, '__file__', None) is None or not m.__file__.endswith('.py'):
                continue
            for n in ast.walk(_module_ast(m.__file__)):
                if isinstance(n, ast.ClassDef) and n.name == c.__name__:
                    names.update(a.attr for a in ast.walk(n) if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store))
        _stored[cls] = names
    return _stored[cls]


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class MaybeUnbound:
    def __init__(self, v, cond):
        self.v, self.cond = v, cond


# data a write of the caller is meant to change; their contracts describe the state afterwards
DATA = {'v', 'a', 'master', 'storage', 'dirty', 'master_cached', 'priority_object_map', 'castmaster'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'setdefault', 'update', 'add', 'clear', 'remove', 'discard', 'sort', 'reverse', 'appendleft'}
_kept = {}


def kept(node):
    """what a function changes beyond its local variables: pairs of a name (not local, or the first
    parameter) and the attribute of it (None: the value itself), and the parameters it changes"""
    if node in _kept:
        return _kept[node]
    a = node.args
    params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]]
    body = list(walk_fn(node))
    outer = {x for n in body if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    local = (set(params) | {n.id for n in body if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
             | {n.name for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}) - outer
    alias = {}

    def path(e):
        at = None
        while True:
            if isinstance(e, ast.Attribute):
                at, e = e.attr, e.value
            elif isinstance(e, ast.Subscript):
                e = e.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('setdefault', 'get'):
                e = e.func.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('type', 'vars', 'getattr') and e.args:
                at, e = '<%s>' % e.func.id, e.args[0]
            else:
                break
        return (e.id, at) if isinstance(e, ast.Name) else None
    for n in body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            p = path(n.value)
            if p is not None and (p[0] not in local or (p[1] is not None and p[0] in params)):
                alias[n.targets[0].id] = p
    out = set()

    def changed(e, whole=False):
        p = path(e)
        if p is None:
            return
        if p[0] in alias and (p[1] is not None or not whole):
            p = alias[p[0]]
        if p[0] not in local or p[0] in params:
            out.add(p)
    for n in body:
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            changed(n if isinstance(n, ast.Attribute) else n.value)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in outer:
            out.add((n.id, None))
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                changed(f.value)
            elif isinstance(f, ast.Name) and f.id == 'setattr' and n.args:
                p = path(n.args[0])
                if p is not None and (p[0] not in local or p[0] in params):
                    out.add((p[0], '<setattr>'))
    defaults = dict(zip([p.arg for p in a.posonlyargs + a.args][::-1], a.defaults[::-1]))
    defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    shared = {k for k, d in defaults.items() if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call))}
    _kept[node] = (out, local, shared)
    return _kept[node]


class Frame:
    done = False        # the call it belongs to has returned

    def __init__(self, globals_, parent=None):
        self.vars = {}
        self.globals = globals_
        self.parent = parent        # enclosing Frame (closures)
        self.cls = None
        self.self_ = None


class Decisions:
    def __init__(self, script=()):
        self.script = list(script)
        self.pos = 0
        self.path = []

    def next_script(self):
        s = self.script[:len(self.path)]
        while s and s[-1] is False:
            s.pop()
        if not s:
            return None
        s[-1] = False
        return s


class Ph:
    """placeholder for a value carried around a loop"""

    def __init__(self, init, sort=None):
        self.init = init
        self.atoms = []
        if isinstance(init, Arr):
            self.name = 'PH%d' % next(_phc)
            self.value = Arr(init.shape, lambda *i: app(self.name, *i, sort=sort or init.body.sort), kind=init.kind)
            self.atoms = [self.name]
        elif isinstance(init, Poly):
            self.name = 'PH%d' % next(_phc)
            self.value = Poly(init.x, app(self.name, init.x))
            self.atoms = [self.name]
        elif isinstance(init, bool) or (isinstance(init, T) and init.sort == 'B'):
            v = fresh('ph', 'B')
            self.value = v
            self.atoms = [v]
        elif isinstance(init, (int, float, T, np.number)):
            s = sort or lift(init).sort
            v = fresh('ph', s)
            self.value = v
            self.atoms = [v]
        else:
            self.value = None


_phc = itertools.count()


class Blocked:
    """a loop-carried value of a kind that has no placeholder: must not be read"""

    def __init__(self, name):
        self.name = name


DICT_OPS = {'__getitem__': lambda it, d, k: it.getitem(d, k), '__setitem__': lambda it, d, k, v: it.setitem(d, k, v), '__contains__': lambda it, d, k: it.contains(d, k),
            '__len__': lambda it, d: it.length(d), '__init__': lambda it, d, *a, **k: d.update(it.call(dict, a, k)) if d is not None else None}


class Interp:
    def __init__(self, ctx, contracts=None, tables=(), inline=('casadi_extras', 'drivers'), limit=MAX_PATHS):
        self.ctx = ctx
        self.base = ctx
        self.contracts = contracts or {}
        self.tables = tables
        self.inline = inline
        self.obls = []
        self.dms = []
        self.grouped = {}    # the events behind the groups of dictionaries iterated over
        self.thresholds = []
        self.allowed = []
        self.limit = limit
        self.used = set()           # real functions interpreted
        self.trusted = set()        # models used
        self.depth = 0
        self.making = []
        self.syms = {}
        self.solve_rules = []

    # ------------------------------------------------------------ top level
    def paths(self, run):
        """run: callable executed for every feasible path; yields (ctx, kind, value, obligations)"""
        script = []
        n = 0
        while True:
            n += 1
            if n > self.limit:
                raise OutOfReach('more than %d paths' % self.limit)
            self.ctx = self.base
            self.obls = []
            self.thresholds, self.allowed = [], []
            self.depth = 0
            self.making = []
            self.syms = {}
            dm = Decisions(script)
            self.dms = [dm]
            try:
                v = run()
                out = ('return', v)
            except PyRaise as e:
                out = ('raise', e)
            if not self.ctx.infeasible():
                yield self.ctx, out[0], out[1], list(self.obls)
            script = dm.next_script()
            if script is None:
                return

    def branch(self, c):
        c = lift(c)
        if c.op == 'const':
            return bool(c.args[0])
        d = self.ctx.decide(c)
        if d is not None:
            return d
        dm = self.dms[-1]
        if dm.pos < len(dm.script):
            choice = dm.script[dm.pos]
        else:
            choice = True
            dm.script.append(True)
        dm.pos += 1
        dm.path.append((c, choice))
        self.ctx = self.ctx + (c if choice else not_(c))
        return choice

    def oblige(self, name, goal, ctx=None):
        goal = lift(goal)
        if goal is TRUE:
            return
        self.obls.append((name, goal, ctx or self.ctx))

    def check_mut(self, obj):
        if isinstance(obj, Arr) and (obj.base is not None or obj.views):
            raise OutOfReach('mutation of an array that shares storage with a view')
        if self.thresholds and getattr(obj, 'serial', 0) < self.thresholds[-1] and id(obj) not in self.allowed[-1]:
            raise Retry(obj)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        v = self.force(v)
        if isinstance(v, T):
            if v.sort == 'B':
                return v
            if v.sort in 'IR':
                return ne(v, 0)
            raise OutOfReach('truth of opaque term')
        if isinstance(v, Arr):
            if all(isconst(s) and s.args[0] == 1 for s in v.shape):
                return self.truth(v.at(*[ZERO] * v.ndim))
            raise OutOfReach('truth of an array')
        if has_seg(v):
            return lt(ZERO, lift(self.length(v)))
        if isinstance(v, Rec):
            if '__bool__' in v.spec:
                return self.truth(v.spec['__bool__'](self, v))
            raise OutOfReach('truth of %s' % v.name)
        if isinstance(v, (Obj, Closure, BoundMethod, Opq, Poly)):
            return TRUE
        if isinstance(v, Dct) and self.dict_symbolic(v):
            raise OutOfReach('truth of a dictionary with symbolic keys')
        return lift(bool(v))

    def test(self, v):
        return self.branch(self.truth(v))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 60:
            raise OutOfReach('recursion too deep')
        try:
            return self._call(f, args, kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, Model_):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_node(f.node, f.globals, args, kwargs, f.defaults, f.kwdefaults, parent=f.env)
        if isinstance(f, Opq):
            c = f.attrs.get('__call__')
            if c is None:
                raise OutOfReach('call of opaque %s' % f.name)
            return self.call(c, args, kwargs)
        if isinstance(f, Rec):
            if '__call__' not in f.spec:
                raise OutOfReach('call of %s' % f.name)
            return f.spec['__call__'](self, f, *args, **kwargs)
        if isinstance(f, Obj):
            m = self.class_attr(f.cls, '__call__')
            if m is None:
                raise PyRaise(TypeError)
            return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, Poly):
            return self.table_call('poly_call', [f] + list(args), kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), dict(f.keywords, **kwargs))
        if f is None or isinstance(f, (int, float, str, list, tuple, dict)):
            raise PyRaise(TypeError)
        key = self.key(f)
        if key in self.contracts:
            self.used.add(key)
            return self.contracts[key](self, *args, **kwargs)
        for t in self.tables:
            m = t.get(key)
            if m is not None:
                if not getattr(m, 'always', False) and not is_symbolic(list(args)) and not is_symbolic(kwargs):
                    break
                self.trusted.add(getattr(f, '__qualname__', str(f)))
                return m(self, *args, **kwargs)
        if isinstance(f, types.FunctionType):
            w = f
            while hasattr(w, '__wrapped__'):
                w = w.__wrapped__
            if self.inlined(w):
                return self.call_fn(w, args, kwargs)
        if f is object.__new__ and args and isinstance(args[0], type) and self.inlined(args[0]):
            return Obj(args[0], {})
        if isinstance(f, type):
            if self.inlined(f) and not issubclass(f, BaseException):
                return self.instantiate(f, args, kwargs)
            if issubclass(f, BaseException):
                return Obj(f, {'args': tuple(args)})
        if getattr(f, '__objclass__', None) is dict and args and isinstance(args[0], Obj) and '<dict>' in args[0].attrs:
            d = args[0].attrs['<dict>']
            if f.__name__ in DICT_OPS:
                return DICT_OPS[f.__name__](self, d, *args[1:], **kwargs)
            return self.call(self.getattr(d, f.__name__), args[1:], kwargs)
        if isinstance(f, types.MethodType):
            if not is_symbolic(f.__self__) and self.inlined(f.__func__):
                return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if is_symbolic(list(args)) or is_symbolic(kwargs):
            if isinstance(getattr(f, '__self__', None), str) and f.__name__ == 'join' and len(args) == 1:
                return joined(f.__self__, args[0])
            if isinstance(getattr(f, '__self__', None), str) and f.__name__ == 'format':
                return self.call(str.format, [f.__self__] + list(args), kwargs)
            raise OutOfReach('no model for %s' % (getattr(f, '__qualname__', f),))
        try:
            return wrap(f(*plain(tuple(args)), **plain(Dct(kwargs))))
        except (OutOfReach, PyRaise, Retry, Return):
            raise
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def key(self, f):
        w = f
        while hasattr(w, '__wrapped__') and isinstance(w, types.FunctionType):
            w = w.__wrapped__
        try:
            hash(w)
            return w
        except TypeError:
            return id(w)

    def inlined(self, f):
        m = getattr(f, '__module__', None) or ''
        return any(m == p or m.startswith(p + '.') for p in self.inline)

    def call_fn(self, fn, args, kwargs):
        node = fn_node(fn)
        self.used.add(fn)
        parent = None
        if fn.__closure__:
            parent = Frame(fn.__globals__)
            parent.done = True
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    parent.vars[n] = c.cell_contents
                except ValueError:
                    pass
        return self.call_node(node, fn.__globals__, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {}, parent, fn)

    def call_node(self, node, glob, args, kwargs, defaults, kwdefaults, parent=None, fn=None):
        fr = Frame(glob, parent)
        if parent is not None:
            fr.cls, fr.self_ = parent.vars.get('__class__', parent.cls), parent.self_
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for i, v in enumerate(args):
            if isinstance(v, Star) and (i < len(pos) or not a.vararg or not has_seg(v.v)):
                raise OutOfReach('arguments of unknown number')
        args = [y for v in args for y in (v.v if isinstance(v, Star) else [v])]
        for i, name in enumerate(pos):
            if i < len(args):
                fr.vars[name] = args[i]
                if name in kwargs:
                    raise PyRaise(TypeError)
            elif name in kwargs:
                fr.vars[name] = kwargs.pop(name)
            else:
                d = i - (len(pos) - len(defaults))
                if d < 0:
                    raise PyRaise(TypeError, ('missing argument ' + name,))
                fr.vars[name] = defaults[d]
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(args[len(pos):])
        elif len(args) > len(pos):
            raise PyRaise(TypeError, ('too many arguments',))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                fr.vars[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                fr.vars[p.arg] = kwdefaults[p.arg]
            else:
                raise PyRaise(TypeError)
        if a.kwarg:
            fr.vars[a.kwarg.arg] = Dct(kwargs)
        elif kwargs:
            raise PyRaise(TypeError, ('unexpected keyword ' + str(list(kwargs)),))
        if pos and fr.self_ is None:
            fr.self_ = fr.vars[pos[0]]
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        making = node.name in ('__init__', '__setstate__') and pos
        if making:
            self.making.append(fr.vars[pos[0]])
        try:
            self.no_history(node, fr, pos)
            return self.run_body(node, fr)
        finally:
            fr.done = True
            if making:
                self.making.pop()

    def no_history(self, node, fr, pos):
        """the summary of a call is taken from a fresh state: functions keeping a state between calls
        (in attributes, module variables, shared defaults, enclosing functions) are not followed"""
        out, local, shared = kept(node)
        for x, at in sorted(out, key=str):
            if x in shared:
                raise OutOfReach('state kept in the default of %s' % x)
            if x in local:
                if at is None or at in DATA:
                    continue
                if any(o is fr.vars[x] for o in self.making):
                    continue
                raise OutOfReach('state kept in attribute %s' % at)
            f = fr.parent
            while f is not None and x not in f.vars:
                f = f.parent
            if f is None:
                if at is None and isinstance(fr.globals.get(x), types.ModuleType):
                    continue        # a function of a module (np.append), not a list
                raise OutOfReach('state kept in %s' % x)
            if f.done or (x == 'self' and at is not None and at not in DATA and not any(o is f.vars[x] for o in self.making)):
                raise OutOfReach('state kept in %s of an enclosing function' % x)

    def run_body(self, node, fr):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_fn(node)):
            # run to the end at once: what the generator yields, as a list
            fr.yields = Lst([])
            try:
                self.block(node.body, fr)
            except Return:
                pass
            return fr.yields
        try:
            self.block(node.body, fr)
        except Return as r:
            return r.v
        return None

    def instantiate(self, cls, args, kwargs):
        new = self.class_attr(cls, '__new__')
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType) and self.inlined(new):
            return self.call_method_fn(new, cls, [cls] + list(args), kwargs)
        key = ('new', cls)
        if key in self.contracts:
            return self.contracts[key](self, *args, **kwargs)
        o = Obj(cls)
        o.whole = True
        init = self.class_attr(cls, '__init__')
        if issubclass(cls, dict):
            # the contents of an instance of a subclass of dict
            o.attrs['<dict>'] = self.call(dict, args if init is dict.__init__ else [], kwargs if init is dict.__init__ else {})
            if init is dict.__init__:
                return o
        if isinstance(init, (types.FunctionType, Closure)):
            self.call_method_fn(init, cls, [o] + list(args), kwargs)
        elif args or kwargs:
            if init is not object.__init__:
                raise OutOfReach('constructor of %s' % cls)
        return o

    def call_method_fn(self, fn, cls, args, kwargs):
        return self.call(fn, args, kwargs)

    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        v = self.force(v)
        if isinstance(v, Obj):
            if name == '__class__':
                return v.cls
            a = self.class_attr(v.cls, name)
            if isinstance(a, property):
                key = a.fget
                if key in self.contracts:
                    return self.contracts[key](self, v)
                return self.call(a.fget, [v], {})
            if name in v.attrs:
                x = v.attrs[name]
                return x
            if isinstance(a, (types.FunctionType, Closure)):
                return BoundMethod(v, a)
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, classmethod):
                return BoundMethod(v.cls, a.__func__)
            if a is not None and not callable(a):
                return a
            if '<dict>' in v.attrs and hasattr(dict, name):
                return self.getattr(v.attrs['<dict>'], name)
            if a is not None and name in ('__init__', '__setattr__'):
                return Model_(lambda it, *x, **k: None)
            g = self.class_attr(v.cls, '__getattr__')
            if g is not None and self.inlined(g):
                return self.call(g, [v, name], {})
            for t in self.tables:
                m = t.get(('objattr', name))
                if m is not None:
                    return m(self, v)
            if name == '__dict__' or not v.whole and name in stored_attrs(v.cls):
                # an attribute the contract does not know
                raise OutOfReach('attribute %s of %s' % (name, v.cls.__name__))
            raise PyRaise(AttributeError, (name,))
        if isinstance(v, Opq):
            if name in v.attrs:
                return v.attrs[name]
            raise OutOfReach('attribute %s of opaque %s' % (name, v.name))
        if isinstance(v, Rec):
            if name in v.spec:
                f = v.spec[name]
                if name.startswith('__') and name.endswith('__'):
                    return Model_(lambda it, *a, **k: f(it, v, *a, **k))
                return f(self, v)
            if isinstance(v.cls, type):
                a = self.class_attr(v.cls, name)
                if isinstance(a, types.FunctionType):
                    return BoundMethod(v, a)
                if a is None and name.startswith('__') and name.endswith('__'):
                    raise PyRaise(AttributeError, (name,))
            raise OutOfReach('attribute %s of %s' % (name, v.name))
        if isinstance(v, SYMBOLIC) or isinstance(v, (Lst, Dct)):
            for t in self.tables:
                m = t.get(('attr', type(v), name))
                if m is not None:
                    return m(self, v)
            if isinstance(v, Dct) and hasattr(dict, name) and (v.log is not None or name in ('setdefault', 'update')):
                return Model_(lambda it, *a, **k: it.dict_method(v, name, a, k))
            if isinstance(v, (list, dict)) and not is_symbolic(v) and hasattr(v, name):
                if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'sort', 'reverse', 'setdefault'):
                    return Model_(lambda it, *a, **k: it.native_mut(v, name, a, k))
                return getattr(v, name)
            if isinstance(v, SDct) and name in ('items', 'keys', 'values'):
                return Model_(lambda it: Lst(list(v.pairs)) if name == 'items' else it.comp_pairs(v, int(name == 'values')))
            if isinstance(v, dict) and hasattr(dict, name):
                return Model_(lambda it, *a, **k: it.dict_method(v, name, a, k))
            if isinstance(v, list) and hasattr(list, name):
                return Model_(lambda it, *a, **k: it.list_method(v, name, a, k))
            if type(v) in (Lst, Dct) and not hasattr(list if type(v) is Lst else dict, name):
                raise PyRaise(AttributeError, (name,))
            import numpy as np
            if isinstance(v, T) and v.sort == 'I' and not hasattr(np.int64, name) and not hasattr(int, name):
                raise PyRaise(AttributeError, (name,))
            raise OutOfReach('attribute %s of %s' % (name, type(v).__name__))
        if isinstance(v, tuple) and is_symbolic(v) and name in ('index', 'count'):
            raise OutOfReach('tuple.%s' % name)
        if isinstance(v, SuperProxy):
            return v.get(self, name)
        try:
            return getattr(v, name)
        except AttributeError as e:
            raise PyRaise(AttributeError, e.args)

    def native_mut(self, v, name, a, k):
        self.check_mut(v)
        if isinstance(v, Lst) and (v.rec is not None or v.symbolic() or is_symbolic(list(a))):
            return self.list_method(v, name, a, k)
        try:
            return wrap(getattr(v, name)(*a, **k))
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def list_method(self, v, name, a, k):
        if name == 'append':
            self.check_mut(v)
            (v.rec if v.rec is not None else v).append(a[0])
            return None
        if name == 'extend':
            self.check_mut(v)
            x = a[0]
            if isinstance(x, (list, tuple)):
                (v.rec if v.rec is not None else v).extend(x)
                return None
        if name == 'pop' and v.rec is None and not v.symbolic() and (not a or isinstance(a[0], int)):
            self.check_mut(v)
            try:
                return list.pop(v, *a)
            except Exception as e:
                raise PyRaise(type(e), e.args)
        if name == 'insert' and v.rec is None and isinstance(a[0], int) and (a[0] == 0 or not v.symbolic()):
            self.check_mut(v)
            list.insert(v, a[0], a[1])
            return None
        if name == 'copy':
            return Lst(v)
        if name == 'index' and len(a) == 1 and v.rec is None:
            off = ZERO
            for x in v:
                es = x.elems if isinstance(x, Seg) else [x]
                if isinstance(x, FSeg):
                    break
                inner = self.ctx.rng(x.var, ZERO, x.n) if isinstance(x, Seg) else self.ctx
                ds = [inner.decide(self.truth(self.compare('Eq', e, a[0]))) for e in es]
                if all(d is False for d in ds):
                    off = add(off, x.count if isinstance(x, Seg) else 1)
                elif not isinstance(x, Seg) and ds == [True]:
                    return as_py(off)
                else:
                    break
            else:
                raise PyRaise(ValueError)
        raise OutOfReach('list.%s on symbolic data' % name)

    # ------------------------------------------------------------ dictionaries with symbolic keys
    # The writes are kept in the order in which they happen: ('set', key, value), or ('add', key, value) for adding to the
    # list stored under the key, which is empty at first.  Keys are not compared.
    def dict_log(self, d):
        if d.log is None:
            d.log = Lst([])
            d.log.serial = d.serial
        return d.log

    def dict_symbolic(self, d, key=None):
        return key is not None and is_symbolic(key) or d.log is not None and bool(d.log or d.log.rec)

    def dict_contains(self, d, key):
        if not len(d) and d.log is None and d.groups is None and not (self.thresholds and d.serial < self.thresholds[-1]):
            return False
        b = fresh('in', 'B')
        d.seen = (key, b)
        return b

    def dict_known(self, d, key):
        if d.seen is not None and (d.seen[0] is key or same_value(d.seen[0], key)):
            return self.ctx.decide(d.seen[1])
        return None

    def dict_set(self, d, key, v):
        if d.groups is not None:
            n, k, vals, over = d.groups
            self.list_method(over, 'append', [('set', key, v)], {})
            return
        if isinstance(v, Lst) and len(v) == 1 and not v.symbolic() and v.rec is None and self.dict_known(d, key) is False:
            ev = ('add', key, v[0])
        elif isinstance(v, Lst):
            raise OutOfReach('list stored under a symbolic key')
        else:
            ev = ('set', key, v)
        d.seen = None
        self.list_method(self.dict_log(d), 'append', [ev], {})

    def dict_slot(self, d, key):
        def append(it, x):
            d.seen = None
            it.list_method(it.dict_log(d), 'append', [('add', key, x)], {})
        return Opq('slot', {'append': Model_(append)})

    def dict_get(self, d, key):
        if self.dict_known(d, key) is True:
            return self.dict_slot(d, key)
        s = self.dict_pairs(d)
        if s is not None:
            return self.lookup(s, key)
        raise OutOfReach('read of a dictionary under a symbolic key')

    def dict_pairs(self, d):
        """a dictionary written under keys known to differ, as pairs"""
        from .models_np import distinct
        log = d.log
        if log is None or log.rec is not None or d.groups is not None or dict.__len__(d):
            return None
        pairs = []
        for x in log:
            es = x.elems if isinstance(x, Seg) else [x]
            if isinstance(x, FSeg) or not all(isinstance(e, tuple) and e[0] == 'set' for e in es):
                return None
            pairs.append(Seg(x.n, x.var, [e[1:] for e in es]) if isinstance(x, Seg) else x[1:])
        s = SDct(Lst(pairs))
        try:
            return s if self.ctx.decide(distinct(self, self.comp_pairs(s, 0))) is True else None
        except OutOfReach:
            return None

    def dict_items(self, d):
        """the keys in the order of their first occurrence; under key number h the values of the events ev(h, 0), ev(h, 1), ...
        (the events with that key, in order)"""
        log = d.log
        if dict.__len__(d) or log.rec is not None or len(log) != 1:
            raise OutOfReach('iteration over a dictionary with symbolic keys')
        if d.groups is None:
            path, x = [], log[0]
            while isinstance(x, Seg):
                if len(x.elems) != 1:
                    raise OutOfReach('iteration over a dictionary with symbolic keys')
                path.append(x)
                x = x.elems[0]
            if not path or x[0] != 'add':
                raise OutOfReach('iteration over a dictionary with symbolic keys')
            tag = str(fresh('ev').args[0])

            def event(h, t):
                return vsubst(x, {p.var: app('%s.%d' % (tag, j), h, lift(t), sort='I') for j, p in enumerate(path)})
            n = var(tag + '.keys')
            self.grouped[tag] = log[0]
            over = Lst([])
            over.serial = d.serial
            d.groups = (n, lambda h: event(h, ZERO)[1], lambda h: Lst([Seg(app(tag + '.count', h, sort='I'), (t := fresh('t')), [event(h, t)[2]])]), over)
            self.ctx = self.ctx + le(ZERO, n)
        n, key, vals, over = d.groups
        if over or over.rec:
            raise OutOfReach('iteration over a dictionary being changed')
        h = fresh('h')
        return Lst([Seg(n, h, [(key(h), vals(h))])])

    def dict_events(self, d):
        """the writes that make up a dictionary"""
        if isinstance(d, SDct):
            return [Seg(x.n, x.var, [('set',) + tuple(e) for e in x.elems]) if isinstance(x, Seg) and not x.nested else None if isinstance(x, (Seg, FSeg)) else ('set',) + tuple(x) for x in d.pairs]
        out = [('set', k, v) for k, v in d.items()]
        if d.groups is not None:
            n, key, vals, over = d.groups
            if len(over) != 1 or not isinstance(over[0], Seg) or len(over[0].elems) != 1 or self.ctx.decide(eq(over[0].n, n)) is not True or over.rec is not None:
                raise OutOfReach('a dictionary changed in part')
            h = over[0].var
            if not same_value(over[0].elems[0][1], key(h)):
                raise OutOfReach('a dictionary changed under other keys')
            return out + list(over)
        if d.log is not None and d.log.rec is not None:
            raise OutOfReach('a dictionary being changed')
        return out + list(d.log or [])

    def dict_method(self, v, name, a, k):
        if name == 'setdefault' and len(a) == 2 and self.dict_symbolic(v, a[0]) and v.groups is None:
            if isinstance(a[1], Lst) and not a[1] and a[1].rec is None:
                return self.dict_slot(v, a[0])
            raise OutOfReach('setdefault under a symbolic key')
        if name == 'update' and len(a) == 1 and (isinstance(a[0], SDct) or isinstance(a[0], Dct) and self.dict_symbolic(a[0])):
            ev = self.dict_events(a[0])
            if any(e is None for e in ev) or any(isinstance(e, Seg) and has_add(e) or isinstance(e, tuple) and e[0] == 'add' for e in ev) or v.groups is not None:
                raise OutOfReach('update by a dictionary of lists')
            self.list_method(self.dict_log(v), 'extend', [ev], {})
            return None
        if self.dict_symbolic(v, a[0] if a and name in ('get', 'pop', 'setdefault') else None):
            s = self.dict_pairs(v) if name in ('items', 'keys', 'values') else None
            if s is not None:
                return self.call(self.getattr(s, name), [], {})
            if name == 'items':
                return self.dict_items(v)
            raise OutOfReach('dict.%s with symbolic keys' % name)
        if name == 'items':
            return Lst([(x, y) for x, y in v.items()])
        if name == 'values':
            return Lst(v.values())
        if name == 'keys':
            return Lst(v.keys())
        if name == 'get' and not is_symbolic(a[:1]):
            return dict.get(v, *a)
        if name == 'copy':
            return Dct(v)
        if name in ('update', 'setdefault', 'pop'):
            self.check_mut(v)
            if name == 'update' and len(a) == 1 and isinstance(a[0], dict):
                dict.update(v, a[0])
                return None
            if not is_symbolic(a[:1]):
                try:
                    return getattr(dict, name)(v, *a, **k)
                except Exception as e:
                    raise PyRaise(type(e), e.args)
        raise OutOfReach('dict.%s' % name)

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            self.check_mut(v)
            a = self.class_attr(v.cls, name)
            if isinstance(a, property):
                if a.fset is None:
                    raise PyRaise(AttributeError, (name,))
                self.call(a.fset, [v, val], {})
                return
            v.attrs[name] = val
            return
        for t in self.tables:
            m = t.get(('setattr', type(v), name))
            if m is not None:
                m(self, v, val)
                return
        raise OutOfReach('attribute assignment on %s' % type(v).__name__)

    # ------------------------------------------------------------ sequences
    def length(self, v):
        if isinstance(v, Dct) and self.dict_symbolic(v):
            raise OutOfReach('number of symbolic keys')
        if isinstance(v, Rec):
            if '__len__' in v.spec:
                return v.spec['__len__'](self, v)
            raise OutOfReach('len of %s' % v.name)
        if isinstance(v, Lst) or has_seg(v):
            if getattr(v, 'rec', None) is not None:
                raise OutOfReach('length of a list being extended in a loop')
            n = ZERO
            for x in v:
                if isinstance(x, FSeg):
                    raise OutOfReach('length of a filtered list')
                n = add(n, x.count if isinstance(x, Seg) else 1)
            return as_py(n)
        if isinstance(v, Arr):
            return as_py(v.shape[0])
        if isinstance(v, SIter):
            return as_py(v.n)
        if isinstance(v, Obj):
            m = self.class_attr(v.cls, '__len__')
            if m is not None:
                return self.call(m, [v], {})
        if isinstance(v, (T, Filt, Poly, Opq, Closure, Obj)):
            for t in self.tables:
                m = t.get(('len', type(v)))
                if m is not None:
                    return m(self, v)
            raise OutOfReach('len of %s' % type(v).__name__)
        try:
            return len(v)
        except TypeError as e:
            raise PyRaise(TypeError, e.args)

    def seq_at(self, v, k):
        """element k (term, in range) of a list that may contain segments"""
        k = lift(k)
        off = ZERO
        cases = []
        for x in v:
            if isinstance(x, Seg):
                if x.nested:
                    raise OutOfReach('index into a nested sequence')
                c = x.count
                r = sub(k, off)
                m = len(x.elems)
                if m == 1:
                    val = x.at(r)
                else:
                    q = simp(idiv(r, m), self.ctx)
                    rem = simp(imod(r, m), self.ctx)
                    val = x.at(q, m - 1)
                    for j in range(m - 2, -1, -1):
                        val = self.merge(eq(rem, j), x.at(q, j), val)
                inside = lt(k, add(off, c))
                off = add(off, c)
            elif isinstance(x, FSeg):
                raise OutOfReach('index into a filtered list')
            else:
                val = x
                inside = lt(k, add(off, 1))
                off = add(off, 1)
            d = self.ctx.decide(inside)
            if d is False:
                continue
            cases.append((inside, val))
            if d is True:
                break
        if not cases:
            raise PyRaise(IndexError)
        val = cases[-1][1]
        for c, x in reversed(cases[:-1]):
            val = self.either(c, x, val)
        return val

    def merge(self, c, a, b):
        """value equal to a if c else b"""
        c = lift(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if isinstance(a, MaybeUnbound) or isinstance(b, MaybeUnbound):
            a = a.v if isinstance(a, MaybeUnbound) else a
            b = b.v if isinstance(b, MaybeUnbound) else b
            return MaybeUnbound(self.merge(c, a, b), TRUE)
        num = (int, float, T, np.number, np.bool_)
        if isinstance(a, num) and isinstance(b, num):
            return as_py(ite(c, lift(a), lift(b)))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a = to_arr(a) if isinstance(a, np.ndarray) else a
            b = to_arr(b) if isinstance(b, np.ndarray) else b
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.kind == b.kind:
            sh = []
            for x, y in zip(a.shape, b.shape):
                if x is y or self.ctx.decide(eq(x, y)):
                    sh.append(x)
                else:
                    sh.append(ite(c, x, y))
            return Arr(sh, lambda *i: ite(c, a.at(*i), b.at(*i)), kind=a.kind)
        if isinstance(a, Poly) and isinstance(b, Poly):
            x = fresh('X', 'R')
            return Poly(x, ite(c, a.at(x), b.at(x)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Lst) and isinstance(b, Lst) and len(a) == len(b) and not a.symbolic() and not b.symbolic():
            return Lst([self.merge(c, x, y) for x, y in zip(a, b)])
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and set(a.attrs) == set(b.attrs):
            return Obj(a.cls, {k: self.merge(c, a.attrs[k], b.attrs[k]) for k in a.attrs})
        if isinstance(a, Rec) and isinstance(b, Rec) and a.name == b.name and len(a.args) == len(b.args) and a.cls is b.cls:
            return Rec(a.name, [self.merge(c, x, y) for x, y in zip(a.args, b.args)], a.cls, a.spec)
        try:
            if type(a) is type(b) and a == b:
                return a
        except Exception:
            pass
        raise OutOfReach('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))

    def either(self, c, a, b):
        """merge; values of different form are kept apart"""
        try:
            return self.merge(c, a, b)
        except OutOfReach:
            for x in (a, b):
                if isinstance(x, (Seg, FSeg, MaybeUnbound)) or isinstance(x, Lst) and x.rec is not None:
                    raise
            if type(a) is tuple and type(b) is tuple and len(a) == len(b) and not has_seg(a) and not has_seg(b):
                return tuple(self.either(c, x, y) for x, y in zip(a, b))
            a, b = under(a, {c: True}), under(b, {c: False})
            ca, cb = [x.cls if isinstance(x, Rec) else type(x) for x in (a, b)]
            return Rec('ite', (c, a, b), ca if ca is cb else None, {})

    def force(self, v):
        while isinstance(v, Rec) and v.name == 'ite':
            v = v.args[1] if self.branch(v.args[0]) else v.args[2]
        return v

    def iterate(self, v):
        """python list of elements (concrete) or SIter or list of parts [list | (Seg)]"""
        v = self.force(v)
        if isinstance(v, SIter):
            if isconst(v.n):
                return [v.at(lift(i)) for i in range(int(v.n.args[0]))]
            return v
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise(TypeError)
            if isconst(v.shape[0]):
                return [self.row(v, lift(i)) for i in range(int(v.shape[0].args[0]))]
            return SIter(v.shape[0], lambda k: self.row(v, k))
        if isinstance(v, Lst):
            if v.rec is not None:
                raise OutOfReach('iteration over a list being extended in a loop')
            if v.symbolic():
                if len(v) == 1 and isinstance(v[0], Seg) and len(v[0].elems) == 1 and not v[0].nested:
                    s = v[0]
                    return SIter(s.n, lambda k: s.at(k))
                return SIter(self.length(v), lambda k: self.seq_at(v, k))
            return list(v)
        if isinstance(v, Dct) and self.dict_symbolic(v):
            raise OutOfReach('iteration over a dictionary with symbolic keys')
        if isinstance(v, Rec) and '__iter__' in v.spec:
            return self.iterate(v.spec['__iter__'](self, v))
        if isinstance(v, tuple) and has_seg(v):
            return self.iterate(Lst(v))
        if isinstance(v, SDct):
            return self.iterate(self.comp_pairs(v, 0))
        if isinstance(v, (T, Filt, Poly, Opq, Closure, Rec)):
            raise OutOfReach('iteration over %s' % type(v).__name__)
        if isinstance(v, Obj) and '<dict>' in v.attrs and self.class_attr(v.cls, '__iter__') is dict.__iter__:
            return self.iterate(v.attrs['<dict>'])
        if isinstance(v, Obj):
            raise OutOfReach('iteration over object')
        try:
            return list(v)
        except TypeError as e:
            raise PyRaise(TypeError, e.args)

    def lookup(self, d, k):
        """the value at one of the keys"""
        def number(key, k, v):
            """the value of v for which key is k"""
            if key is v and isinstance(k, (int, T)):
                return lift(k)
            if isinstance(key, Rec) and isinstance(k, Rec) and key.name == k.name:
                key, k = key.args, k.args
            if isinstance(key, tuple) and isinstance(k, tuple) and len(key) == len(k):
                found = [number(x, y, v) for x, y in zip(key, k) if not same_value(x, y)]
                if len(found) == 1:
                    return found[0]
            return None
        if isinstance(k, (Rec, tuple)) and len(d.pairs) == 1 and isinstance(d.pairs[0], Seg) and len(d.pairs[0].elems) == 1:
            s = d.pairs[0]
            key, val = s.elems[0]
            q = number(key, k, s.var)
            if q is not None:
                if self.ctx.decide(and_(le(0, q), lt(q, s.n))) is True:
                    return vsubst(val, {s.var: q})
        raise OutOfReach('lookup in a symbolic dictionary')

    def comp_pairs(self, d, j):
        """the keys (0) or values (1) of a dictionary given by pairs"""
        def part(x):
            if isinstance(x, Seg):
                return Seg(x.n, x.var, [part(e) for e in x.elems])
            if isinstance(x, FSeg):
                return FSeg(x.n, x.var, x.cond, part(x.elem))
            return x[j]
        return Lst([part(x) for x in d.pairs])

    def row(self, v, k):
        if v.ndim == 1:
            return as_py(v.at(k))
        return Arr(v.shape[1:], lambda *i: v.at(k, *i), kind=v.kind).view_of(v)

    # ------------------------------------------------------------ statements
    tolerant = None

    def block(self, stmts, fr):
        for s in stmts:
            if self.tolerant is fr:
                # only looking for the recurrences of counters: see fixed_counters
                try:
                    self.stmt(s, fr)
                except (OutOfReach, PyRaise):
                    for x in assigned([s]):
                        fr.vars[x] = Blocked(x)
            else:
                try:
                    self.stmt(s, fr)
                except OutOfReach:
                    self.only_text(stmts[stmts.index(s):], fr)
                    raise

    def only_text(self, stmts, fr):
        """assignments and loops before a raise: they prepare the text of the exception, which is dropped when it cannot be followed"""
        e = stmts[-1].exc if isinstance(stmts[-1], ast.Raise) else None
        inner = (ast.Assign, ast.AugAssign, ast.For, ast.If, ast.Expr, ast.Pass)
        if len(stmts) < 2 or not isinstance(e, ast.Call) or not isinstance(e.func, ast.Name):
            return
        for s in stmts[:-1]:
            for x in ast.walk(s):
                if isinstance(x, ast.stmt) and not isinstance(x, inner) or isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                    return
        if e.func.id in assigned(stmts[:-1]):
            return
        c = self.eval(e.func, fr)
        if isinstance(c, type) and issubclass(c, BaseException):
            raise PyRaise(c)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise OutOfReach('statement %s' % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            fr.vars[a.asname or a.name.split('.')[0]] = m if not a.asname else functools.reduce(getattr, a.name.split('.')[1:], m)

    def s_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module('.' * s.level + (s.module or ''), fr.globals.get('__package__'))
        for a in s.names:
            fr.vars[a.asname or a.name] = getattr(m, a.name)

    def s_Return(self, s, fr):
        raise Return(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise Break()

    def s_Continue(self, s, fr):
        raise Continue()

    def s_Global(self, s, fr):
        raise OutOfReach('global')

    def s_Nonlocal(self, s, fr):
        raise OutOfReach('nonlocal')

    def s_Assert(self, s, fr):
        if not self.test(self.eval(s.test, fr)):
            raise PyRaise(AssertionError)

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise OutOfReach('re-raise')
        try:
            e = self.eval(s.exc, fr)
        except OutOfReach:
            # the text of a message is dropped when it cannot be followed; the class of the exception is kept
            if not isinstance(s.exc, ast.Call):
                raise
            e = self.eval(s.exc.func, fr)
            if not (isinstance(e, type) and issubclass(e, BaseException)):
                raise
        if isinstance(e, Obj) and isinstance(e.cls, type) and issubclass(e.cls, BaseException):
            raise PyRaise(e.cls, e.attrs.get('args', ()))
        if isinstance(e, BaseException):
            raise PyRaise(type(e), e.args)
        if isinstance(e, type):
            raise PyRaise(e)
        raise OutOfReach('raise of %r' % (e,))

    def s_If(self, s, fr):
        if self.test(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_FunctionDef(self, s, fr):
        f = self.closure(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f], {})
        fr.vars[s.name] = f

    def s_ClassDef(self, s, fr):
        if s.decorator_list or s.keywords:
            raise OutOfReach('decorated inner class')
        bases = tuple(self.eval(b, fr) for b in s.bases)
        if not all(isinstance(b, type) for b in bases):
            raise OutOfReach('bases of an inner class')
        body = Frame(fr.globals, fr)
        self.block(s.body, body)
        fr.vars[s.name] = type(s.name, bases, {'__module__': fr.globals.get('__name__'), **{k: v for k, v in body.vars.items() if k != '__init__' or True}})

    def closure(self, s, fr, name):
        d = tuple(self.eval(x, fr) for x in s.args.defaults)
        kd = {p.arg: self.eval(x, fr) for p, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        return Closure(s, fr, fr.globals, name, d, kd)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            else:
                raise OutOfReach('del')

    def s_AugAssign(self, s, fr):
        t = s.target
        op = BIN[type(s.op)]
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            v = self.eval(s.value, fr)
            new = self.inplace(op, old, v)
            if new is not old or t.id not in fr.vars:
                fr.vars[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            new = self.inplace(op, old, self.eval(s.value, fr))
            if new is not old or not isinstance(o, Obj):
                self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.index_value(t.slice, fr)
            old = self.getitem(o, i)
            self.setitem(o, i, self.binop(op, old, self.eval(s.value, fr)))
        else:
            raise OutOfReach('augmented assignment')

    def inplace(self, op, old, v):
        if isinstance(old, Lst) and op == 'add' and isinstance(v, (list, tuple)):
            self.list_method(old, 'extend', (v,), {})
            return old
        if isinstance(old, Arr) and old.kind == 'np':
            self.check_mut(old)
            r = self.binop(op, old, v)
            if isinstance(r, Arr) and r.ndim == old.ndim:
                old.vars, old.body = r.vars, r.body
                return old
            raise OutOfReach('in-place array operation')
        return self.binop(op, old, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.iterate(v)
            if isinstance(it, SIter):
                n = lift(self.length(v))
                if not any(isinstance(e, ast.Starred) for e in t.elts) and self.branch(ne(n, len(t.elts))):
                    raise PyRaise(ValueError, ('unpack',))
                raise OutOfReach('unpacking a symbolic sequence')
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                n = len(t.elts) - 1
                if len(it) < n:
                    raise PyRaise(ValueError)
                tail = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], it[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, Lst(it[i:len(it) - tail]), fr)
                for e, x in zip(t.elts[i + 1:], it[len(it) - tail:]):
                    self.assign(e, x, fr)
                return
            if len(it) != len(t.elts):
                raise PyRaise(ValueError, ('unpack',))
            for e, x in zip(t.elts, it):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.index_value(t.slice, fr)
            self.setitem(o, i, v)
        else:
            raise OutOfReach('assignment target')

    def s_Try(self, s, fr):
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None:
                    match = True
                else:
                    ts = self.eval(h.type, fr)
                    ts = ts if isinstance(ts, tuple) else (ts,)
                    match = any(isinstance(e.etype, type) and issubclass(e.etype, t) for t in ts)
                if match:
                    if h.name:
                        fr.vars[h.name] = Obj(e.etype, {'args': e.eargs})
                    self.block(h.body, fr)
                    break
            else:
                self.block(s.finalbody, fr)
                raise
        else:
            self.block(s.orelse, fr)
        self.block(s.finalbody, fr)

    def s_With(self, s, fr, i=0):
        if i == len(s.items):
            self.block(s.body, fr)
            return
        m = self.eval(s.items[i].context_expr, fr)
        if not isinstance(m, (Rec, Obj)):
            raise OutOfReach('with')
        v = self.call(self.getattr(m, '__enter__'), [], {})
        leave = self.getattr(m, '__exit__')
        if s.items[i].optional_vars is not None:
            self.assign(s.items[i].optional_vars, v, fr)
        try:
            self.s_With(s, fr, i + 1)
        except PyRaise as e:
            r = self.call(leave, [e.etype, None, None], {})
            if r is None or r is False:
                raise
            raise OutOfReach('exception handled by a context manager')
        except (Return, Break, Continue):
            self.call(leave, [None, None, None], {})
            raise
        self.call(leave, [None, None, None], {})

    def s_While(self, s, fr):
        n = 0
        if self.counted(s, fr):
            return
        while True:
            c = self.truth(self.eval(s.test, fr))
            d = self.ctx.decide(c)
            if d is None:
                if self.counted(s, fr):
                    return
                raise OutOfReach('while loop')
            if not d:
                self.block(s.orelse, fr)
                return
            n += 1
            if n > 500:
                raise OutOfReach('while loop too long')
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                pass

    def s_For(self, s, fr):
        src = self.eval(s.iter, fr)
        if has_seg(src) and getattr(src, 'rec', None) is None and by_parts(src):
            for x in list(src):
                self.for_part(s, x, fr)
            self.block(s.orelse, fr)
            return
        it = self.iterate(src)
        if isinstance(it, SIter):
            self.sym_loop(it.n, lambda k: self.assign(s.target, it.at(k), fr), lambda: self.block(s.body, fr), fr,
                          self.carried(s.body, fr) | target_names(s.target))
            self.block(s.orelse, fr)
            return
        for x in it:
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse, fr)

    def for_part(self, s, x, fr):
        if isinstance(x, FSeg):
            def guarded():
                cond, e = self.cur_elems
                if self.branch(cond):
                    self.for_part(s, e, fr)

            def bindf(k):
                self.cur_elems = (subst(x.cond, {x.var: k}), vsubst(x.elem, {x.var: k}))
            self.sym_loop(x.n, bindf, guarded, fr, self.carried(s.body, fr) | target_names(s.target))
            return
        if isinstance(x, Seg):
            def body():
                for e in self.cur_elems:
                    self.for_part(s, e, fr)

            def bind(k):
                self.cur_elems = [vsubst(e, {x.var: k}) for e in x.elems]
            self.sym_loop(x.n, bind, body, fr, self.carried(s.body, fr) | target_names(s.target))
            return
        self.assign(s.target, x, fr)
        try:
            self.block(s.body, fr)
        except Break:
            raise OutOfReach('break in a loop over a symbolic list')
        except Continue:
            pass

    def carried(self, stmts, fr):
        """names assigned in a loop body; a list that is only extended in place is not assigned"""
        names = assigned(stmts)
        for x in list(names):
            if isinstance(fr.vars.get(x), Lst):
                stores = [n for b in stmts for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, (ast.Store, ast.Del))]
                augs = [n for b in stmts for n in ast.walk(b) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and n.target.id == x]
                if len(stores) == len(augs):
                    names.discard(x)
        return names

    # ------------------------------------------------------------ symbolic loops
    def counted(self, s, fr):
        """while v < bound: ...; v += 1   (also <=, !=) with a symbolic number of iterations; False if the loop has another form"""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return False
        for vn, bn, flip in ((t.left, t.comparators[0], False), (t.comparators[0], t.left, True)):
            if isinstance(vn, ast.Name) and vn.id in fr.vars and vn.id in assigned(s.body):
                op = type(t.ops[0])
                if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len') for x in ast.walk(bn)):
                    continue
                bound = self.eval(bn, fr)
                if not isinstance(bound, (int, T)) or not isinstance(fr.vars[vn.id], (int, T)):
                    continue
                bound = lift(bound)
                init = lift(fr.vars[vn.id])
                ok = {(ast.Lt, False): 0, (ast.Gt, True): 0, (ast.LtE, False): 1, (ast.GtE, True): 1, (ast.NotEq, False): 0, (ast.NotEq, True): 0}
                if (op, flip) not in ok or init.sort != 'I' or bound.sort != 'I':
                    continue
                n = add(sub(bound, init), ok[(op, flip)])
                if n.op == 'const':
                    continue
                # the counter must advance by one in every iteration and the bound must not change
                incs = [x for x in s.body if ast.unparse(x) in ('%s += 1' % vn.id, '%s = %s + 1' % (vn.id, vn.id), '%s = 1 + %s' % (vn.id, vn.id))]
                if len(incs) != 1:
                    continue
                if sum(1 for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == vn.id) != 1:
                    continue
                if any(isinstance(x, (ast.Continue, ast.Break)) for b in s.body for x in ast.walk(b)):
                    continue
                if {x.id for x in ast.walk(bn) if isinstance(x, ast.Name)} & assigned(s.body):
                    continue
                if op is ast.NotEq:
                    self.oblige('while-terminates', le(ZERO, n))
                if self.ctx.decide(le(ZERO, n)) is not True:
                    n = maxt(n, ZERO)

                def bind(k, vn=vn, init=init):
                    fr.vars[vn.id] = add(init, k)
                self.sym_loop(n, bind, lambda: self.block(s.body, fr), fr, assigned(s.body) - {vn.id})
                fr.vars[vn.id] = as_py(add(init, n))
                if lift(self.eval(bn, fr)) is not bound:
                    raise OutOfReach('the bound of a while loop changes')
                return True
        return False

    def body_paths(self, reset, k, n, body):
        """run the body along all of its paths; reset() prepares the state and returns a reader of the after-state"""
        saved = self.ctx
        script = []
        out = []
        obls = []
        count = 0
        outer_obls = self.obls
        while True:
            count += 1
            if count > 64:
                raise OutOfReach('too many paths in a loop body')
            self.ctx = saved.rng(k, ZERO, n)
            self.obls = []
            dm = Decisions(script)
            self.dms.append(dm)
            read = reset()
            try:
                try:
                    body()
                    res = ('ok', read())
                except Continue:
                    res = ('ok', read())
                except Break:
                    raise OutOfReach('break in a symbolic loop')
                except Return:
                    raise OutOfReach('return in a symbolic loop')
                except PyRaise as e:
                    res = ('raise', e)
            finally:
                self.dms.pop()
                ctx2 = self.ctx
                self.ctx = saved
                o2, self.obls = self.obls, outer_obls
            if not ctx2.infeasible():
                out.append((dm.path, res))
                obls.extend(o2)
            script = dm.next_script()
            if script is None:
                break
        return out, obls

    def merge_paths(self, rs, get, how=None, depth=0):
        """decision tree -> merged value; raising leaves are don't-care"""
        rs = [r for r in rs if r[1][0] == 'ok']
        if not rs:
            return None
        return self._merge(rs, get, depth, how or self.merge)

    def _merge(self, rs, get, depth, how):
        if len(rs) == 1:
            return get(rs[0][1][1])
        d = depth
        while True:
            if any(len(r[0]) <= d for r in rs):
                raise OutOfReach('merge of loop body paths')
            c = rs[0][0][d][0]
            a = [r for r in rs if r[0][d][1]]
            b = [r for r in rs if not r[0][d][1]]
            if not a or not b:
                d += 1
                continue
            return how(c, self._merge(a, get, d + 1, how), self._merge(b, get, d + 1, how))

    def sym_loop(self, n, bind, body, fr, names):
        n = lift(n)
        objs = []
        while True:
            state = (dict(fr.vars), self.ctx, len(self.obls), [(o, snapshot(o)) for o in objs])
            lens = [(dm, dm.pos, len(dm.script), len(dm.path)) for dm in self.dms]
            try:
                return self._sym_loop(n, bind, body, fr, names, objs)
            except Retry as r:
                # discovered a mutated container: restore and start again with a placeholder for it
                if any(r.obj is o for o in objs):
                    raise
                fr.vars.clear()
                fr.vars.update(state[0])
                self.ctx = state[1]
                del self.obls[state[2]:]
                for o, sn in state[3]:
                    restore(o, sn)
                for dm, p, ls, lp in lens:
                    if dm.pos != p:
                        raise OutOfReach('decision before retry')
                if self.thresholds and r.obj.serial < self.thresholds[-1] and id(r.obj) not in self.allowed[-1]:
                    raise
                objs.append(r.obj)

    def _sym_loop(self, n, bind, body, fr, names, objs):
        k = fresh('k')
        pre = dict(fr.vars)
        init = {x: pre[x] for x in names if x in pre}
        snaps = {id(o): snapshot(o) for o in objs}
        threshold = next(_serial_counter())
        self.thresholds.append(threshold)
        self.allowed.append({id(o) for o in objs})

        def restore_all():
            fr.vars.clear()
            fr.vars.update(pre)
            for o in objs:
                restore(o, snaps[id(o)])

        sorts = {}
        fixed = {}
        try:
            for attempt in range(3):
                phs = {}
                fixed.clear()
                for x, v in init.items():
                    p = Ph(v.v if isinstance(v, MaybeUnbound) else v, sorts.get(x))
                    phs[x] = p

                def make_reset(value_of, obj_setup):
                    def reset():
                        restore_all()
                        for x in init:
                            fr.vars[x] = value_of(x)
                        for o in objs:
                            obj_setup(o)
                        bind(k)

                        def read():
                            d = {x: fr.vars.get(x, UNBOUND) for x in names}
                            od = {id(o): after_state(o) for o in objs}
                            return d, od
                        return read
                    return reset

                ophs = {}
                for o in objs:
                    if isinstance(o, Arr):
                        ophs[id(o)] = Ph(o.copy())
                    elif isinstance(o, Lst):
                        ophs[id(o)] = None
                    else:
                        raise OutOfReach('%s mutated in a symbolic loop' % type(o).__name__)
                lastph = {}

                def setup1(o):
                    if isinstance(o, Arr):
                        p = ophs[id(o)].value
                        o.vars, o.body = p.vars, p.body
                    else:
                        o.rec = []
                        o.reader = ListReader(self, o, snaps[id(o)], lastph, k)
                def val1(x):
                    if x in fixed:
                        return fixed[x]
                    p = phs[x]
                    return p.value if p.value is not None else Blocked(x)
                try:
                    rs, obls = self.body_paths(make_reset(val1, setup1), k, n, body)
                except OutOfReach:
                    fixed.update(self.fixed_counters(k, n, phs, make_reset(val1, setup1), body, fr))
                    if not fixed:
                        raise
                    rs, obls = self.body_paths(make_reset(val1, setup1), k, n, body)
                oks = [r for r in rs if r[1][0] == 'ok']
                if oks:
                    # sort widening: an integer accumulator that becomes real
                    widen = False
                    for x, p in phs.items():
                        if isinstance(p.value, (T, Arr)):
                            for r in oks:
                                a = r[1][1][0][x]
                                s = a.body.sort if isinstance(a, Arr) else (lift(a).sort if isinstance(a, (T, int, float, np.number)) else None)
                                ps = p.value.body.sort if isinstance(p.value, Arr) else p.value.sort
                                if ps == 'I' and s == 'R':
                                    sorts[x] = 'R'
                                    widen = True
                    if widen:
                        continue
                break
            res = self.finish_loop(n, k, names, init, objs, snaps, phs, ophs, lastph, rs, obls, make_reset, body, fr, restore_all, pre, fixed)
        except BaseException:
            restore_all()
            raise
        finally:
            self.thresholds.pop()
            self.allowed.pop()
            for o in objs:
                if isinstance(o, Lst):
                    o.rec = snaps[id(o)][1]
        final_names, final_objs, raises = res
        fr.vars.clear()
        fr.vars.update(pre)
        for o in objs:
            restore(o, snaps[id(o)])
        for o in objs:
            self.check_mut(o)
            v = final_objs[id(o)]
            if isinstance(o, Arr):
                o.vars, o.body = v.vars, v.body
            elif o.rec is not None:
                o.rec = list(v)
            else:
                list.clear(o)
                list.extend(o, v)
        fr.vars.update(final_names)
        if raises:
            types_ = {r[1].etype for r in raises}
            if len(types_) > 1:
                raise OutOfReach('several exception types in a loop')
            c = or_(*[cond for cond, e in raises])
            if self.branch(exists(k, ZERO, n, c)):
                raise raises[0][1]

    def fixed_counters(self, k, n, phs, reset, body, fr):
        """integer variables with a closed form that does not depend on the rest of the body
        (candidates only: finish_loop obliges them to be loop invariants)"""
        self.tolerant = fr
        try:
            rs, _ = self.body_paths(reset, k, n, body)
        finally:
            self.tolerant = None
        oks = [r for r in rs if r[1][0] == 'ok']
        out = {}
        if len(oks) != 1:
            return out
        atoms = {t for p in phs.values() for t in p.atoms}
        for x, p in phs.items():
            a = oks[0][1][1][0][x]
            if not isinstance(p.value, T) or p.value.sort != 'I' or not isinstance(a, (T, int)) or isinstance(a, bool):
                continue
            if any(mentions(a, [t]) for t in atoms if t not in p.atoms):
                continue
            try:
                out[x] = self.closed_form(p, a, k, n, False)[0]
            except OutOfReach:
                pass
        return out

    def finish_loop(self, n, k, names, init, objs, snaps, phs, ophs, lastph, rs, obls, make_reset, body, fr, restore_all, pre, fixed):
        raises = [(and_(*[c if ch else not_(c) for c, ch in path]), r[1]) for path, r in rs if r[0] == 'raise']
        if not any(r[1][0] == 'ok' for r in rs):
            # every iteration raises
            raises_all = raises
            return {}, {id(o): as_final(o, snaps[id(o)]) for o in objs}, raises_all

        def alternatives(rs, o):
            # what the paths append, one after the other: each repeated once if its path is taken and not at all otherwise
            out = []
            for path, r in rs:
                if r[0] == 'ok' and r[1][1][id(o)]:
                    c = and_(*[c if ch else not_(c) for c, ch in path])
                    known = dict(path)
                    out.append(Seg(ite(c, ONE, ZERO), fresh('once'), [under(x, known) for x in r[1][1][id(o)]]))
            return out

        def collect(rs):
            after = {}
            for x in names:
                vals = [r[1][1][0][x] for r in rs if r[1][0] == 'ok']
                if any(v is UNBOUND for v in vals):
                    after[x] = UNBOUND if x not in init else OutOfReach
                    continue
                try:
                    after[x] = self.merge_paths(rs, lambda s: s[0][x])
                except OutOfReach as e:
                    after[x] = e
            oafter = {}
            for o in objs:
                if isinstance(o, Lst):
                    counts = {len(r[1][1][1][id(o)]) for r in rs if r[1][0] == 'ok'}
                    if len(counts) == 1:
                        c = counts.pop()
                        try:
                            oafter[id(o)] = [self.merge_paths(rs, lambda s, j=j: s[1][id(o)][j], self.either) for j in range(c)]
                        except OutOfReach:
                            oafter[id(o)] = alternatives(rs, o)
                    elif counts == {0, 1}:
                        cond = or_(*[and_(*[c if ch else not_(c) for c, ch in p]) for p, r in rs if r[0] == 'ok' and len(r[1][1][id(o)]) == 1])
                        sub_ = [r for r in rs if r[1][0] == 'ok' and len(r[1][1][1][id(o)]) == 1]
                        v = self.merge_paths(sub_, lambda s: s[1][id(o)][0]) if len(sub_) > 1 else sub_[0][1][1][1][id(o)][0]
                        if isinstance(v, (Seg, FSeg)):
                            oafter[id(o)] = alternatives(rs, o)
                        else:
                            oafter[id(o)] = ('filt', cond, lift(v) if isinstance(v, (T, int, float)) else v)
                    else:
                        oafter[id(o)] = alternatives(rs, o)
                else:
                    oafter[id(o)] = self.merge_paths(rs, lambda s: s[1][id(o)])
            return after, oafter
        after, oafter = collect(rs)

        # ---- closed forms
        m1 = [p for x, p in phs.items()] + [p for p in ophs.values() if p] + list(lastph.values())
        atoms_all = set()
        for p in m1:
            atoms_all.update(p.atoms)
        pending = {}
        for x, p in phs.items():
            pending[('n', x)] = (p, after[x])
        for o in objs:
            if isinstance(o, Arr):
                pending[('o', id(o))] = (ophs[id(o)], oafter[id(o)])
            elif id(o) in lastph:
                r = oafter[id(o)]
                if not r or isinstance(r, tuple):
                    raise OutOfReach('list recurrence without append')
                pending[('l', id(o))] = (lastph[id(o)], r[-1])
        before, final, failed = {}, {}, {}
        submap = []      # substitutions ph -> before(k)

        def apply(v):
            for p, b in submap:
                v = ph_subst(v, p, b)
            return v
        progress = True
        while pending and progress:
            progress = False
            for key in list(pending):
                p, a = pending[key]
                if isinstance(a, Exception) or a is OutOfReach or a is UNBOUND or p.value is None:
                    others = set()
                    own = False
                else:
                    a = apply(a)
                    others = {t for t in atoms_all if t not in p.atoms and mentions(a, [t])}
                if others:
                    continue
                try:
                    if key[0] == 'n' and key[1] in fixed:
                        before[key], final[key] = fixed[key[1]], vsubst_k(fixed[key[1]], k, n)
                        del pending[key]
                        for t in p.atoms:
                            atoms_all.discard(t)
                        progress = True
                        continue
                    if p.value is None:
                        raise OutOfReach('unmodelled loop variable')
                    if isinstance(a, Exception):
                        raise a
                    if a is OutOfReach or a is UNBOUND:
                        raise OutOfReach('conditionally assigned variable')
                    b, f = self.closed_form(p, a, k, n, key[0] == 'o')
                    before[key], final[key] = b, f
                    submap.append((p, b))
                except OutOfReach as e:
                    # usable only if the placeholder is never mentioned
                    failed[key] = (e, a, p)
                for t in p.atoms:
                    atoms_all.discard(t)
                del pending[key]
                progress = True
        if pending:
            raise OutOfReach('mutually recursive loop variables: %s' % list(pending))

        used = set()
        for p in m1:
            for t in p.atoms:
                pass
        # which placeholders are mentioned by anything but their own recurrence
        def mentioned(p, skip):
            for x, v in after.items():
                if skip == ('n', x) or isinstance(v, Exception) or v is UNBOUND or v is OutOfReach:
                    continue
                if mentions(v, p.atoms):
                    return True
            for o in objs:
                if skip == ('o', id(o)):
                    continue
                v = oafter[id(o)]
                if mentions(v[1:] if isinstance(v, tuple) else v, p.atoms):
                    return True
            for nm, g, c in obls:
                if mentions(g, p.atoms) or any(mentions(f, p.atoms) for f in c.facts):
                    return True
            for path, r in rs:
                if any(mentions(c, p.atoms) for c, ch in path):
                    return True
            return False
        need2 = False
        allp = [(('n', x), p) for x, p in phs.items()] + [(('o', i), p) for i, p in ophs.items() if p] + [(('l', i), p) for i, p in lastph.items()]
        for key, p in allp:
            if p.value is not None and mentioned(p, key):
                need2 = True
                if key in failed:
                    raise failed[key][0]
        for key, (e, a, p) in failed.items():
            if p.value is None and key[0] == 'n' and isinstance(a, Exception):
                raise e

        if fixed and not need2:
            need2 = True
        if need2:
            def setup2(o):
                if isinstance(o, Arr):
                    b = before.get(('o', id(o)))
                    if b is None:
                        raise failed[('o', id(o))][0]
                    o.vars, o.body = b.vars, b.body
                else:
                    o.rec = []
                    o.reader = ListReader(self, o, snaps[id(o)], {}, k, last=before.get(('l', id(o))))

            def val2(x):
                if ('n', x) in before:
                    return before[('n', x)]
                p = phs[x]
                return p.value if p.value is not None else Blocked(x)
            rs, obls = self.body_paths(make_reset(val2, setup2), k, n, body)
            raises = [(and_(*[c if ch else not_(c) for c, ch in path]), r[1]) for path, r in rs if r[0] == 'raise']
            after, oafter = collect(rs)
            # the inferred loop invariants are inductive: init and preserve
            c2 = self.ctx.rng(k, ZERO, n)
            for key, b in before.items():
                a = after[key[1]] if key[0] == 'n' else oafter[key[1]]
                if key[0] == 'l':
                    a = oafter[key[1]][-1]
                p = dict(allp)[key]
                self.inv_oblige('loop-invariant-init', vsubst_k(b, k, ZERO), p.init, self.ctx)
                if isinstance(a, Exception) or a is UNBOUND or a is OutOfReach:
                    raise OutOfReach('loop invariant')
                self.inv_oblige('loop-invariant-preserved', vsubst_k(b, k, add(k, 1)), a, c2)
        self.obls.extend(obls)

        # ---- values after the loop
        last = sub(n, 1)
        nonempty = self.ctx.decide(lt(ZERO, n))
        final_names = {}
        for x in names:
            if ('n', x) in final:
                final_names[x] = final[('n', x)]
                continue
            a = after[x]
            if a is UNBOUND:
                continue
            if isinstance(a, Exception) or a is OutOfReach:
                final_names[x] = Blocked(x)
                continue
            v = vsubst(a, {k: last})
            if x in init:
                if nonempty is True:
                    final_names[x] = v
                elif nonempty is False:
                    final_names[x] = init[x]
                else:
                    try:
                        final_names[x] = self.merge(lt(ZERO, n), v, init[x])
                    except OutOfReach:
                        final_names[x] = Blocked(x)
            elif nonempty is True:
                final_names[x] = v
            else:
                final_names[x] = MaybeUnbound(v, lt(ZERO, n))
        final_objs = {}
        for o in objs:
            if isinstance(o, Lst):
                base = so_far(snaps[id(o)])
                r = oafter[id(o)]
                if isinstance(r, tuple):
                    final_objs[id(o)] = base + [FSeg(n, k, r[1], r[2])]
                else:
                    final_objs[id(o)] = base + ([Seg(n, k, r)] if r else [])
            else:
                key = ('o', id(o))
                if key not in final:
                    raise failed[key][0]
                final_objs[id(o)] = final[key]
        return final_names, final_objs, raises

    def inv_oblige(self, name, a, b, ctx):
        if isinstance(a, Arr) and isinstance(b, Arr):
            f = [fresh('e') for _ in a.shape]
            for v, s in zip(f, a.shape):
                ctx = ctx.rng(v, ZERO, s)
            self.oblige(name, EqGoal.make(a.at(*f), b.at(*f)), ctx)
        elif isinstance(a, Poly) and isinstance(b, Poly):
            x = fresh('X', 'R')
            self.oblige(name, EqGoal.make(a.at(x), b.at(x)), ctx)
        else:
            self.oblige(name, EqGoal.make(lift(a), lift(b)), ctx)

    def closed_form(self, p, a, k, n, is_obj):
        """value before iteration k, and after n iterations"""
        init = p.init
        if isinstance(p.value, Arr):
            if not isinstance(a, Arr) or a.ndim != p.value.ndim:
                if not mentions(a, p.atoms) and self.ctx.decide(lt(ZERO, n)):
                    raise OutOfReach('array changes shape in a loop')
                raise OutOfReach('array changes shape in a loop')
            vs = tuple(fresh('x') for _ in a.shape)
            ctx = self.ctx
            for v, s in zip(vs, init.shape):
                ctx = ctx.rng(v, ZERO, s)
            same = all(x is y or self.ctx.decide(eq(x, y)) for x, y in zip(a.shape, init.shape))
            if not same:
                raise OutOfReach('array changes shape in a loop')
            ix = tuple(ZERO if s is ONE else v for v, s in zip(vs, init.shape))
            ph = app(p.name, *ix, sort=p.value.body.sort)
            b, f = self.closed_scalar(ph, p.name, ix, init.at(*ix), simp(a.at(*ix), ctx.rng(k, ZERO, n)), k, n, ctx, init)
            return Arr(init.shape, vars=vs, body=b, kind=init.kind), Arr(init.shape, vars=vs, body=f, kind=init.kind)
        if isinstance(p.value, Poly):
            if not isinstance(a, Poly):
                raise OutOfReach('polynomial changes kind in a loop')
            x = fresh('X', 'R')
            ph = app(p.name, x)
            b, f = self.closed_scalar(ph, p.name, (x,), init.at(x), a.at(x), k, n, self.ctx, None)
            return Poly(x, b), Poly(x, f)
        if not isinstance(a, (T, int, float, np.number, bool)):
            raise OutOfReach('loop variable changes kind')
        b, f = self.closed_scalar(p.value, None, (), lift(init), lift(a), k, n, self.ctx, None)
        return b, as_py(f)

    def closed_scalar(self, ph, name, vs, init, a, k, n, ctx, init_arr):
        inner = ctx.rng(k, ZERO, n)
        a = lift(a)

        def has(t):
            return (name in ufs(t)) if name else (ph in fv(t))
        if not has(a):
            # assigned in every iteration
            am = lambda kk: subst(a, {k: kk})
            b = ite(eq(k, 0), init, am(sub(k, 1)))
            f = ite(le(n, 0), init, am(sub(n, 1)))
            if ctx.decide(lt(ZERO, n)):
                f = am(sub(n, 1))
            return b, f
        if a is ph:
            return init, init
        add_ = additive(a, ph, has)
        i = fresh('i')
        if add_ is not None:
            b, f = (add(init, sum_(i, ZERO, k, subst(add_, {k: i}))), add(init, sum_(i, ZERO, n, subst(add_, {k: i}))))
            return (simp(b, inner), simp(f, ctx)) if a.sort == 'I' else (b, f)
        mu = multiplicative(a, ph, has)
        if mu is not None:
            return (mul(init, prod_(i, ZERO, k, subst(mu, {k: i}))), mul(init, prod_(i, ZERO, n, subst(mu, {k: i}))))
        if vs and name:
            a = simp(a, inner)
            return self.region(ph, name, vs, init, a, k, n, ctx, init_arr)
        raise OutOfReach('loop recurrence without a closed form: %s' % show(a)[:200])

    def region(self, ph, name, vs, init, a, k, n, ctx, init_arr):
        """array written at positions depending on the iteration"""
        leaves = []

        def walk(t, guards):
            if t is ph:
                leaves.append((guards, None))
            elif t.op == 'ite':
                c = t.args[0]
                if name in ufs(c):
                    raise OutOfReach('array write depends on the array')
                walk(t.args[1], guards + split_and(c))
                walk(t.args[2], guards + split_and(not_(c)))
            else:
                leaves.append((guards, t))
        walk(a, [])
        inner = ctx.rng(k, ZERO, n)
        writes = []
        for guards, v in leaves:
            c = inner + guards
            if c.infeasible():
                continue
            if v is None:
                continue
            # drop guards implied by the range of the indices
            guards = [g for g in guards if g.op != 'or'] + [g for g in guards if g.op == 'or']
            s = self.solve_iter(guards, k, n, inner)
            if s is None:
                if os.environ.get('PYVC_TB'):
                    print('REGION', k, n, [show(g) for g in guards], [show(f) for f in inner.facts])
                raise OutOfReach('cannot determine which iteration writes an element')
            writes.append((guards, v, s))
        if any(k not in fv(and_(*g)) and (name in ufs(v) or k in fv(v)) for g, v, s in writes):
            raise OutOfReach('array rewritten in every iteration')
        # values that read the array itself: must read elements not written before
        def written(idx, upto):
            cs = []
            for guards, v, s in writes:
                m = {x: i for x, i in zip(vs, idx)}
                ss = subst(s, m)
                g = [subst(subst(x, m), {k: ss}) for x in guards]
                cs.append(and_(le(ZERO, ss), lt(ss, upto), *g))
            return or_(*cs)
        out = []
        for guards, v, s in writes:
            if name in ufs(v):
                cc = inner + guards

                def rep(*idx):
                    w = written(idx, k)
                    if cc.decide(w) is not False:
                        raise OutOfReach('array element depends on an element written earlier in the loop')
                    return init_arr.at(*idx)
                v = subst_uf(v, name, rep)
            out.append((guards, v, s))
        # distinct writers must not collide
        for i in range(len(out)):
            for j in range(i):
                if out[i][2] is not out[j][2]:
                    gi = [subst(g, {k: out[i][2]}) for g in out[i][0]]
                    gj = [subst(g, {k: out[j][2]}) for g in out[j][0]]
                    if not (ctx + gi + gj).infeasible():
                        raise OutOfReach('overlapping array writes in a loop')

        def build(upto):
            r = init
            for guards, v, s in reversed(out):
                g = and_(le(ZERO, s), lt(s, upto), *[subst(x, {k: s}) for x in guards])
                r = ite(g, subst(v, {k: s}), r)
            return r
        return simp(build(k), ctx.rng(k, ZERO, n)), simp(build(n), ctx)

    def solve_iter(self, guards, k, n, inner):
        dep = [g for g in guards if k in fv(g)]
        if not dep:
            return sub(n, 1)
        for g in dep:
            s = solve_eq(g, k)
            if s is not None:
                return s
        c = inner + guards
        for g in dep:
            if g.op != 'ge0' or g.args[0].sort != 'I':
                continue
            d = g.args[0]
            parts = d.args if d.op == 'add' else (d,)
            coef = []
            rest = []
            ok = True
            for p in parts:
                if k in fv(p):
                    q = exact_quot(p, k)
                    if q is None or k in fv(q):
                        ok = False
                        break
                    coef.append(neg(q))
                else:
                    rest.append(p)
            if not ok or not coef:
                continue
            w = add(ZERO, *coef)
            r = add(ZERO, *rest)
            for w2, r2 in ((w, r), (neg(w), neg(r)), (neg(w), sub(neg(r), 0))):
                if c.decide(and_(lt(ZERO, w2), le(ZERO, sub(r2, mul(w2, k))), lt(sub(r2, mul(w2, k)), w2))):
                    return idiv(r2, w2)
        return None

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise OutOfReach('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def name(self, x, fr):
        f = fr
        while f is not None:
            if x in f.vars:
                v = f.vars[x]
                if isinstance(v, MaybeUnbound):
                    self.oblige('bound-' + x, v.cond)
                    return v.v
                if isinstance(v, Blocked):
                    raise OutOfReach('loop-carried variable %s' % x)
                return v
            f = f.parent
        if x in fr.globals:
            return fr.globals[x]
        if hasattr(builtins, x):
            return getattr(builtins, x)
        raise PyRaise(NameError, (x,))

    def e_Attribute(self, e, fr):
        v = self.getattr(self.eval(e.value, fr), e.attr)
        return app('pi') if e.attr == 'pi' and isinstance(v, float) else v

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and '__class__' not in f.vars:
                f = f.parent
            if f is None:
                raise OutOfReach('super() outside a method')
            return SuperProxy(f.vars['__class__'], fr.self_)
        fn = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                it = self.iterate(v)
                if isinstance(it, SIter):
                    args.append(Star(v))
                else:
                    args.extend(it)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for kw in e.keywords:
            v = self.eval(kw.value, fr)
            if kw.arg is None:
                if not isinstance(v, dict):
                    raise OutOfReach('** of non-dict')
                kwargs.update(v)
            else:
                kwargs[kw.arg] = v
        return self.call(fn, args, kwargs)

    def e_Lambda(self, e, fr):
        return self.closure(e, fr, '<lambda>')

    def e_List(self, e, fr):
        return Lst(self.elts(e.elts, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        vs = self.elts(e.elts, fr)
        if is_symbolic(vs):
            raise OutOfReach('symbolic set')
        return set(vs)

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                it = self.iterate(v)
                if isinstance(it, SIter):
                    if isinstance(v, Lst):
                        out.extend(v)
                    else:
                        k = fresh('k')
                        out.append(Seg(it.n, k, [it.at(k)]))
                else:
                    out.extend(it)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = Dct()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                self.setitem(d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if not isinstance(v, ast.FormattedValue):
                out.append(v.value)
                continue
            x = self.eval(v.value, fr)
            spec = '' if v.format_spec is None else self.eval(v.format_spec, fr)
            out.append(formatted(x, {115: 's', 114: 'r', 97: 'a'}.get(v.conversion), spec))
        return text(*out)

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        d = self.ctx.decide(c)
        if d is None:
            # both branches, merged when possible
            a = self.sub_eval(e.body, fr, c)
            b = self.sub_eval(e.orelse, fr, not_(c))
            if a is not None and b is not None:
                try:
                    return self.merge(c, a[0], b[0])
                except OutOfReach:
                    pass
            d = self.branch(c)
        return self.eval(e.body if d else e.orelse, fr)

    def sub_eval(self, e, fr, c):
        """evaluate under an extra assumption without forking; None if that is impossible"""
        saved = self.ctx
        no = len(self.obls)
        dm = Decisions()
        self.dms.append(dm)
        self.ctx = saved + c
        try:
            v = self.eval(e, fr)
            if dm.path:
                del self.obls[no:]
                return None
            return (v,)
        except (PyRaise, Retry, OutOfReach):
            del self.obls[no:]
            return None
        finally:
            self.dms.pop()
            self.ctx = saved

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                last = v
                if acc is None:
                    return v
                t = self.truth(v)
                return as_py(and_(acc, t) if isand else or_(acc, t))
            t = self.truth(v)
            d = self.ctx.decide(t)
            if d is None:
                # pure conditions are combined symbolically when the rest can be evaluated
                rest = e.values[i + 1:]
                ts = [t if acc is None else (and_(acc, t) if isand else or_(acc, t))]
                ok = isinstance(v, (T, bool)) and (not isinstance(v, T) or v.sort == 'B')
                if ok:
                    cond = t if isand else not_(t)
                    for y in rest:
                        r = self.sub_eval(y, fr, cond)
                        if r is None or not (isinstance(r[0], (bool, np.bool_)) or (isinstance(r[0], T) and r[0].sort == 'B')):
                            ok = False
                            break
                        ts.append(lift(r[0]) if isinstance(r[0], T) else lift(bool(r[0])))
                        cond = and_(cond, ts[-1] if isand else not_(ts[-1]))
                if ok:
                    return as_py(and_(*ts) if isand else or_(*ts))
                d = self.branch(t)
            if d != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return as_py(not_(self.truth(v)))
        if isinstance(e.op, ast.USub):
            return self.unary('neg', v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.unary('invert', v)

    def unary(self, op, v):
        if is_symbolic(v):
            return self.table_call('unary', [op, v], {})
        return wrap(-v if op == 'neg' else ~v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(BIN[type(e.op)], a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if op == 'mod' and isinstance(a, str):
            return percent(a, b) if is_symbolic(b) else safe_format(a, plain(b))
        if op == 'add' and (is_text(a) and is_text(b)) and (isinstance(a, Rec) or isinstance(b, Rec)):
            return text(a, b)
        if isinstance(a, Lst) or isinstance(b, Lst):
            if op == 'add' and isinstance(a, list) and isinstance(b, list):
                return Lst(list(self.list_items(a)) + list(self.list_items(b)))
            if op == 'mult':
                l, c = (a, b) if isinstance(a, Lst) else (b, a)
                if isinstance(c, int):
                    return Lst(list(l) * c)
                if isinstance(c, T) and not l.symbolic():
                    if self.ctx.decide(le(ZERO, c)) is not True:
                        c = maxt(c, ZERO)
                    return Lst([Seg(c, fresh('k'), list(l))])
        if is_symbolic(a) or is_symbolic(b):
            for x, y, nm in ((a, b, DUNDER.get(op)), (b, a, RDUNDER.get(op))):
                if isinstance(x, Obj) and nm and self.class_attr(x.cls, nm) is not None:
                    return self.call(self.class_attr(x.cls, nm), [x, y], {})
                if isinstance(x, Rec) and nm and nm in x.spec:
                    return x.spec[nm](self, x, y)
            if isinstance(a, tuple) and isinstance(b, tuple) and op == 'add':
                return a + b
            return self.table_call('binop', [op, a, b], {})
        try:
            return wrap(OPS[op](a, b))
        except Exception as ex:
            raise PyRaise(type(ex), ex.args)

    def list_items(self, l):
        if isinstance(l, Lst) and l.rec is not None:
            raise OutOfReach('list read while extended in a loop')
        return l

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        acc = None
        for op, x in zip(e.ops, e.comparators):
            b = self.eval(x, fr)
            r = self.compare(type(op).__name__, a, b)
            if acc is None:
                acc = r
            elif isinstance(acc, (bool, T)) and isinstance(r, (bool, T)):
                acc = as_py(and_(self.truth(acc), self.truth(r)))
            else:
                raise OutOfReach('chained comparison of arrays')
            a = b
        return acc

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if op in ('Is', 'IsNot'):
            r = a is b
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Rec) and y is None and 'is None' in x.spec:
                    r = x.spec['is None'](self, x)
                    return as_py(r if op == 'Is' else not_(lift(r)))
            if isinstance(a, T) and isinstance(b, T) and a is not b:
                raise OutOfReach('identity of terms')
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else as_py(not_(lift(r)))
        if is_symbolic(a) or is_symbolic(b):
            if isinstance(a, Rec) or isinstance(b, Rec):
                return self.rec_compare(op, a, b)
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                if op == 'Eq':
                    return False
                if op == 'NotEq':
                    return True
            if isinstance(a, tuple) and isinstance(b, tuple) and op in ('Eq', 'NotEq') and not has_seg(a) and not has_seg(b):
                if len(a) != len(b):
                    return op == 'NotEq'
                r = TRUE
                for x, y in zip(a, b):
                    r = and_(r, self.truth(self.compare('Eq', x, y)))
                return as_py(r if op == 'Eq' else not_(r))
            if isinstance(a, Lst) and isinstance(b, Lst) and op in ('Eq', 'NotEq') and not a.symbolic() and not b.symbolic():
                return self.compare(op, tuple(a), tuple(b))
            return self.table_call('compare', [op, a, b], {})
        try:
            return wrap(CMP[op](a, b))
        except Exception as ex:
            raise PyRaise(type(ex), ex.args)

    def rec_compare(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Rec) and '__eq__' in x.spec and op in ('Eq', 'NotEq'):
                r = lift(x.spec['__eq__'](self, x, y))
                return as_py(r if op == 'Eq' else not_(r))
        if op in ('Eq', 'NotEq'):
            if a is b:
                return op == 'Eq'
            ca, cb = [x.cls if isinstance(x, Rec) else type(x) for x in (a, b)]
            if (b is None or a is None) and None not in (ca, cb):
                return op == 'NotEq'
            if isinstance(a, Rec) and isinstance(b, Rec) and a.name == b.name and len(a.args) == len(b.args) and a.spec.get('injective'):
                r = TRUE
                for x, y in zip(a.args, b.args):
                    r = and_(r, self.truth(self.compare('Eq', x, y)))
                return as_py(r if op == 'Eq' else not_(r))
        raise OutOfReach('comparison of %r and %r' % (a, b))

    def member(self, parts, x):
        """x is one of the elements"""
        r = FALSE
        for p in parts:
            if isinstance(p, (Seg, FSeg)):
                k = fresh('k')
                p = vsubst(p.elems if isinstance(p, Seg) else [p.elem], {p.var: k}), p.n, subst(p.cond, {p.var: k}) if isinstance(p, FSeg) else TRUE
                r = or_(r, exists(k, ZERO, p[1], and_(p[2], self.member(p[0], x))))
            else:
                r = or_(r, self.truth(self.compare('Eq', x, p)))
        return r

    def contains(self, c, x):
        if isinstance(c, Rec) and '__contains__' in c.spec:
            return c.spec['__contains__'](self, c, x)
        if isinstance(c, Opq) and '__contains__' in c.attrs:
            return self.call(c.attrs['__contains__'], [x], {})
        if isinstance(c, Obj):
            m = self.class_attr(c.cls, '__contains__')
            if isinstance(m, types.FunctionType):
                return self.call(m, [c, x], {})
            if '<dict>' in c.attrs:
                return self.contains(c.attrs['<dict>'], x)
        if isinstance(c, SDct):
            return self.contains(self.comp_pairs(c, 0), x)
        if isinstance(c, (Lst, tuple)) and has_seg(c) and getattr(c, 'rec', None) is None:
            return as_py(self.member(c, x))
        if isinstance(c, SYMBOLIC) or (isinstance(c, Lst) and c.symbolic()):
            raise OutOfReach('membership in %s' % type(c).__name__)
        if isinstance(c, Dct) and not c and (c.log is not None or _has_unknown(x)):
            s = self.dict_pairs(c)
            if s is not None:
                return self.contains(s, x)
            return self.dict_contains(c, x)
        if isinstance(c, Dct) and self.dict_symbolic(c):
            raise OutOfReach('membership in a dictionary with symbolic keys')
        if isinstance(c, dict):
            if is_symbolic(x) and not _hashable(x):
                raise OutOfReach('symbolic key')
            if isinstance(x, T) or is_symbolic(x):
                return as_py(or_(FALSE, *[self.truth(self.compare('Eq', x, y)) for y in c]))
            return x in c
        if is_symbolic(x) or is_symbolic(c):
            return as_py(or_(FALSE, *[self.truth(self.compare('Eq', x, y)) for y in c]))
        try:
            return x in c
        except Exception as ex:
            raise PyRaise(type(ex), ex.args)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.index_value(e.slice, fr))

    def index_value(self, s, fr):
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return slice(*[None if x is None else self.eval(x, fr) for x in (e.lower, e.upper, e.step)])

    def getitem(self, o, i):
        o, i = self.force(o), self.force(i)
        if isinstance(o, SDct):
            return self.lookup(o, i)
        if isinstance(o, Lst) and o.rec is not None:
            return o.reader.get(i)
        if isinstance(o, Obj):
            m = self.class_attr(o.cls, '__getitem__')
            if m is not None:
                return self.call(m, [o, i], {})
        if isinstance(o, Opq) and '__getitem__' in o.attrs:
            return self.call(o.attrs['__getitem__'], [i], {})
        if isinstance(o, Rec) and '__getitem__' in o.spec:
            return o.spec['__getitem__'](self, o, i)
        if isinstance(o, SIter) or (isinstance(o, range) and isinstance(i, Rec)):
            # only ranges can be indexed
            if isinstance(i, Rec) and i.cls is slice:
                sel = self.call(range, list(self.call(self.getattr(i, 'indices'), [as_py(lift(self.length(o)))], {})), {})
                at = o.at if isinstance(o, SIter) else lambda k: add(o.start, mul(o.step, k))
                if isinstance(sel, SIter):
                    return SIter(sel.n, lambda k: at(lift(sel.at(k))))
                raise OutOfReach('slice of a range')
            if isinstance(o, SIter):
                k = fresh('k')
                return self.list_get(Lst([Seg(o.n, k, [o.at(k)])]), i)
        if isinstance(o, tuple) and has_seg(o):
            r = self.list_get(Lst(o), i)
            return tuple(r) if isinstance(i, slice) else r
        if isinstance(o, Lst) and (o.symbolic() or isinstance(i, T) or (isinstance(i, slice) and is_symbolic([i.start, i.stop, i.step]))):
            return self.list_get(o, i)
        if isinstance(o, (list, tuple, dict)):
            if isinstance(i, T) and isinstance(o, tuple):
                return self.list_get(Lst(o), i)
            if isinstance(o, Dct) and self.dict_symbolic(o, i):
                return self.dict_get(o, i)
            if isinstance(o, dict) and (isinstance(i, T)):
                raise OutOfReach('symbolic dict key')
            try:
                r = o[i]
                return Lst(r) if isinstance(o, Lst) and isinstance(i, slice) else r
            except Exception as ex:
                raise PyRaise(type(ex), ex.args)
        if is_symbolic(o) or is_symbolic(i) or (isinstance(i, slice) and is_symbolic([i.start, i.stop, i.step])):
            return self.table_call('getitem', [o, i], {})
        try:
            return wrap(o[i])
        except Exception as ex:
            raise PyRaise(type(ex), ex.args)

    def list_get(self, o, i):
        if isinstance(i, slice) and has_seg(o):
            r = self.slice_parts(o, i)
            if r is not None:
                return r
        n = lift(self.length(o))
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                if i.step == -1 and i.start is None and i.stop is None:
                    k = fresh('k')
                    return Lst([Seg(n, k, [self.seq_at(o, sub(sub(n, 1), k))])])
                raise OutOfReach('list slice step')
            lo, hi = self.slice_bounds(i, n)
            if lo is ZERO and hi is n:
                return Lst(o)
            k = fresh('k')
            saved = self.ctx
            self.ctx = self.ctx.rng(k, ZERO, sub(hi, lo))
            try:
                v = self.seq_at(o, add(lo, k))
            finally:
                self.ctx = saved
            return Lst([Seg(sub(hi, lo), k, [v])])
        if not isinstance(i, (int, T, np.integer)):
            if isinstance(i, Arr) and i.ndim == 0:
                i = i.at()
            else:
                raise OutOfReach('list index')
        k = self.norm_index(lift(i), n)
        return self.seq_at(o, k)

    def slice_parts(self, o, i):
        """slices that cut between the parts of a list"""
        if i.step == -1 and i.start is None and i.stop is None:
            def rev(x):
                if isinstance(x, FSeg):
                    raise OutOfReach('reversed filtered list')
                if isinstance(x, Seg):
                    return Seg(x.n, x.var, [rev(vsubst(y, {x.var: sub(sub(x.n, 1), x.var)})) for y in reversed(x.elems)])
                return x
            return Lst([rev(x) for x in reversed(list(o))])
        if i.step not in (None, 1):
            return None
        parts = list(o)
        lo = 0 if i.start is None else as_py(i.start) if isinstance(i.start, T) else i.start
        if type(lo) is not int or lo < 0:
            return None
        hi = i.stop
        drop = 0
        if hi is not None:
            hi = lift(hi)
            # stop = length - d, or -d
            d = None
            if hi.op == 'const' and hi.args[0] < 0:
                d = -hi
            else:
                try:
                    d = neg(hi) if self.ctx.decide(lt(hi, ZERO)) else sub(lift(self.length(o)), hi)
                except OutOfReach:
                    return None
            if i.start is not None:
                return None
            tail = ZERO
            j = len(parts)
            while True:
                if self.ctx.decide(eq(tail, d)):
                    return Lst(parts[:j])
                if j == 0:
                    return None
                x = parts[j - 1]
                if isinstance(x, FSeg):
                    return None
                tail = add(tail, x.count if isinstance(x, Seg) else 1)
                j -= 1
        while lo > 0:
            if not parts:
                return Lst([])
            x = parts.pop(0)
            if isinstance(x, FSeg):
                return None
            if isinstance(x, Seg):
                if x.nested or len(x.elems) != 1 or self.ctx.decide(le(lo, x.n)) is not True:
                    return None
                parts.insert(0, Seg(sub(x.n, lo), x.var, [vsubst(x.elems[0], {x.var: add(x.var, lo)})]))
                lo = 0
            else:
                lo -= 1
        return Lst(parts)

    def norm_index(self, i, n):
        i = lift(i)
        n = lift(n)
        if i.sort != 'I':
            raise OutOfReach('non-integer index')
        if i.op == 'const':
            r = i if i.args[0] >= 0 else add(n, i)
        else:
            d = self.ctx.decide(le(ZERO, i))
            if d is True:
                r = i
            elif d is False:
                r = add(n, i)
            else:
                r = ite(le(ZERO, i), i, add(n, i))
        self.oblige('index-in-range', and_(le(ZERO, r), lt(r, n)))
        return r

    def slice_bounds(self, s, n):
        def clamp(x, default):
            if x is None:
                return default
            x = lift(as_scalar(x))
            if x.sort != 'I':
                raise OutOfReach('slice bound')
            if x.op == 'const':
                if x.args[0] < 0:
                    x = add(n, x)
            else:
                d = self.ctx.decide(le(ZERO, x))
                if d is False:
                    x = add(n, x)
                elif d is None:
                    x = ite(le(ZERO, x), x, add(n, x))
            if self.ctx.decide(le(ZERO, x)) is not True:
                x = maxt(x, ZERO)
            if self.ctx.decide(le(x, n)) is not True:
                x = mint(x, n)
            return x
        lo = clamp(s.start, ZERO)
        hi = clamp(s.stop, lift(n))
        if self.ctx.decide(le(lo, hi)) is not True:
            hi = maxt(hi, lo)
        return lo, hi

    def setitem(self, o, i, v):
        if isinstance(o, Opq) and '__setitem__' in o.attrs:
            return self.call(o.attrs['__setitem__'], [i, v], {})
        if isinstance(o, Rec) and '__setitem__' in o.spec:
            return o.spec['__setitem__'](self, o, i, v)
        if isinstance(o, Obj):
            m = self.class_attr(o.cls, '__setitem__')
            if m is not None:
                return self.call(m, [o, i, v], {})
        if isinstance(o, Dct) and self.dict_symbolic(o, i):
            return self.dict_set(o, i, v)
        if isinstance(o, (Lst, Dct)):
            self.check_mut(o)
            if isinstance(o, Lst) and o.rec is None and len(o) == 1 and type(o[0]) is Seg and not o[0].nested and len(o[0].elems) == 1 and (isinstance(i, T) or isinstance(i, int)):
                s, i = o[0], lift(i)
                if not self.branch(and_(le(ZERO, i), lt(i, s.n))):
                    if self.branch(and_(lt(i, ZERO), le(ZERO, add(s.n, i)))):
                        i = add(s.n, i)
                    else:
                        raise PyRaise(IndexError)
                k, e = fresh('k'), s.elems[0]
                o[:] = [Seg(i, s.var, [e]), v, Seg(sub(sub(s.n, i), ONE), k, [vsubst(e, {s.var: add(i, ONE, k)})])]
                return
            if isinstance(o, Lst) and (o.symbolic() or o.rec is not None or isinstance(i, T)):
                raise OutOfReach('assignment into a symbolic list')
            if isinstance(i, T):
                raise OutOfReach('symbolic key')
            try:
                o[i] = v
            except Exception as ex:
                raise PyRaise(type(ex), ex.args)
            return
        self.table_call('setitem', [o, i, v], {})

    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def e_SetComp(self, e, fr):
        v = self.comp(e, fr)
        if is_symbolic(v):
            raise OutOfReach('symbolic set')
        return set(v)

    def e_DictComp(self, e, fr):
        pair = ast.ListComp(ast.Tuple([e.key, e.value], ast.Load()), e.generators)
        v = self.comp(pair, fr)
        if v.symbolic():
            return SDct(v)
        return Dct({k: x for k, x in v})

    def comp(self, e, fr, gi=0, inner=None):
        inner = inner or Frame(fr.globals, fr)
        inner.cls, inner.self_ = fr.cls, fr.self_
        g = e.generators[gi]
        src = self.eval(g.iter, inner if gi else fr)
        return self.comp_over(src, e, g, fr, gi, inner)

    def comp_over(self, src, e, g, fr, gi, inner):
        """part by part over the sequence src"""
        last = gi + 1 == len(e.generators)
        if has_seg(src) and getattr(src, 'rec', None) is None and by_parts(src):
            parts = list(src)
        else:
            it = self.iterate(src)
            if isinstance(it, SIter):
                k = fresh('k')
                parts = [(it.n, k, lambda: it.at(k))]
            else:
                parts = it

        def item(x):
            """parts contributed by one element (the target is bound to it), under the filter of the generator"""
            self.assign(g.target, x, inner)
            if last:
                return [self.eval(e.elt, inner)]
            return list(self.comp(e, fr, gi + 1, inner))
        out = Lst()
        for x in parts:
            if isinstance(x, FSeg):
                k = fresh('k')
                out.extend(self.comp_seg(x.n, k, None, lambda x=x, k=k: vsubst(x.elem, {x.var: k}), e, g, inner, item, subst(x.cond, {x.var: k})))
            elif isinstance(x, Seg):
                out.extend(self.comp_seg(x.n, x.var, x.elems, None, e, g, inner, item))
            elif type(x) is tuple and len(x) == 3 and callable(x[2]) and isinstance(x[1], T):
                out.extend(self.comp_seg(x[0], x[1], None, x[2], e, g, inner, item))
            else:
                self.assign(g.target, x, inner)
                if all(self.test(self.eval(c, inner)) for c in g.ifs):
                    out.extend(item(x))
        return out

    def comp_seg(self, n, k0, elems, at, e, g, inner, item, given=TRUE):
        if isconst(n) and given is TRUE:
            out = []
            for i in range(int(n.args[0])):
                xs = [vsubst(x, {k0: I(i)}) for x in elems] if elems is not None else [vsubst(at(), {k0: I(i)})]
                for x in xs:
                    if isinstance(x, Seg):
                        out.extend(self.comp_seg(x.n, x.var, x.elems, None, e, g, inner, item))
                        continue
                    self.assign(g.target, x, inner)
                    if all(self.test(self.eval(c, inner)) for c in g.ifs):
                        out.extend(item(x))
            return out
        k = k0 if elems is None else fresh('k')

        def run():
            # run.out: (cond, parts)
            xs = [at()] if elems is None else [vsubst(x, {k0: k}) for x in elems]
            cond = given
            if cond is not TRUE:
                self.ctx = self.ctx + cond
            parts = []
            for x in xs:
                if isinstance(x, Seg):
                    parts.extend(self.comp_seg(x.n, x.var, x.elems, None, e, g, inner, item))
                    continue
                if g.ifs:
                    self.assign(g.target, x, inner)
                    c = TRUE
                    for q in g.ifs:
                        c = and_(c, self.truth(self.eval(q, inner)))
                    if len(xs) > 1 and c is not TRUE and c is not FALSE:
                        raise OutOfReach('filtered comprehension over an interleaved list')
                    if c is FALSE:
                        if len(xs) == 1:
                            run.out = (FALSE, None)
                            return
                        continue
                    if c is not TRUE:
                        cond = and_(cond, c)
                        self.ctx = self.ctx + c
                try:
                    parts.extend(item(x))
                except PyRaise as ex:
                    ex.cond = cond
                    raise
            run.out = (cond, parts)
        thr = next(_serial_counter())
        self.thresholds.append(thr)
        self.allowed.append(set())
        try:
            run.out = None

            def reset():
                return lambda: run.out
            rs, obls = self.body_paths(reset, k, n, run)
        except Retry:
            raise OutOfReach('mutation inside a comprehension')
        finally:
            self.thresholds.pop()
            self.allowed.pop()
        self.obls.extend(obls)
        raises = [(and_(*[c if ch else not_(c) for c, ch in path], getattr(r[1], 'cond', TRUE)), r[1]) for path, r in rs if r[0] == 'raise']
        oks = [r for r in rs if r[1][0] == 'ok' and r[1][1][0] is not FALSE]
        drop = [r for r in rs if r[1][0] == 'ok' and r[1][1][0] is FALSE]
        if raises:
            if self.branch(exists(k, ZERO, n, or_(*[c for c, x in raises]))):
                raise PyRaise(raises[0][1].etype, raises[0][1].eargs)
        if not oks:
            return []
        cond = self.merge_paths(oks, lambda s: s[0])
        cond = TRUE if cond is True else cond
        if drop:
            cond = and_(cond, not_(or_(*[and_(*[c if ch else not_(c) for c, ch in path]) for path, r in drop])))
        m = {len(r[1][1][1]) for r in oks}
        if len(m) != 1:
            raise OutOfReach('comprehension of varying shape')
        m = m.pop()
        vals = [self.merge_paths(oks, lambda s, j=j: s[1][j], self.either) for j in range(m)]
        if cond is TRUE:
            return [Seg(n, k, vals)] if vals else []
        if len(vals) != 1 or isinstance(vals[0], (Seg, FSeg)):
            raise OutOfReach('filtered comprehension of varying shape')
        return [FSeg(n, k, lift(cond), lift(vals[0]) if isinstance(vals[0], (int, float)) else vals[0])]

    def e_Yield(self, e, fr):
        y = getattr(fr, 'yields', None)
        if y is None:
            raise OutOfReach('yield')
        self.list_method(y, 'append', [None if e.value is None else self.eval(e.value, fr)], {})

    def e_YieldFrom(self, e, fr):
        y = getattr(fr, 'yields', None)
        v = self.eval(e.value, fr)
        if y is None or not isinstance(v, (list, tuple)):
            raise OutOfReach('yield from')
        self.list_method(y, 'extend', [v], {})

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise OutOfReach('starred expression')

    def table_call(self, name, args, kwargs):
        for t in self.tables:
            m = t.get(name)
            if m is not None:
                return m(self, *args, **kwargs)
        raise OutOfReach('no model for %s' % name)


class Star:
    """*symbolic-list argument"""
    symbolic_value = True

    def __init__(self, v):
        self.v = v


class SuperProxy:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def get(self, it, name):
        base_cls = self.self_.cls if isinstance(self.self_, Obj) else self.self_
        mro = base_cls.__mro__
        mro = mro[mro.index(self.cls) + 1:]
        for c in mro:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, staticmethod):
                    # __new__
                    f = a.__func__
                    return f
                key = ('super', c, name)
                for t in it.tables:
                    if key in t:
                        return Model_(lambda i, *x, **k: t[key](i, self.self_, *x, **k))
                if isinstance(a, property):
                    return it.call(a.fget, [self.self_], {})
                if isinstance(a, types.FunctionType) and it.inlined(a):
                    return BoundMethod(self.self_, a)
                if name == '__init__' and c is object:
                    return Model_(lambda i, *x, **k: None)
                raise OutOfReach('super().%s of %s' % (name, c))
        raise PyRaise(AttributeError, (name,))


class ListReader:
    """reads of a list that is being extended by a symbolic loop"""

    def __init__(self, it, lst, snap, lastph, k, last=None):
        self.it, self.lst, self.lastph, self.k, self.last = it, lst, lastph, k, last
        self.base = snap[0]
        self.nested = snap[1] is not None

    def get(self, i):
        rec = self.lst.rec
        if isinstance(i, int) and i < 0 and -i <= len(rec):
            return rec[i]
        if self.nested:
            raise OutOfReach('read of a list being extended in nested loops')
        is_last = isinstance(i, int) and i == -1 and not rec
        if not is_last and isinstance(i, (int, T)) and not rec:
            # index of the last element, assuming one append per iteration (checked by the invariant)
            n0 = lift(self.it.length(Lst(self.base)))
            if self.it.ctx.decide(eq(lift(i), add(n0, sub(self.k, 1)))):
                is_last = True
        if is_last:
            if self.last is not None:
                return self.last
            if id(self.lst) not in self.lastph:
                if not self.base:
                    raise OutOfReach('last element of an empty list')
                x = self.base[-1]
                if isinstance(x, Seg):
                    x = x.at(sub(x.n, 1), len(x.elems) - 1)
                if isinstance(x, FSeg):
                    raise OutOfReach('last element of filtered list')
                p = Ph(x, 'R')
                if p.value is None:
                    raise OutOfReach('list recurrence over %s' % type(x).__name__)
                self.lastph[id(self.lst)] = p
            return self.lastph[id(self.lst)].value
        raise OutOfReach('read of a list being extended in a loop')


class _Unbound:
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = _Unbound()


class EqGoal:
    make = staticmethod(lambda a, b: eq(a, b))


def _serial_counter():
    from . import values
    return values._serial


def snapshot(o):
    if isinstance(o, Lst):
        return (list(o), None if o.rec is None else list(o.rec), getattr(o, 'reader', None))
    if isinstance(o, Arr):
        return (o.vars, o.body)
    if isinstance(o, Obj):
        return (dict(o.attrs),)
    if isinstance(o, Dct):
        return (dict(o),)
    raise OutOfReach('mutation of %s in a symbolic loop' % type(o).__name__)


def restore(o, s):
    if isinstance(o, Lst):
        list.clear(o)
        list.extend(o, s[0])
        o.rec = None if s[1] is None else list(s[1])
        o.reader = s[2]
    elif isinstance(o, Arr):
        o.vars, o.body = s
    elif isinstance(o, Obj):
        o.attrs.clear()
        o.attrs.update(s[0])
    elif isinstance(o, Dct):
        dict.clear(o)
        dict.update(o, s[0])


def has_add(e):
    return any(has_add(x) if isinstance(x, Seg) else x[0] == 'add' for x in e.elems)


def _has_unknown(x):
    return isinstance(x, tuple) and (has_seg(x) or any(isinstance(y, Rec) for y in x))


def same_value(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return isinstance(a, (T, int)) and isinstance(b, (T, int)) and lift(a) is lift(b)
    if isinstance(a, Seg) and isinstance(b, Seg):
        return a.n is b.n and len(a.elems) == len(b.elems) and all(same_value(x, vsubst(y, {b.var: a.var})) for x, y in zip(a.elems, b.elems))
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.name == b.name and len(a.args) == len(b.args) and all(same_value(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, tuple) == isinstance(b, tuple) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and not is_symbolic(a) and not is_symbolic(b) and bool(a == b)


def so_far(s):
    """items of a list (inside another symbolic loop: those added in the current iteration) before a loop"""
    return list(s[0] if s[1] is None else s[1])


def after_state(o):
    if isinstance(o, Lst):
        r = list(o.rec)
        o.rec = None
        return r
    return Arr(o.shape, vars=o.vars, body=o.body, kind=o.kind)


def as_final(o, s):
    if isinstance(o, Lst):
        return so_far(s)
    return Arr(o.shape, vars=s[0], body=s[1], kind=o.kind)


def vsubst_k(v, k, x):
    if isinstance(v, (T, int, float)):
        return subst(lift(v), {k: x})
    return vsubst(v, {k: x})


def ph_subst(v, p, b):
    """replace the placeholder p by the value b inside v"""
    if isinstance(p.value, T):
        return vsubst(v, {p.value: lift(b)})
    fn = (lambda *i: b.at(*i))
    return vmap(v, lambda t: subst_uf(t, p.name, fn))


def vmap(v, f):
    if isinstance(v, T):
        return f(v)
    if isinstance(v, Arr):
        a = Arr([f(s) for s in v.shape], vars=v.vars, body=f(v.body), kind=v.kind)
        return a
    if isinstance(v, Poly):
        return Poly(v.x, f(v.body))
    if isinstance(v, Filt):
        return type(v)(f(v.n), v.var, f(v.cond), vmap(v.elem, f))
    if isinstance(v, Seg):
        return Seg(f(v.n), v.var, [vmap(e, f) for e in v.elems])
    if isinstance(v, Lst):
        return Lst([vmap(e, f) for e in v])
    if isinstance(v, (list, tuple)):
        return type(v)(vmap(e, f) for e in v)
    if isinstance(v, Obj):
        return Obj(v.cls, {k: vmap(e, f) for k, e in v.attrs.items()})
    if isinstance(v, (Rec, SDct)):
        return v.map(lambda e: vmap(e, f))
    return v


def under(v, known):
    """the value where the truth of the given conditions is known"""
    if isinstance(v, Rec) and v.name == 'ite':
        c = v.args[0]
        d = known.get(c)
        if d is None and c.op == 'not' and c.args[0] in known:
            d = not known[c.args[0]]
        if d is None and not_(c) in known:
            d = not known[not_(c)]
        if d is not None:
            return under(v.args[1 if d else 2], known)
        return Rec('ite', (c, under(v.args[1], known), under(v.args[2], known)), v.cls, v.spec)
    if type(v) is tuple:
        r = tuple(under(x, known) for x in v)
        return v if all(x is y for x, y in zip(r, v)) else r
    if isinstance(v, Lst) and v.rec is None:
        r = [under(x, known) for x in v]
        return v if all(x is y for x, y in zip(r, v)) else Lst(r)
    if isinstance(v, Seg):
        r = [under(x, known) for x in v.elems]
        return v if all(x is y for x, y in zip(r, v.elems)) else Seg(v.n, v.var, r)
    return v


def by_parts(v):
    """loops over this list are run part by part (not element by index)"""
    def simple(x):
        return isinstance(x, (T, int, float, Arr, np.number)) and not isinstance(x, bool)
    for x in v:
        if isinstance(x, FSeg):
            return True
        if isinstance(x, Seg) and (x.nested or not all(simple(e) for e in x.elems)):
            return True
        if not isinstance(x, Seg) and not simple(x):
            return True
    return False


def additive(a, ph, has):
    """d with a == ph + d, d free of ph"""
    if a is ph:
        return ZERO
    if a.op == 'ite' and not has(a.args[0]):
        x, y = additive(a.args[1], ph, has), additive(a.args[2], ph, has)
        if x is None or y is None:
            return None
        return ite(a.args[0], x, y)
    if a.op == 'add' and ph in a.args:
        d = add(*[x for x in a.args if x is not ph])
        return None if has(d) else d
    try:
        p = ring.to_poly(a)
    except ring.TooBig:
        return None
    if p.get(((ph, 1),)) != 1:
        return None
    d = sub(a, ph)
    rest = ring.from_poly({m: c for m, c in p.items() if m != ((ph, 1),)})
    return None if has(rest) else rest


def multiplicative(a, ph, has):
    if a is ph:
        return ONE
    if a.op == 'ite' and not has(a.args[0]):
        x, y = multiplicative(a.args[1], ph, has), multiplicative(a.args[2], ph, has)
        if x is None or y is None:
            return None
        return ite(a.args[0], x, y)
    if a.op == 'mul' and ph in a.args:
        l = list(a.args)
        l.remove(ph)
        d = mul(*l)
        return None if has(d) else d
    if a.op == 'div' and not has(a.args[1]):
        x = multiplicative(a.args[0], ph, has)
        return None if x is None else div(x, a.args[1])
    try:
        p = ring.to_poly(a)
    except ring.TooBig:
        return None
    out = {}
    for m, c in p.items():
        d = dict(m)
        if d.get(ph) != 1:
            return None
        del d[ph]
        out[tuple(sorted(d.items(), key=lambda q: q[0].id))] = c
    r = ring.from_poly(out)
    return None if has(r) else r


def split_and(c):
    return list(c.args) if c.op == 'and' else [c]


def exact_quot(p, k):
    """p / k for a monomial p containing k once"""
    c, r = tm._split_coeff(p)
    fs = list(r.args) if r.op == 'mul' else [r]
    if k not in fs:
        return None
    fs.remove(k)
    return mul(I(c), *fs) if fs else I(c)


def assigned(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
    for s in stmts:
        V().visit(s)
    return out


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def walk_fn(node):
    """nodes of a function excluding nested functions"""
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def as_scalar(x):
    if isinstance(x, Arr) and x.ndim == 0:
        return x.at()
    return x


def wrap(v):
    """containers created by native code become mutable-tracked containers"""
    if type(v) is list:
        return Lst([wrap(x) for x in v])
    if type(v) is tuple:
        return tuple(wrap(x) for x in v)
    if type(v) is dict:
        return Dct({k: wrap(x) for k, x in v.items()})
    if isinstance(v, np.bool_):
        return bool(v)
    return v


def to_arr(a, kind='np'):
    """concrete numpy array -> Arr"""
    a = np.asarray(a)
    if a.size > 64:
        raise OutOfReach('large concrete array')
    if a.ndim == 0:
        return Arr((), lambda: lift(a.item()))

    def fn(*idx):
        def go(sub_, ix):
            if not ix:
                return lift(sub_.item())
            i = ix[0]
            if len(sub_) == 0:
                return ZERO
            r = go(sub_[-1], ix[1:])
            for q in range(len(sub_) - 2, -1, -1):
                r = ite(eq(i, q), go(sub_[q], ix[1:]), r)
            return r
        return go(a, list(idx))
    return Arr(a.shape, fn, kind=kind)


def is_text(v):
    return isinstance(v, str) or isinstance(v, Rec) and isinstance(v.cls, type) and issubclass(v.cls, str)


def text(*parts):
    """a text joined from parts, some of them unknown"""
    out = []
    for x in parts:
        if isinstance(x, T) and x.op == 'const':
            x = str(as_py(x))
        for y in x.args if isinstance(x, Rec) and x.name == 'text' else [x]:
            if isinstance(y, str) and out and isinstance(out[-1], str):
                out[-1] += y
            elif y != '' or not isinstance(y, str):
                out.append(y)
    if all(isinstance(x, str) for x in out):
        return ''.join(out)
    return out[0] if len(out) == 1 and is_text(out[0]) else Rec('text', out, str, {})


def formatted(x, conversion=None, spec=''):
    if isinstance(x, T) and x.op == 'const':
        x = as_py(x)
    if not is_symbolic(x) and not is_symbolic(spec):
        x = plain(x)
        x = str(x) if conversion == 's' else repr(x) if conversion == 'r' else ascii(x) if conversion == 'a' else x
        return format(x, spec)
    if conversion in (None, 's') and is_text(x) and spec in ('', 's'):
        return x
    if isinstance(x, T) and x.sort == 'I' and spec in ('', 'd'):
        return Rec('str', (x,), str, {})
    return Rec('str', (x, str(conversion if conversion != 's' else None), spec if isinstance(spec, str) else '?'), str, {})


def percent(a, b):
    import re
    args = list(b) if isinstance(b, tuple) and not has_seg(b) else [b]
    out = []
    for m in re.finditer(r'%(?:%|([^a-zA-Z%]*)([a-zA-Z]))|[^%]+', a):
        if not m.group().startswith('%'):
            out.append(m.group())
        elif m.group() == '%%':
            out.append('%')
        else:
            if not args:
                raise PyRaise(TypeError, ('not enough arguments for format string',))
            x = args.pop(0)
            k = m.group(2)
            out.append(formatted(x, 'r' if k == 'r' else None, m.group(1) + ('' if k in 'srid' else k)))
    if args:
        raise PyRaise(TypeError, ('not all arguments converted during string formatting',))
    return text(*out)


def joined(sep, items):
    if not isinstance(items, (list, tuple)) or getattr(items, 'rec', None) is not None:
        return Rec('join', (sep, items), str, {})
    if has_seg(items):
        return Rec('join', (sep, Lst(items)), str, {})
    out = []
    for i, x in enumerate(items):
        out += ([sep] if i else []) + [x]
    return text(*out)


def safe_format(a, b):
    try:
        return a % b
    except Exception as ex:
        raise PyRaise(type(ex), ex.args)


BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mult', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
       ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
       ast.LShift: 'lshift', ast.RShift: 'rshift'}
OPS = {'add': operator.add, 'sub': operator.sub, 'mult': operator.mul, 'div': operator.truediv, 'floordiv': operator.floordiv,
       'mod': operator.mod, 'pow': operator.pow, 'matmul': operator.matmul, 'and': operator.and_, 'or': operator.or_,
       'xor': operator.xor, 'lshift': operator.lshift, 'rshift': operator.rshift}
DUNDER = {'add': '__add__', 'sub': '__sub__', 'mult': '__mul__', 'div': '__truediv__'}
RDUNDER = {'add': '__radd__', 'sub': '__rsub__', 'mult': '__rmul__', 'div': '__rtruediv__'}
CMP = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}
