"""Hash-consed terms of the verification logic.

Sorts: 'I' mathematical integers, 'R' reals, 'B' booleans, 'O' opaque values.
Integers embed in reals (mixed arithmetic is real).  All functions are total:
x/0 is an unspecified real; definedness is a separate obligation.
"""
from fractions import Fraction
import itertools
import math

_table = {}
_ids = itertools.count()


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_ufs')

    def __hash__(self):
        # not the address: sets of terms are gone through in the same order in every run
        return self.id

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('truth value of a symbolic term: %s' % show(self))

    # python operators, for writing specifications
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)
    def __floordiv__(self, o): return idiv(self, o)
    def __rfloordiv__(self, o): return idiv(o, self)
    def __mod__(self, o): return imod(self, o)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = next(_ids)
        t._fv = None
        t._ufs = None
        _table[key] = t
    return t


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return mk('const', (bool(x),), 'B')
    if isinstance(x, int):
        return mk('const', (Fraction(x),), 'I')
    if isinstance(x, Fraction):
        return mk('const', (x,), 'R')
    if isinstance(x, float):
        if math.isinf(x):
            return INF if x > 0 else neg(INF)
        if math.isnan(x):
            return NAN
        return mk('const', (Fraction(x),), 'R')
    if hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return lift(x.item())
    raise TypeError('cannot lift %r' % (x,))


def I(n):
    return lift(int(n))


def R(x):
    return mk('const', (Fraction(x),), 'R')


def var(name, sort='I'):
    return mk('var', (name,), sort)


_fresh = itertools.count()


def fresh(prefix, sort='I'):
    return var('%s!%d' % (prefix, next(_fresh)), sort)


def app(f, *args, sort='R'):
    return mk('app', (f,) + tuple(lift(a) for a in args), sort)


TRUE = mk('const', (True,), 'B')
FALSE = mk('const', (False,), 'B')
INF = mk('var', ('INF',), 'R')
NAN = mk('var', ('NAN',), 'R')
ZERO = lift(0)
ONE = lift(1)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def is_int_const(t):
    return t.op == 'const' and t.sort == 'I'


# ---------------------------------------------------------------- integers and reals
def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


def _numsort(ts):
    return 'R' if any(t.sort == 'R' for t in ts) else 'I'


def _split_coeff(t):
    """t == c * rest, rest a non-constant (or 1)"""
    if t.op == 'const':
        return t.args[0], ONE
    if t.op == 'mul' and t.args[0].op == 'const':
        rest = t.args[1:]
        return t.args[0].args[0], (rest[0] if len(rest) == 1 else mk('mul', rest, t.sort if t.sort == 'I' or any(r.sort == 'R' for r in rest) else 'I'))
    return Fraction(1), t


_memo_add, _memo_mul, _memo_not = {}, {}, {}


def add(*ts):
    ts = tuple([b2n(lift(t)) for t in ts])
    r = _memo_add.get(ts)
    if r is None:
        r = _memo_add[ts] = _add(ts)
    return r


def _add(ts):
    sort = _numsort(ts)
    acc = {}
    for t in _flat('add', ts):
        c, r = _split_coeff(t)
        acc[r] = acc.get(r, 0) + c
    const = acc.pop(ONE, Fraction(0))
    parts = []
    for r, c in acc.items():
        if c == 0:
            continue
        parts.append(r if c == 1 else mul(mk('const', (c,), 'I' if c.denominator == 1 else 'R'), r))
    parts.sort(key=lambda t: t.id)
    if const != 0 or not parts:
        parts.append(mk('const', (const,), 'I' if const.denominator == 1 and sort == 'I' else 'R'))
    if len(parts) == 1:
        p = parts[0]
        return p
    return mk('add', tuple(parts), sort)


def b2n(t):
    """booleans used as numbers"""
    if t.sort == 'B':
        return ite(t, ONE, ZERO)
    return t


def mul(*ts):
    ts = tuple([b2n(lift(t)) for t in ts])
    r = _memo_mul.get(ts)
    if r is None:
        r = _memo_mul[ts] = _mul(ts)
    return r


def _mul(ts):
    sort = _numsort(ts)
    c = Fraction(1)
    parts = []
    for t in _flat('mul', ts):
        if t.op == 'const':
            c *= t.args[0]
        else:
            parts.append(t)
    if c == 0:
        return mk('const', (Fraction(0),), sort)
    # integers: keep polynomials expanded
    if sort == 'I':
        for k, p in enumerate(parts):
            if p.op == 'add':
                rest = parts[:k] + parts[k + 1:]
                return add(*[mul(mk('const', (c,), 'I'), a, *rest) for a in p.args])
    elif len(parts) == 1 and parts[0].op == 'add':
        return add(*[mul(mk('const', (c,), sort), a) for a in parts[0].args])
    parts.sort(key=lambda t: t.id)
    if not parts:
        return mk('const', (c,), sort)
    if c != 1:
        parts.insert(0, mk('const', (c,), 'I' if c.denominator == 1 else 'R'))
    if len(parts) == 1:
        return parts[0]
    return mk('mul', tuple(parts), sort)


def neg(t):
    return mul(-1, t)


def sub(a, b):
    return add(a, neg(lift(b)))


def div(a, b):
    a, b = b2n(lift(a)), b2n(lift(b))
    if b.op == 'const' and b.args[0] != 0:
        c = mk('const', (1 / b.args[0],), 'R')
        r = mul(c, a)
        return r if r.sort == 'R' else to_real(r)
    if a.op == 'const' and a.args[0] == 0:
        pass  # 0/x is not simplified: x may be zero
    return mk('div', (a, b), 'R')


def to_real(t):
    if t.op == 'const' and t.sort == 'I':
        return mk('const', t.args, 'R')
    return t


def idiv(a, b):
    a, b = b2n(lift(a)), b2n(lift(b))
    if b.op == 'const' and b.args[0] != 0:
        if a.op == 'const':
            return lift(int(a.args[0] // b.args[0]))
        if b.args[0] == 1 and a.sort == 'I':
            return a
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    a, b = b2n(lift(a)), b2n(lift(b))
    if b.op == 'const' and b.args[0] != 0 and a.sort == 'I':
        if a.op == 'const':
            return lift(int(a.args[0] % b.args[0]))
        if b.args[0] == 1:
            return ZERO
    return mk('imod', (a, b), a.sort)


def power(a, e):
    a, e = b2n(lift(a)), b2n(lift(e))
    if e.op == 'const' and e.args[0].denominator == 1:
        n = int(e.args[0])
        if a.op == 'const' and (a.args[0] != 0 or n >= 0):
            v = a.args[0] ** n
            return mk('const', (v,), 'I' if (a.sort == 'I' and v.denominator == 1) else 'R')
        if n == 0:
            return ONE
        if n == 1:
            return a
        if 0 < n <= 6:
            return mul(*([a] * n))
        if n < 0:
            return div(ONE, power(a, -n))
    return mk('pow', (a, e), 'R')


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort != b.sort:
        a, b = b2n(a), b2n(b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    sort = a.sort if a.sort == b.sort else _numsort((a, b))
    if sort != 'O' and a.op == b.op == 'const' and a.args == b.args:
        return a
    return mk('ite', (c, a, b), sort)


def maxt(a, b):
    a, b = lift(a), lift(b)
    return ite(le(b, a), a, b)


def mint(a, b):
    a, b = lift(a), lift(b)
    return ite(le(a, b), a, b)


def absr(a):
    a = lift(a)
    return ite(le(ZERO, a), a, neg(a))


# ---------------------------------------------------------------- booleans
def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort in 'IRB' and b.sort in 'IRB':
        if not (_special(a) or _special(b)):
            d = sub(a, b)
            if d.op == 'const':
                return lift(d.args[0] == 0)
            c, r = _split_coeff(d)
            if r.op == 'add':
                # normalise: leading coefficient positive
                c0, _ = _split_coeff(r.args[0])
                return mk('eq0', (r if c0 > 0 else neg(r),), 'B')
            if c != 1 or d.op == 'add':
                if d.op == 'add':
                    c0, _ = _split_coeff(d.args[0])
                    return mk('eq0', (mul(1 / c0 if d.sort == 'R' else (1 if c0 > 0 else -1), d),), 'B')
                return mk('eq0', (r,), 'B')
            return mk('eq0', (d,), 'B')
        if a.id > b.id:
            a, b = b, a
        return mk('same', (a, b), 'B')
    if a.op == 'const' and b.op == 'const':
        return lift(a.args == b.args)
    if a.id > b.id:
        a, b = b, a
    return mk('same', (a, b), 'B')


def _special(t):
    return t is INF or t is NAN or (t.op == 'mul' and (INF in t.args or NAN in t.args))


def ne(a, b):
    return not_(eq(a, b))


def le(a, b):
    """a <= b  as  0 <= b - a"""
    a, b = b2n(lift(a)), b2n(lift(b))
    d = sub(b, a)
    if d.op == 'const':
        return lift(d.args[0] >= 0)
    return mk('ge0', (d,), 'B')


def lt(a, b):
    a, b = b2n(lift(a)), b2n(lift(b))
    if a.sort == 'I' and b.sort == 'I':
        return le(add(a, 1), b)
    d = sub(b, a)
    if d.op == 'const':
        return lift(d.args[0] > 0)
    return not_(mk('ge0', (sub(a, b),), 'B'))


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def not_(a):
    a = lift(a)
    r = _memo_not.get(a)
    if r is None:
        r = _memo_not[a] = _not(a)
    return r


def _not(a):
    if a.op == 'const':
        return lift(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ge0' and a.args[0].sort == 'I':
        # not (d >= 0)  <=>  -d - 1 >= 0
        return mk('ge0', (sub(neg(a.args[0]), 1),), 'B') if True else None
    if a.op == 'exists':
        v, lo, hi, body = a.args
        return forall(v, lo, hi, not_(body))
    if a.op == 'forall':
        v, lo, hi, body = a.args
        return exists(v, lo, hi, not_(body))
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    return mk('not', (a,), 'B')


def and_(*ts):
    out = []
    for t in _flat('and', [lift(t) for t in ts]):
        if t is TRUE or t in out:
            continue
        if t is FALSE or not_(t) in out:
            return FALSE
        out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', tuple(out), 'B')


def or_(*ts):
    out = []
    for t in _flat('or', [lift(t) for t in ts]):
        if t is FALSE or t in out:
            continue
        if t is TRUE:
            return TRUE
        out.append(t)
    for t in out:
        if t.op != 'and' and t.op != 'or':
            if t.op == 'not' and t.args[0] in out:
                return TRUE
            if t.op == 'ge0' and not_(t) in out:
                return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', tuple(out), 'B')


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- binders
BINDERS = ('sum', 'prod', 'forall', 'exists', 'count', 'lam')
RBINDERS = ('integral', 'deriv', 'coef')

_canon_cache = {}


def _binder(op, v, lo, hi, body, sort):
    """alpha-normalised: the bound variable is named after the binder depth of the body"""
    if v.args[0].startswith('#'):
        f = fresh('b', v.sort)
        body = subst(body, {v: f})
        v = f
    d = _depth(body)
    nv = mk('var', ('#%s%d' % (v.sort, d),), v.sort)
    if nv is not v:
        body = subst(body, {v: nv})
        v = nv
    return mk(op, (v, lo, hi, body), sort)


_depths = {}


def _depth(t):
    """1 + the largest index of a bound variable inside t"""
    r = _depths.get(t)
    if r is not None:
        return r
    r = 0
    if t.op == 'var':
        r = 0
        if t.args[0].startswith('#'):
            r = int(t.args[0][2:]) + 1
    else:
        for a in t.args:
            if isinstance(a, T):
                r = max(r, _depth(a))
    _depths[t] = r
    return r


def sum_(v, lo, hi, body):
    lo, hi, body = lift(lo), lift(hi), b2n(lift(body))
    if lo.op == 'const' and hi.op == 'const' and hi.args[0] - lo.args[0] <= 8:
        return add(ZERO, *[subst(body, {v: I(k)}) for k in range(int(lo.args[0]), int(hi.args[0]))])
    if body.op == 'const' and body.args[0] == 0:
        return ZERO
    return _binder('sum', v, lo, hi, body, body.sort)


def prod_(v, lo, hi, body):
    lo, hi, body = lift(lo), lift(hi), b2n(lift(body))
    if lo.op == 'const' and hi.op == 'const' and hi.args[0] - lo.args[0] <= 8:
        return mul(ONE, *[subst(body, {v: I(k)}) for k in range(int(lo.args[0]), int(hi.args[0]))])
    if body is ONE:
        return ONE
    return _binder('prod', v, lo, hi, body, body.sort)


def forall(v, lo, hi, body):
    lo, hi, body = lift(lo), lift(hi), lift(body)
    if body is TRUE:
        return TRUE
    if body is FALSE:
        return le(hi, lo)
    if lo.op == 'const' and hi.op == 'const' and hi.args[0] - lo.args[0] <= 8:
        return and_(*[subst(body, {v: I(k)}) for k in range(int(lo.args[0]), int(hi.args[0]))])
    return _binder('forall', v, lo, hi, body, 'B')


def exists(v, lo, hi, body):
    lo, hi, body = lift(lo), lift(hi), lift(body)
    if body is FALSE:
        return FALSE
    if body is TRUE:
        return lt(lo, hi)
    if lo.op == 'const' and hi.op == 'const' and hi.args[0] - lo.args[0] <= 8:
        return or_(*[subst(body, {v: I(k)}) for k in range(int(lo.args[0]), int(hi.args[0]))])
    return _binder('exists', v, lo, hi, body, 'B')


def count(v, lo, hi, body):
    """number of v in [lo,hi) with body; only ever built for down-closed predicates"""
    lo, hi, body = lift(lo), lift(hi), lift(body)
    return _binder('count', v, lo, hi, body, 'I')


def lam(v, lo, hi, body):
    """finite vector [body for v in lo..hi), an opaque value"""
    return _binder('lam', v, lift(lo), lift(hi), lift(body), 'O')


def integral(x, lo, hi, body):
    return _binder('integral', x, lift(lo), lift(hi), lift(body), 'R')


def deriv(x, body, at):
    """d body / dx at x = at"""
    body = lift(body)
    return _binder('deriv', x, lift(at), ZERO, body, 'R')


# ---------------------------------------------------------------- traversal
def fv(t):
    r = t._fv
    if r is not None:
        return r
    if t.op == 'var':
        r = frozenset((t,))
    elif t.op in BINDERS or t.op in RBINDERS:
        v, lo, hi, body = t.args
        r = (fv(body) - {v}) | fv(lo) | fv(hi)
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, T):
                r = r | fv(a)
    t._fv = r
    return r


def ufs(t):
    r = t._ufs
    if r is not None:
        return r
    r = frozenset()
    if t.op == 'app':
        r = frozenset((t.args[0],))
    for a in t.args:
        if isinstance(a, T):
            r = r | ufs(a)
    t._ufs = r
    return r


REBUILD = {}


def rebuild(t, args):
    op = t.op
    if op == 'add': return add(*args)
    if op == 'mul': return mul(*args)
    if op == 'div': return div(*args)
    if op == 'idiv': return idiv(*args)
    if op == 'imod': return imod(*args)
    if op == 'pow': return power(*args)
    if op == 'ite': return ite(*args)
    if op == 'eq0': return eq(args[0], ZERO)
    if op == 'same': return eq(*args)
    if op == 'ge0': return le(ZERO, args[0])
    if op == 'not': return not_(args[0])
    if op == 'and': return and_(*args)
    if op == 'or': return or_(*args)
    if op == 'app': return mk('app', tuple(args), t.sort)
    if op == 'sum': return sum_(*args)
    if op == 'prod': return prod_(*args)
    if op == 'forall': return forall(*args)
    if op == 'exists': return exists(*args)
    if op == 'count': return count(*args)
    if op == 'lam': return lam(*args)
    if op == 'integral': return integral(*args)
    if op == 'deriv': return deriv(args[0], args[3], args[1])
    return mk(op, tuple(args), t.sort)


def subst(t, m):
    """capture-free because bound variables are canonically named and replaced on clash"""
    m = {k: lift(v) for k, v in m.items() if k is not v}
    if not m:
        return t
    return _subst(t, m, frozenset(m), {})


def _subst(t, m, keys, memo):
    if t in m:
        return m[t]
    if not (fv(t) & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS or t.op in RBINDERS:
        v, lo, hi, body = t.args
        lo2 = _subst(lo, m, keys, memo)
        hi2 = _subst(hi, m, keys, memo)
        # rename the bound variable to something fresh, then substitute
        f = fresh('b', v.sort)
        m2 = {k: x for k, x in m.items() if k is not v}
        m2[v] = f
        body2 = _subst(body, m2, frozenset(m2), {})
        r = rebuild(t, (f, lo2, hi2, body2))
    else:
        r = rebuild(t, [(_subst(a, m, keys, memo) if isinstance(a, T) else a) for a in t.args])
    memo[t] = r
    return r


def subst_uf(t, name, fn):
    """replace every application name(args) by fn(*args)"""
    return _subst_uf(t, name, fn, {})


def _subst_uf(t, name, fn, memo):
    if name not in ufs(t):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS or t.op in RBINDERS:
        v, lo, hi, body = t.args
        f = fresh('b', v.sort)
        r = rebuild(t, (f, _subst_uf(lo, name, fn, memo), _subst_uf(hi, name, fn, memo),
                        _subst_uf(subst(body, {v: f}), name, fn, memo)))
    else:
        args = [(_subst_uf(a, name, fn, memo) if isinstance(a, T) else a) for a in t.args]
        if t.op == 'app' and t.args[0] == name:
            r = lift(fn(*args[1:]))
        else:
            r = rebuild(t, args)
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return seen


# ---------------------------------------------------------------- printing
def show(t, p=0):
    op = t.op
    if op == 'const':
        v = t.args[0]
        return str(v)
    if op == 'var':
        return t.args[0]
    if op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(show(a) for a in t.args[1:]))
    if op == 'add':
        s = ' + '.join(show(a) for a in t.args)
        return '(%s)' % s
    if op == 'mul':
        return '*'.join(show(a) for a in t.args)
    if op in ('div',):
        return '(%s / %s)' % (show(t.args[0]), show(t.args[1]))
    if op == 'idiv':
        return '(%s div %s)' % (show(t.args[0]), show(t.args[1]))
    if op == 'imod':
        return '(%s mod %s)' % (show(t.args[0]), show(t.args[1]))
    if op == 'pow':
        return '%s^(%s)' % (show(t.args[0]), show(t.args[1]))
    if op == 'ite':
        return 'if(%s, %s, %s)' % tuple(show(a) for a in t.args)
    if op == 'eq0':
        return '(%s = 0)' % show(t.args[0])
    if op == 'ge0':
        return '(%s >= 0)' % show(t.args[0])
    if op == 'same':
        return '(%s = %s)' % (show(t.args[0]), show(t.args[1]))
    if op == 'not':
        return '~%s' % show(t.args[0])
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(show(a) for a in t.args) + ')'
    if op == 'deriv':
        return 'D[%s](%s)|%s' % (show(t.args[0]), show(t.args[3]), show(t.args[1]))
    if op in BINDERS or op in RBINDERS:
        v, lo, hi, body = t.args
        return '%s{%s in %s..%s}(%s)' % (op, show(v), show(lo), show(hi), show(body))
    return '%s%r' % (op, t.args)


# ---------------------------------------------------------------- evaluation
class Undef(Exception):
    pass


class Model:
    """variables -> values, functions -> python callables (exact Fractions where possible)"""

    def __init__(self, vars=None, funs=None):
        self.vars = dict(vars or {})
        self.funs = dict(funs or {})


def ev(t, m, env=None):
    return _ev(t, m, env or {})


def _num(x):
    return x


def _ev(t, m, env):
    op = t.op
    if op == 'const':
        v = t.args[0]
        return v
    if op == 'var':
        if t in env:
            return env[t]
        n = t.args[0]
        if n in m.vars:
            return m.vars[n]
        if n == 'INF':
            return float('inf')
        if n == 'NAN':
            return float('nan')
        raise Undef('no value for ' + n)
    if op == 'app':
        f = m.funs.get(t.args[0])
        if f is None:
            f = BUILTIN_FUNS.get(t.args[0])
        if f is None:
            raise Undef('no function ' + t.args[0])
        return f(*[_ev(a, m, env) for a in t.args[1:]])
    if op == 'add':
        s = 0
        for a in t.args:
            s = s + _ev(a, m, env)
        return s
    if op == 'mul':
        s = 1
        for a in t.args:
            s = s * _ev(a, m, env)
        return s
    if op == 'div':
        a, b = _ev(t.args[0], m, env), _ev(t.args[1], m, env)
        if b == 0:
            raise Undef('division by zero')
        if isinstance(a, int) and isinstance(b, int):
            return Fraction(a, b)
        return a / b
    if op == 'idiv':
        a, b = _ev(t.args[0], m, env), _ev(t.args[1], m, env)
        if b == 0:
            raise Undef('division by zero')
        return Fraction(a // b)
    if op == 'imod':
        a, b = _ev(t.args[0], m, env), _ev(t.args[1], m, env)
        if b == 0:
            raise Undef('division by zero')
        return Fraction(a % b)
    if op == 'pow':
        a, b = _ev(t.args[0], m, env), _ev(t.args[1], m, env)
        if a == 0 and b < 0:
            raise Undef('0 ** negative')
        if isinstance(b, Fraction) and b.denominator == 1:
            return a ** int(b)
        return a ** b
    if op == 'ite':
        return _ev(t.args[1], m, env) if _ev(t.args[0], m, env) else _ev(t.args[2], m, env)
    if op == 'eq0':
        return _ev(t.args[0], m, env) == 0
    if op == 'ge0':
        return _ev(t.args[0], m, env) >= 0
    if op == 'same':
        return _ev(t.args[0], m, env) == _ev(t.args[1], m, env)
    if op == 'not':
        return not _ev(t.args[0], m, env)
    if op == 'and':
        return all(_ev(a, m, env) for a in t.args)
    if op == 'or':
        return any(_ev(a, m, env) for a in t.args)
    if op in BINDERS:
        v, lo, hi, body = t.args
        lo, hi = int(_ev(lo, m, env)), int(_ev(hi, m, env))
        e = dict(env)
        if op == 'sum':
            s = Fraction(0)
            for k in range(lo, hi):
                e[v] = Fraction(k)
                s = s + _ev(body, m, e)
            return s
        if op == 'prod':
            s = Fraction(1)
            for k in range(lo, hi):
                e[v] = Fraction(k)
                s = s * _ev(body, m, e)
            return s
        if op == 'lam':
            out = []
            for k in range(lo, hi):
                e[v] = Fraction(k)
                out.append(_ev(body, m, e))
            return tuple(out)
        if op == 'count':
            s = 0
            for k in range(lo, hi):
                e[v] = Fraction(k)
                if _ev(body, m, e):
                    s += 1
            return Fraction(s)
        for k in range(lo, hi):
            e[v] = Fraction(k)
            x = _ev(body, m, e)
            if op == 'forall' and not x:
                return False
            if op == 'exists' and x:
                return True
        return op == 'forall'
    if op == 'integral':
        v, lo, hi, body = t.args
        p = evpoly(body, v, m, env)
        a, b = _ev(lo, m, env), _ev(hi, m, env)
        P = lambda x: sum((c * x ** (k + 1) / (k + 1) for k, c in enumerate(p)), Fraction(0))
        return P(b) - P(a)
    if op == 'deriv':
        v, at, _, body = t.args
        p = evpoly(body, v, m, env)
        x = _ev(at, m, env)
        return sum((k * c * x ** (k - 1) for k, c in enumerate(p) if k), Fraction(0))
    raise Undef('cannot evaluate ' + op)


def evpoly(t, x, m, env):
    """coefficients (ascending) of t as a polynomial in the variable x"""
    if x not in fv(t):
        return [_ev(t, m, env)]
    op = t.op
    if op == 'var':
        return [Fraction(0), Fraction(1)]
    if op == 'add':
        r = []
        for a in t.args:
            p = evpoly(a, x, m, env)
            r = [(r[i] if i < len(r) else 0) + (p[i] if i < len(p) else 0) for i in range(max(len(r), len(p)))]
        return r
    if op == 'mul':
        r = [Fraction(1)]
        for a in t.args:
            r = pmul(r, evpoly(a, x, m, env))
        return r
    if op == 'div' and x not in fv(t.args[1]):
        d = _ev(t.args[1], m, env)
        if d == 0:
            raise Undef('division by zero')
        return [c / d if not (isinstance(c, int) and isinstance(d, int)) else Fraction(c, d) for c in evpoly(t.args[0], x, m, env)]
    if op == 'ite' and x not in fv(t.args[0]):
        return evpoly(t.args[1] if _ev(t.args[0], m, env) else t.args[2], x, m, env)
    if op in ('sum', 'prod') and x not in fv(t.args[1]) and x not in fv(t.args[2]):
        v, lo, hi, body = t.args
        lo, hi = int(_ev(lo, m, env)), int(_ev(hi, m, env))
        r = [Fraction(0)] if op == 'sum' else [Fraction(1)]
        for k in range(lo, hi):
            e = dict(env)
            e[v] = Fraction(k)
            p = evpoly(body, x, m, e)
            if op == 'prod':
                r = pmul(r, p)
            else:
                r = [(r[i] if i < len(r) else 0) + (p[i] if i < len(p) else 0) for i in range(max(len(r), len(p)))]
        return r
    if op == 'pow' and x not in fv(t.args[1]):
        n = int(_ev(t.args[1], m, env))
        r = [Fraction(1)]
        p = evpoly(t.args[0], x, m, env)
        for _ in range(n):
            r = pmul(r, p)
        return r
    if op == 'app':
        f = m.funs.get(t.args[0])
        hook = getattr(f, 'polyhook', None)
        if hook is not None:
            # which argument carries x: by convention the last one
            if all(x not in fv(a) for a in t.args[1:-1]):
                base = hook(*[_ev(a, m, env) for a in t.args[1:-1]])
                inner = evpoly(t.args[-1], x, m, env)
                r = [Fraction(0)]
                for c in reversed(base):
                    r = pmul(r, inner)
                    r[0] = r[0] + c
                return r
    raise Undef('not a polynomial in %s: %s' % (x, op))


def pmul(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


BUILTIN_FUNS = {
    'cos': lambda x: math.cos(x), 'sin': lambda x: math.sin(x), 'exp': lambda x: math.exp(x),
    'sqrt': lambda x: math.sqrt(x), 'tan': lambda x: math.tan(x), 'log': lambda x: math.log(x),
    'ceil': lambda x: Fraction(math.ceil(x)), 'floor': lambda x: Fraction(math.floor(x)),
    'pi': lambda: math.pi,
}
