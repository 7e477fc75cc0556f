"""Normal form of real terms: Laurent polynomials over atoms with rational coefficients."""
from fractions import Fraction
from .term import *
from . import term as tm

ATOM_OPS = ('app', 'var', 'sum', 'prod', 'count', 'integral', 'deriv', 'ite', 'idiv', 'imod', 'pow', 'exists', 'forall')
MAXTERMS = 4000


class TooBig(Exception):
    pass


_memo = {}


def _madd(d, m, c):
    v = d.get(m, 0) + c
    if v == 0:
        d.pop(m, None)
    else:
        d[m] = v


def mono_mul(a, b):
    d = dict(a)
    for at, e in b:
        n = d.get(at, 0) + e
        if n == 0:
            d.pop(at, None)
        else:
            d[at] = n
    return tuple(sorted(d.items(), key=lambda p: p[0].id))


def pmul_(p, q):
    r = {}
    if len(p) * len(q) > MAXTERMS:
        raise TooBig()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            _madd(r, mono_mul(m1, m2), c1 * c2)
    return r


def ppow(p, n):
    r = {(): Fraction(1)}
    for _ in range(n):
        r = pmul_(r, p)
    return r


def pinv(p):
    """reciprocal of a polynomial"""
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    if not p:
        # 1/0: keep as an opaque atom
        z = mk('div', (ONE, ZERO), 'R')
        return {((z, 1),): Fraction(1)}
    # common monomial factor
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            common = {a: e for a, e in common.items()}
    common = {a: e for a, e in (common or {}).items() if e != 0 and all(dict(m).get(a, 0) * (1 if e > 0 else -1) > 0 for m in p)}
    cm = tuple(sorted(common.items(), key=lambda q: q[0].id))
    icm = tuple((a, -e) for a, e in cm)
    q = {}
    for m, c in p.items():
        _madd(q, mono_mul(m, icm), c)
    lead = min(q, key=lambda m: tuple((a.id, -e) for a, e in m) or (((10**12), 0),))
    c = q[lead]
    base = from_poly({m: k / c for m, k in q.items()})
    return {mono_mul(icm, ((base, -1),)): 1 / c}


def to_poly(t):
    r = _memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'const':
        v = t.args[0]
        if isinstance(v, bool):
            v = Fraction(int(v))
        r = {(): Fraction(v)} if v != 0 else {}
    elif op == 'add':
        r = {}
        for a in t.args:
            for m, c in to_poly(a).items():
                _madd(r, m, c)
    elif op == 'mul':
        r = {(): Fraction(1)}
        for a in t.args:
            r = pmul_(r, to_poly(a))
    elif op == 'div':
        r = pmul_(to_poly(t.args[0]), pinv(to_poly(t.args[1])))
    elif op == 'pow' and t.args[1].op == 'const' and t.args[1].args[0].denominator == 1 and abs(t.args[1].args[0]) <= 8:
        n = int(t.args[1].args[0])
        r = ppow(to_poly(t.args[0]), abs(n))
        if n < 0:
            r = pinv(r)
    else:
        r = {((t, 1),): Fraction(1)}
    _memo[t] = r
    return r


def from_poly(p):
    parts = []
    for m, c in p.items():
        num = [lift(c) if c.denominator != 1 else I(c)]
        den = []
        for a, e in m:
            if e > 0:
                num.append(a if e == 1 else mk_pow(a, e))
            else:
                den.append(a if e == -1 else mk_pow(a, -e))
        n = raw_mul(num)
        if den:
            n = mk('div', (n, raw_mul(den)), 'R')
        parts.append(n)
    return add(*parts) if parts else ZERO


def mk_pow(a, e):
    return mul(*([a] * e)) if e <= 6 and a.op != 'add' else mk('pow', (a, I(e)), 'R')


def raw_mul(ts):
    """product without distributing"""
    c = Fraction(1)
    parts = []
    for t in ts:
        if t.op == 'const':
            c *= t.args[0]
        elif t.op == 'mul':
            parts.extend(t.args)
        else:
            parts.append(t)
    parts.sort(key=lambda t: t.id)
    cc = []
    for p in parts:
        if p.op == 'const':
            c *= p.args[0]
        else:
            cc.append(p)
    if not cc:
        return lift(c)
    if c != 1:
        cc.insert(0, mk('const', (c,), 'I' if c.denominator == 1 else 'R'))
    if len(cc) == 1:
        return cc[0]
    return mk('mul', tuple(cc), tm._numsort(cc))


def canon(t):
    try:
        return from_poly(to_poly(t))
    except TooBig:
        return t


def is_zero(t):
    """syntactic zero test after clearing denominators"""
    try:
        p = to_poly(t)
        for _ in range(8):
            if not p:
                return True
            neg = {}
            for m in p:
                for a, e in m:
                    if e < 0 and a.op == 'add':
                        neg[a] = max(neg.get(a, 0), -e)
            comp = any(a.op == 'add' and e > 0 for m in p for a, e in m)
            if not neg and not comp:
                return False
            f = tuple(sorted(neg.items(), key=lambda q: q[0].id))
            q = {}
            for m, c in p.items():
                mm = mono_mul(m, f)
                rest = []
                r = {(): c}
                for a, e in mm:
                    if a.op == 'add' and e > 0:
                        r = pmul_(r, ppow(to_poly(a), e))
                    else:
                        rest.append((a, e))
                rest = tuple(rest)
                for m2, c2 in r.items():
                    _madd(q, mono_mul(m2, rest), c2)
            p = q
        return not p
    except TooBig:
        return False
