"""Discharging obligations: contextual simplification, ring normal form, z3."""
import time
import itertools
from fractions import Fraction
import z3
from .term import *
from . import term as tm
from . import ring

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'ring': 0, 'cvc5': 0}
Z3_LIMIT = 10000000          # resource units, about three seconds: the outcome does not depend on the load of the machine


class Ctx:
    """facts: boolean terms.  attrs: function name -> dict(inj=n, sorted=n, nonzero=...)"""
    _dcache = {}

    def __init__(self, facts=(), attrs=None, lemmas=()):
        self.facts = tuple(facts)
        self.attrs = attrs if attrs is not None else {}
        self.lemmas = lemmas          # rewriting lemmas: (atom, ctx) -> term or None
        self._dc = {}

    def __add__(self, f):
        f = f if isinstance(f, (list, tuple)) else [f]
        new = []
        todo = list(f)
        while todo:
            y = todo.pop(0)
            if y.op == 'and':
                todo = list(y.args) + todo
                continue
            if y is TRUE or y in self.facts or y in new:
                continue
            new.append(y)
            if y.op == 'exists':
                # name a witness
                v, lo, hi, body = y.args
                w = skolem(y, v.sort)
                todo = [le(lo, w), lt(w, hi), subst(body, {v: w})] + todo
        if not new:
            return self
        c = Ctx(self.facts + tuple(new), self.attrs, self.lemmas)
        return c

    def rng(self, v, lo, hi):
        return self + [le(lo, v), lt(v, hi)]

    def decide(self, b):
        """True / False / None"""
        b = lift(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        r = self._dc.get(b, 0)
        if r != 0:
            return r
        if b in self.facts:
            r = True
        elif not_(b) in self.facts:
            r = False
        elif self.proves(b, 2):
            r = True
        elif self.proves(not_(b), 2):
            r = False
        else:
            r = None
        self._dc[b] = r
        return r

    def proves(self, b, rounds=3):
        b = lift(b)
        if b is TRUE:
            return True
        if b in self.facts:
            return True
        key = (frozenset(self.facts), b, rounds)
        c = Ctx._dcache.get(key)
        if c is not None:
            return c
        r = self._proves(b, rounds)
        Ctx._dcache[key] = r
        return r

    def _proves(self, b, rounds):
        if b.op == 'and':
            return all(self.proves(x, rounds) for x in b.args)
        if b.op == 'not' and b.args[0].op == 'eq0' and b.args[0].args[0].sort == 'R':
            d = b.args[0].args[0]
            if nonzero(d, self):
                return True
            for lem in self.lemmas:
                m = {}
                for x in big_atoms(d):
                    r = lem(x, self)
                    if r is not None:
                        m[x] = r
                if m and nonzero(simp(replace(d, m), self), self):
                    return True
        r = z3check(self, b, rounds=rounds)
        return r == 'proved'

    def infeasible(self):
        return self.proves(FALSE, 1)

    def rewrites(self):
        """atoms that the equations among the facts allow to eliminate"""
        r = getattr(self, '_rw', None)
        if r is None:
            r = {}
            for f in self.facts:
                if f.op != 'eq0':
                    continue
                d = replace(f.args[0], r) if r else f.args[0]
                parts = d.args if d.op == 'add' else (d,)
                best = None
                for p in parts:
                    c, a = tm._split_coeff(p)
                    if a.op not in ('var', 'app') or abs(c) != 1:
                        continue
                    if a.op == 'app' and self.attrs.get(a.args[0]):
                        continue
                    rest = mul(-1 / c if d.sort == 'R' else int(-1 / c), sub(d, p))
                    if a in subterms(rest):
                        continue
                    rank = (a.op == 'var', a.id)
                    if best is None or rank > best[0]:
                        best = (rank, a, rest)
                if best is not None:
                    _, a, rest = best
                    r = {k: replace(v, {a: rest}) for k, v in r.items()}
                    r[a] = rest
            self._rw = r
        return r


_sk = {}


def skolem(t, sort):
    if t not in _sk:
        _sk[t] = fresh('w', sort)
    return _sk[t]


# ------------------------------------------------------------------ z3
_translated = {}


class Z:
    """translation of terms; extra: what defines the quotients and remainders in them"""

    def __init__(self):
        self.extra = {}

    def num(self, t, real):
        z = self.tr(t)
        if real and z.is_int():
            return z3.ToReal(z)
        return z

    def tr(self, t):
        r = _translated.get(t)
        if r is None:
            outer, self.extra = self.extra, {}
            r = _translated[t] = self._tr(t), self.extra
            self.extra = outer
        if r[1]:
            self.extra.update(r[1])
        return r[0]

    def const(self, t):
        n = 'k!%d' % t.id
        if t.sort == 'I':
            return z3.Int(n)
        if t.sort == 'R':
            return z3.Real(n)
        if t.sort == 'B':
            return z3.Bool(n)
        return z3.Const(n, OBJ)

    def _tr(self, t):
        op = t.op
        if op == 'const':
            v = t.args[0]
            if t.sort == 'B':
                return z3.BoolVal(v)
            if t.sort == 'I':
                return z3.IntVal(int(v))
            if t.sort == 'R':
                return z3.RealVal(str(v))
            return self.const(t)
        if op == 'var':
            return self.const(t)
        if op in ('add', 'mul'):
            real = any(a.sort == 'R' for a in t.args)
            zs = [self.num(a, real) for a in t.args]
            r = zs[0]
            for z in zs[1:]:
                r = r + z if op == 'add' else r * z
            return r
        if op == 'div':
            return self.num(t.args[0], True) / self.num(t.args[1], True)
        if op in ('idiv', 'imod'):
            a, b = t.args
            if a.sort == 'I' and b.sort == 'I':
                # floor semantics: equals SMT-LIB for positive divisors; otherwise uninterpreted
                za, zb = self.tr(a), self.tr(b)
                q, m = z3.Int('q!%d!%d' % (a.id, b.id)), z3.Int('m!%d!%d' % (a.id, b.id))
                self.extra[a, b] = [z3.Implies(zb > 0, z3.And(za == q * zb + m, m >= 0, m < zb)), z3.Implies(zb < 0, z3.And(za == q * zb + m, m <= 0, m > zb))]
                return q if op == 'idiv' else m
            return self.const(t)
        if op == 'ite':
            real = t.sort == 'R'
            if t.sort in 'IR':
                return z3.If(self.tr(t.args[0]), self.num(t.args[1], real), self.num(t.args[2], real))
            return z3.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
        if op == 'eq0':
            return self.tr(t.args[0]) == 0
        if op == 'ge0':
            return self.tr(t.args[0]) >= 0
        if op == 'same':
            a, b = t.args
            if a.sort in 'IR' and b.sort in 'IR':
                real = 'R' in (a.sort, b.sort)
                return self.num(a, real) == self.num(b, real)
            return self.tr(a) == self.tr(b)
        if op == 'not':
            return z3.Not(self.tr(t.args[0]))
        if op == 'and':
            return z3.And(*[self.tr(a) for a in t.args])
        if op == 'or':
            return z3.Or(*[self.tr(a) for a in t.args])
        if op == 'app':
            args = t.args[1:]
            if not args:
                return self.const(t)
            ss = [SORT[a.sort] for a in args]
            f = z3.Function('%s/%s' % (t.args[0], ''.join(a.sort for a in args)), *ss, SORT[t.sort])
            return f(*[self.tr(a) for a in args])
        if op == 'exists':
            return z3.Not(self.const(not_(t)))
        return self.const(t)


OBJ = z3.DeclareSort('Obj')
SORT = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'O': OBJ}


def conj(facts):
    for f in facts:
        if f.op == 'and':
            for a in f.args:
                yield a
        else:
            yield f


def index_args(terms):
    """function name -> set of argument tuples, over ground occurrences"""
    out = {}
    for t in terms:
        for s in gsub(t):
            if s.op == 'app':
                out.setdefault(s.args[0], set()).add(s.args[1:])
    return out


_gcache = {}


def gsub(t):
    """subterms that mention no bound variable"""
    r = _gcache.get(t)
    if r is None:
        r = [s for s in subterms(t) if not any(v.args[0].startswith('#') for v in fv(s))]
        _gcache[t] = r
    return r


def instantiate(facts, goal, attrs):
    """ground instances of quantified facts and of function attributes, round by round"""
    pool = list(facts) + [goal]
    done = set()
    for rnd in range(3):
        new = []
        ia = index_args(pool)
        gs = set()
        for p in pool:
            gs.update(gsub(p))
        ints = [s for s in gs if s.sort == 'I' and s.op in ('var', 'app', 'idiv') or s.op == 'const' and s.sort == 'I']
        for s in gs:
            if s.op in ('forall', 'exists'):
                v, lo, hi, body = s.args
                key = ('sk', s)
                if key not in done:
                    done.add(key)
                    sk = var('sk!%d' % s.id, 'I')
                    b = subst(body, {v: sk})
                    rg = and_(le(lo, sk), lt(sk, hi))
                    new.append(implies(s, and_(rg, b)) if s.op == 'exists' else or_(s, and_(rg, not_(b))))
                cands = set()
                for u in subterms(body):
                    if u.op == 'app' and v in u.args[1:]:
                        pos = u.args.index(v)
                        for a in ia.get(u.args[0], ()):
                            cands.add(a[pos - 1])
                    elif u.op == 'app':
                        # argument is v plus an offset
                        for pos, a in enumerate(u.args[1:], 1):
                            if isinstance(a, T) and v in fv(a):
                                d = sub(a, v)
                                if v not in fv(d):
                                    for b in ia.get(u.args[0], ()):
                                        cands.add(sub(b[pos - 1], d))
                if not cands:
                    cands = set(ints)
                if lo.op == 'const' or True:
                    cands.add(lo)
                    cands.add(sub(hi, 1))
                for c in sorted(cands, key=lambda x: x.id)[:24]:
                    if c.sort != 'I':
                        continue
                    key = (s, c)
                    if key in done:
                        continue
                    done.add(key)
                    b = subst(body, {v: c})
                    rg = and_(le(lo, c), lt(c, hi))
                    new.append(implies(and_(s, rg), b) if s.op == 'forall' else implies(and_(rg, b), s))
            if s.op == 'count':
                v, lo, hi, body = s.args
                key = ('cnt', s)
                if key not in done:
                    done.add(key)
                    new.append(and_(le(ZERO, s), or_(le(s, sub(hi, lo)), lt(hi, lo))))
                cands = {sub(s, 1), s}
                for u in subterms(body):
                    if u.op == 'app' and v in u.args[1:]:
                        pos = u.args.index(v)
                        for a in ia.get(u.args[0], ()):
                            cands.add(a[pos - 1])
                for c in sorted(cands, key=lambda x: x.id)[:24]:
                    key = (s, c)
                    if key in done or c.sort != 'I':
                        continue
                    done.add(key)
                    b = subst(body, {v: c})
                    rg = and_(le(lo, c), lt(c, hi))
                    # down-closed predicate: c counted iff c - lo < count
                    new.append(implies(and_(rg, b), lt(sub(c, lo), s)))
                    new.append(implies(and_(rg, lt(sub(c, lo), s)), b))
            if s.op == 'app' and s.args[0] in ('ceil', 'floor'):
                if ('cf', s) not in done:
                    done.add(('cf', s))
                    x = s.args[1]
                    new.append(and_(le(x, s), lt(s, add(x, 1))) if s.args[0] == 'ceil' else and_(le(s, x), lt(x, add(s, 1))))
        for f, at in attrs.items():
            args = sorted({a[0] for a in ia.get(f, ()) if len(a) == 1}, key=lambda x: x.id)
            n = at.get('n')
            for a, b in itertools.combinations(args, 2):
                key = (f, a, b)
                if key in done:
                    continue
                done.add(key)
                rg = and_(le(ZERO, a), lt(a, n), le(ZERO, b), lt(b, n))
                fa, fb = app(f, a, sort=at.get('sort', 'R')), app(f, b, sort=at.get('sort', 'R'))
                if at.get('inj') or at.get('sorted'):
                    new.append(implies(and_(rg, eq(fa, fb)), eq(a, b)))
                if at.get('sorted'):
                    new.append(implies(and_(rg, lt(a, b)), lt(fa, fb)))
                    new.append(implies(and_(rg, lt(b, a)), lt(fb, fa)))
            if at.get('pos'):
                for a in args:
                    key = (f, a)
                    if key not in done:
                        done.add(key)
                        new.append(lt(ZERO, app(f, a)))
            if at.get('each'):
                for a in args:
                    key = (f, a, 'each')
                    if key not in done:
                        done.add(key)
                        new.append(implies(and_(le(ZERO, a), lt(a, n)), at['each'](app(f, a, sort=at.get('sort', 'R')))))
        new = [x for x in new if x is not TRUE]
        if not new:
            break
        yield new
        pool.extend(new)


def products(facts, goal):
    """products of pairs of integer inequalities, to help nonlinear integer goals"""
    ineqs = []
    for f in conj(facts):
        if f.op == 'ge0' and f.args[0].sort == 'I':
            ineqs.append(f.args[0])
    g = [x for x in conj([not_(goal)]) if x.op == 'ge0' and x.args[0].sort == 'I']
    ineqs += [x.args[0] for x in g]
    nonlin = any(s.op == 'mul' and sum(1 for a in s.args if a.op != 'const') > 1 and s.sort == 'I' or s.op in ('idiv', 'imod')
                 for f in list(facts) + [goal] for s in gsub(f))
    if not nonlin:
        return []
    ineqs = ineqs[:14]
    out = []
    for i in range(len(ineqs)):
        for j in range(i, len(ineqs)):
            p = mul(ineqs[i], ineqs[j])
            if p.op == 'const' or len(fv(p)) > 6:
                continue
            out.append(le(ZERO, p))
    return out[:110]


_plain = {}


def plain_int(t):
    """a term about integer variables only"""
    r = _plain.get(t)
    if r is None:
        r = all(x.op not in ('app', 'forall', 'exists', 'count', 'sum', 'prod', 'lam') and x.sort in 'IB' for x in subterms(t))
        _plain[t] = r
    return r


def z3check(ctx, goal, want_model=False, rounds=3):
    t0 = time.time()
    STATS['z3_queries'] += 1
    facts = list(conj(ctx.facts))
    s = z3.Solver()
    s.set('rlimit', Z3_LIMIT)
    s.set('timeout', 60000)
    z = Z()
    nx = 0

    def add_(f):
        z3.Z3_solver_assert(s.ctx.ref(), s.solver, f.as_ast())

    def put(ts):
        nonlocal nx
        for f in ts:
            add_(z.tr(f))
        for fs in list(z.extra.values())[nx:]:
            for f in fs:
                add_(f)
        nx = len(z.extra)
    put(facts)
    put([not_(goal)])
    r = s.check()
    if r != z3.unsat:
        if plain_int(goal) and goal is not FALSE and not any(
                f.sort == 'B' and f.op in ('eq0', 'not', 'ge0') and not plain_int(f) for f in facts):
            # only quantified facts about the integers themselves can help
            rounds = int(any(f.op == 'forall' and plain_int(f.args[3]) for f in facts))
        gen = instantiate(facts, goal, ctx.attrs)
        first = True
        for k in range(rounds):
            new = next(gen, None)
            if first:
                new = (new or []) + products(facts, goal)
                first = False
                if not new:
                    break
            elif new is None:
                break
            put(new)
            r = s.check()
            if r == z3.unsat:
                break
    STATS['z3_time'] += time.time() - t0
    if r == z3.unsat:
        return 'proved'
    if r == z3.sat:
        if want_model:
            return s.model(), z
        return 'sat'
    return 'unknown'


# ------------------------------------------------------------------ nonzero
def nonzero(t, ctx, depth=0):
    """prove t != 0 for a real term"""
    if depth > 6:
        return False
    op = t.op
    if op == 'const':
        return t.args[0] != 0
    if op == 'mul':
        return all(nonzero(a, ctx, depth + 1) for a in t.args)
    if op == 'div':
        return nonzero(t.args[0], ctx, depth + 1)
    if op == 'prod':
        v, lo, hi, body = t.args
        f = fresh('p', v.sort)
        return nonzero(subst(body, {v: f}), ctx.rng(f, lo, hi), depth + 1)
    if op == 'ite':
        c = t.args[0]
        a = ctx + c
        b = ctx + not_(c)
        return (a.infeasible() or nonzero(t.args[1], a, depth + 1)) and (b.infeasible() or nonzero(t.args[2], b, depth + 1))
    if op == 'pow':
        return nonzero(t.args[0], ctx, depth + 1)
    if z3check(ctx, ne(t, ZERO)) == 'proved':
        return True
    if op == 'add':
        # factor by ring normal form: single monomial?
        try:
            p = ring.to_poly(t)
        except ring.TooBig:
            return False
        if len(p) == 1:
            (m, c), = p.items()
            return all(nonzero(a, ctx, depth + 1) for a, e in m)
    return False


# ------------------------------------------------------------------ simplification
class Simp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.s(t)
            self.memo[t] = r
        return r

    def s(self, t):
        op = t.op
        if op in ('const', 'var'):
            return t
        ctx = self.ctx
        if op == 'ite':
            c = self(t.args[0])
            d = ctx.decide(c)
            if d is True:
                return self(t.args[1])
            if d is False:
                return self(t.args[2])
            return ite(c, simp(t.args[1], ctx + c), simp(t.args[2], ctx + not_(c)))
        if op in ('sum', 'prod'):
            return self.bigop(t)
        if op in ('forall', 'exists', 'count', 'lam'):
            v, lo, hi, body = t.args
            lo, hi = self(lo), self(hi)
            f = fresh('b', v.sort)
            b = simp(subst(body, {v: f}), ctx.rng(f, lo, hi))
            r = rebuild(t, (f, lo, hi, b))
            return r
        if op in ('integral', 'deriv'):
            v, lo, hi, body = t.args
            f = fresh('x', v.sort)
            b = simp(subst(body, {v: f}), ctx)
            return calculus(rebuild(t, (f, self(lo), self(hi), b)))
        args = [(self(a) if isinstance(a, T) else a) for a in t.args]
        if op in ('and', 'or'):
            stop = op == 'or'
            keep = []
            for a in args:
                d = ctx.decide(a)
                if d is stop:
                    return TRUE if stop else FALSE
                if d is None:
                    keep.append(a)
            return and_(*keep) if op == 'and' else or_(*keep)
        r = rebuild(t, args)
        if r.op in ('idiv', 'imod'):
            return divmod_simp(r, ctx)
        if r.op == 'eq0':
            # injective functions
            d = r.args[0]
            if d.op == 'add' and len(d.args) == 2:
                (c1, a), (c2, b) = [tm._split_coeff(x) for x in d.args]
                if c1 == -c2 and a.op == b.op == 'app' and a.args[0] == b.args[0] and len(a.args) == 2:
                    at = ctx.attrs.get(a.args[0])
                    if at and (at.get('inj') or at.get('sorted')):
                        n = at['n']
                        x, y = a.args[1], b.args[1]
                        if ctx.decide(and_(le(ZERO, x), lt(x, n), le(ZERO, y), lt(y, n))):
                            return self(eq(x, y))
        return r

    def bigop(self, t):
        ctx = self.ctx
        op = t.op
        v0, lo, hi, body = t.args
        lo, hi = self(lo), self(hi)
        unit = ZERO if op == 'sum' else ONE
        if ctx.decide(le(hi, lo)):
            return unit
        v = fresh('i', v0.sort)
        inner = ctx.rng(v, lo, hi)
        body = simp(subst(body, {v0: v}), inner)
        if body is unit:
            return unit
        if op == 'sum':
            return self.bigsum(v, lo, hi, body, inner)
        return self.bigprod(v, lo, hi, body, inner)

    def bigsum(self, v, lo, hi, body, inner):
        ctx = self.ctx
        # reindexing by a block size:  r in [0, q*m)  ->  r = a*m + b
        if lo is ZERO:
            m = block_size(body, v)
            if m is not None:
                q = exact_div(hi, m)
                if q is not None and ctx.decide(lt(ZERO, m)):
                    a, b = fresh('a'), fresh('b')
                    bb = subst(body, {v: add(mul(a, m), b)})
                    return self(sum_(a, ZERO, q, sum_(b, ZERO, m, bb)))
        if body.op == 'ite':
            c, x, y = body.args
            if _isz(x) and not _isz(y):
                c, x, y = not_(c), y, x
            if _isz(y):
                # conjunction with an equation on v?
                cs = list(c.args) if c.op == 'and' else [c]
                for k, e in enumerate(cs):
                    sol = solve_eq(e, v)
                    if sol is not None:
                        rest = and_(*(cs[:k] + cs[k + 1:]))
                        g = and_(le(lo, sol), lt(sol, hi), subst(rest, {v: sol}))
                        return self(ite(g, subst(x, {v: sol}), ZERO))
                # guard not depending on v
                free = [e for e in cs if v not in fv(e)]
                if free:
                    rest = and_(*[e for e in cs if v in fv(e)])
                    return self(ite(and_(*free), sum_(v, lo, hi, ite(rest, x, ZERO)), ZERO))
                # guard cuts the range from below or above
                for k, e in enumerate(cs):
                    b = bound_of(e, v)
                    if b is None:
                        continue
                    kind, val = b
                    rest = and_(*(cs[:k] + cs[k + 1:]))
                    if kind == 'lt':   # v < val
                        nhi = val if ctx.decide(le(val, hi)) else (hi if ctx.decide(le(hi, val)) else mint(val, hi))
                        return self(sum_(v, lo, nhi, ite(rest, x, ZERO)))
                    nlo = val if ctx.decide(le(lo, val)) else (lo if ctx.decide(le(val, lo)) else maxt(val, lo))
                    return self(sum_(v, nlo, hi, ite(rest, x, ZERO)))
        # linearity, under the guard that is left
        guard = TRUE
        while body.op == 'ite' and (_isz(body.args[1]) != _isz(body.args[2])):
            c, x, y = body.args
            guard, body = (and_(guard, c), x) if _isz(y) else (and_(guard, not_(c)), y)

        def total(b):
            return sum_(v, lo, hi, b if guard is TRUE else ite(guard, b, ZERO))
        try:
            p = ring.to_poly(body)
        except ring.TooBig:
            return total(body)
        out = []
        for mono, c in p.items():
            ind = []
            dep = []
            for a, e in mono:
                (dep if v in fv(a) else ind).append((a, e))
            b = ring.from_poly({tuple(dep): Fraction(1)})
            k = ring.from_poly({tuple(ind): c})
            if v not in fv(b) and guard is TRUE:
                ln = sub(hi, lo)
                if not ctx.decide(le(lo, hi)):
                    ln = maxt(ln, ZERO)
                out.append(ring.raw_mul([k, ln, b]))
                continue
            # a factor that is an ite with zero branch: push it outwards
            its = [(a, e) for a, e in dep if e == 1 and a.op == 'ite' and (_isz(a.args[1]) != _isz(a.args[2]))]
            if its:
                a = its[0][0]
                others = [d for d in dep if d[0] is not a]
                o = ring.from_poly({tuple(others): Fraction(1)})
                cc, x, y = a.args
                if _isz(x):
                    cc, x = not_(cc), y
                b = ite(and_(guard, cc), ring.raw_mul([x, o]), ZERO)
                out.append(ring.raw_mul([k, self.bigsum(v, lo, hi, b, inner)]))
            else:
                out.append(ring.raw_mul([k, total(b)]))
        return add(*out) if out else ZERO

    def bigprod(self, v, lo, hi, body, inner):
        # prod of quotients = quotient of prods ; guard ite(c, x, 1)
        c = TRUE
        x = body
        if body.op == 'ite':
            cc, a, b = body.args
            if b is ONE or (b.op == 'const' and b.args[0] == 1):
                c, x = cc, a
            elif a is ONE or (a.op == 'const' and a.args[0] == 1):
                c, x = not_(cc), b
        try:
            p = ring.to_poly(x)
        except ring.TooBig:
            p = {}
        # a vanishing factor
        for w in zero_candidates(self.ctx, x, v):
            if self.ctx.decide(and_(le(lo, w), lt(w, hi))) and self.ctx.decide(subst(c, {v: w})):
                y = subst(x, {v: w})
                rw = self.ctx.rewrites()
                y = replace(y, rw) if rw else y
                if ring.is_zero(y):
                    return R(0)
        if x.op == 'div':
            q = [self.bigprod(v, lo, hi, ite(c, y, ONE), inner) for y in x.args]
            return div(*q)
        if x.op == 'mul':
            return ring.raw_mul([self.bigprod(v, lo, hi, ite(c, y, ONE), inner) for y in x.args])
        if len(p) == 1:
            (mono, k), = p.items()
            if not mono:
                x = lift(k)
                if k == 1:
                    return R(1)
            if len(mono) > 1 or (mono and mono[0][1] != 1):
                out = []
                if k != 1:
                    out.append(prod_(v, lo, hi, ite(c, lift(k), ONE)))
                num, den = [], []
                for a, e in mono:
                    pa = prod_(v, lo, hi, ite(c, a, ONE))
                    (num if e > 0 else den).extend([pa] * abs(e))
                n = ring.raw_mul(out + num) if (out or num) else ONE
                return div(n, ring.raw_mul(den)) if den else n
        return prod_(v, lo, hi, ite(c, x, ONE))


def zero_candidates(ctx, x, v):
    """integer terms that may be the index of a vanishing factor"""
    out = []
    for f in ctx.facts:
        if f.op == 'eq0' and f.args[0].sort == 'R':
            for t in subterms(f):
                if t.op == 'app' and len(t.args) == 2 and t.args[1].sort == 'I' and ctx.attrs.get(t.args[0]) and t.args[1] not in out:
                    out.append(t.args[1])
    for t in subterms(x):
        if t.op == 'app' and len(t.args) == 2 and t.args[1].sort == 'I' and v not in fv(t.args[1]) and t.args[1] not in out:
            out.append(t.args[1])
    return out


def _isz(t):
    return t.op == 'const' and t.args[0] == 0


def solve_eq(e, v):
    """e: an equation linear in v with unit coefficient"""
    if e.op != 'eq0' or e.args[0].sort != 'I':
        return None
    d = e.args[0]
    parts = d.args if d.op == 'add' else (d,)
    coef = None
    rest = []
    for p in parts:
        c, r = tm._split_coeff(p)
        if r is v:
            coef = c
        elif v in fv(p):
            return None
        else:
            rest.append(p)
    if coef == 1:
        return neg(add(*rest)) if rest else ZERO
    if coef == -1:
        return add(*rest) if rest else ZERO
    return None


def bound_of(e, v):
    if e.op != 'ge0' or e.args[0].sort != 'I':
        return None
    d = e.args[0]
    parts = d.args if d.op == 'add' else (d,)
    coef = None
    rest = []
    for p in parts:
        c, r = tm._split_coeff(p)
        if r is v:
            coef = c
        elif v in fv(p):
            return None
        else:
            rest.append(p)
    rest = add(*rest) if rest else ZERO
    if coef == 1:      # v + rest >= 0
        return ('ge', neg(rest))
    if coef == -1:     # rest - v >= 0
        return ('lt', add(rest, 1))
    return None


def block_size(body, v):
    for s in subterms(body):
        if s.op in ('idiv', 'imod') and s.args[0] is v and v not in fv(s.args[1]):
            return s.args[1]
    return None


def monos(t):
    return list(t.args) if t.op == 'add' else [t]


def div_mono(p, m):
    """p / m for integer monomials, or None"""
    cp, rp = tm._split_coeff(p)
    cm, rm = tm._split_coeff(m)
    fp = list(rp.args) if rp.op == 'mul' else ([] if rp is ONE else [rp])
    fm = list(rm.args) if rm.op == 'mul' else ([] if rm is ONE else [rm])
    for f in fm:
        if f in fp:
            fp.remove(f)
        else:
            return None
    c = cp / cm
    if c.denominator != 1:
        return None
    return mul(I(c), *fp) if fp else I(c)


def exact_div(t, m):
    if m.op == 'add':
        # try the quotients suggested by the leading monomial
        for x in monos(t):
            for y in monos(m):
                q = div_mono(x, y)
                if q is not None and sub(t, mul(q, m)).op == 'const' and sub(t, mul(q, m)).args[0] == 0:
                    return q
        return None
    out = []
    for p in monos(t):
        q = div_mono(p, m)
        if q is None:
            return None
        out.append(q)
    return add(*out)


def multiples(ctx, m):
    """variables c such that a multiple c m bounds something in the facts"""
    r = getattr(ctx, '_mult', None)
    if r is None:
        r = ctx._mult = {}
    if m not in r:
        out = []
        for f in ctx.facts:
            if f.op == 'ge0' and f.args[0].sort == 'I':
                for p in monos(f.args[0]):
                    d = div_mono(p, m)
                    if d is not None:
                        d = tm._split_coeff(d)[1]
                        if d.op == 'var' and d not in out:
                            out.append(d)
        r[m] = out[:4]
    return r[m]


def divmod_simp(t, ctx):
    a, m = t.args
    if a.sort != 'I' or m.sort != 'I':
        return t
    q = []
    r = []
    if m.op == 'add':
        x = exact_div(a, m)
        if x is not None and ctx.decide(ne(m, 0)):
            return x if t.op == 'idiv' else ZERO
        cands = [(ZERO, a)]
        for p in monos(a):
            for y in monos(m):
                d = div_mono(p, y)
                if d is not None and d is not ZERO:
                    cands.append((d, sub(a, mul(d, m))))
    else:
        for p in monos(a):
            d = div_mono(p, m)
            (q if d is not None else r).append(d if d is not None else p)
        Q, Rm = add(ZERO, *q), add(ZERO, *r)
        cands = [(Q, Rm), (sub(Q, 1), add(Rm, m)), (add(Q, 1), sub(Rm, m))]
        if a.op != 'add':
            cands = cands[:1]
        for c in multiples(ctx, m):
            cands.append((add(Q, c), sub(Rm, mul(c, m))))
    for Q, Rm in cands:
        if ctx.decide(and_(le(ZERO, Rm), lt(Rm, m))):
            return Q if t.op == 'idiv' else Rm
    # pull out multiples even if the remainder is not in range (m > 0)
    if q and m.op != 'add' and ctx.decide(lt(ZERO, m)):
        Q, Rm = add(ZERO, *q), add(ZERO, *r)
        if t.op == 'idiv':
            return add(Q, idiv(Rm, m))
        return imod(Rm, m)
    return t


def calculus(t):
    """integral/derivative: linearity, constants"""
    if t.op not in ('integral', 'deriv'):
        return t
    x, lo, hi, body = t.args
    if t.op == 'deriv':
        if x not in fv(body):
            return ZERO
    try:
        p = ring.to_poly(body)
    except ring.TooBig:
        return t
    out = []
    for mono, c in p.items():
        ind, dep = [], []
        for a, e in mono:
            (dep if x in fv(a) else ind).append((a, e))
        k = ring.from_poly({tuple(ind): c})
        if t.op == 'deriv':
            if not dep:
                continue
            if dep == [(x, 1)]:
                out.append(k)
                continue
            f = fresh('x', 'R')
            out.append(ring.raw_mul([k, deriv(f, subst(ring.from_poly({tuple(dep): Fraction(1)}), {x: f}), lo)]))
        else:
            f = fresh('x', 'R')
            b = ring.from_poly({tuple(dep): Fraction(1)})
            if not dep:
                out.append(ring.raw_mul([k, sub(hi, lo)]))
            else:
                out.append(ring.raw_mul([k, integral(f, lo, hi, subst(b, {x: f}))]))
    return add(*out) if out else ZERO


def simp(t, ctx):
    s = Simp(ctx)
    for _ in range(4):
        n = s(t)
        if n is t:
            break
        t = n
        s = Simp(ctx)
    return t


# ------------------------------------------------------------------ equality and goals
def big_atoms(t):
    """maximal binder subterms (not under another binder)"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('sum', 'prod', 'integral', 'deriv'):
            out.append(x)
            continue
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return out


def replace(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS or t.op in RBINDERS or not any(isinstance(a, T) for a in t.args):
        r = t
    else:
        r = rebuild(t, [(replace(a, m, memo) if isinstance(a, T) else a) for a in t.args])
    memo[t] = r
    return r


def replace_deep(t, m, memo=None):
    """replace closed atoms (also below binders)"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not any(isinstance(a, T) for a in t.args):
        r = t
    elif t.op in BINDERS or t.op in RBINDERS:
        v, lo, hi, body = t.args
        f = fresh('o', v.sort)
        b0 = subst(body, {v: f})
        b = replace_deep(b0, m, memo)
        l2 = replace_deep(lo, m, memo) if isinstance(lo, T) else lo
        h2 = replace_deep(hi, m, memo) if isinstance(hi, T) else hi
        r = t if (b is b0 and l2 is lo and h2 is hi) else rebuild(t, (f, l2, h2, b))
    else:
        r = rebuild(t, [(replace_deep(a, m, memo) if isinstance(a, T) else a) for a in t.args])
    memo[t] = r
    return r


def ite_conds(t):
    """conditions of ites outside binders"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or x.op in BINDERS or x.op in RBINDERS:
            continue
        seen.add(x)
        if x.op == 'ite':
            out.append(x.args[0])
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return out


def same_binder(a, b, ctx, depth):
    if a is b:
        return True
    if a.op != b.op:
        return False
    if a.op in ('sum', 'prod'):
        va, la, ha, ba = a.args
        vb, lb, hb, bb = b.args
        if not (ctx.decide(eq(la, lb)) and ctx.decide(eq(ha, hb))):
            # shifted ranges
            if ctx.decide(eq(sub(ha, la), sub(hb, lb))):
                f = fresh('u')
                return prove_eq(subst(ba, {va: f}), subst(bb, {vb: add(f, sub(lb, la))}), ctx.rng(f, la, ha), depth + 1)
            return False
        f = fresh('u')
        xa, xb = subst(ba, {va: f}), subst(bb, {vb: f})
        if prove_eq(xa, xb, ctx.rng(f, la, ha), depth + 1):
            return True
        # exchange of two nested binders
        if xa.op == a.op and depth < 4:
            v2, l2, h2, b2 = xa.args
            if f not in fv(l2) and f not in fv(h2):
                g = fresh('w')
                sw = rebuild(a, (g, l2, h2, rebuild(a, (f, la, ha, subst(b2, {v2: g})))))
                if sw is not a and sw.op == b.op:
                    vs, ls, hs, bs = sw.args
                    if ctx.decide(eq(ls, lb)) and ctx.decide(eq(hs, hb)):
                        f2 = fresh('u')
                        return prove_eq(subst(bs, {vs: f2}), subst(bb, {vb: f2}), ctx.rng(f2, ls, hs), depth + 2)
        return False
    if a.op == 'integral':
        xa, la, ha, ba = a.args
        xb, lb, hb, bb = b.args
        f = fresh('y', 'R')
        return prove_eq(la, lb, ctx, depth + 1) and prove_eq(ha, hb, ctx, depth + 1) and \
            prove_eq(subst(ba, {xa: f}), subst(bb, {xb: f}), ctx, depth + 1)
    if a.op == 'deriv':
        xa, la, _, ba = a.args
        xb, lb, _, bb = b.args
        f = fresh('y', 'R')
        return prove_eq(la, lb, ctx, depth + 1) and prove_eq(subst(ba, {xa: f}), subst(bb, {xb: f}), ctx, depth + 1)
    return False


def congruent_apps(t):
    return [s for s in gsub(t) if s.op == 'app' and len(s.args) > 1]


DEADLINE = [None]


class OutOfTime(Exception):
    pass


def prove_eq(a, b, ctx, depth=0, splits=0):
    if DEADLINE[0] is not None and time.process_time() > DEADLINE[0]:
        raise OutOfTime()
    a, b = lift(a), lift(b)
    if a is b:
        return True
    if depth > 9:
        return False
    if ctx.infeasible():
        return True
    if a.sort == 'B' or b.sort == 'B':
        if a.sort == b.sort:
            return prove(implies(a, b), ctx, depth + 1) and prove(implies(b, a), ctx, depth + 1)
        a, b = tm.b2n(a), tm.b2n(b)
    if a.sort == 'O' or b.sort == 'O':
        if a.sort != b.sort:
            return False
        a, b = simp(a, ctx), simp(b, ctx)
        if a is b:
            return True
        for c in ite_conds(a) + ite_conds(b):
            if splits < 8 and ctx.decide(c) is None:
                return prove_eq(a, b, ctx + c, depth, splits + 1) and prove_eq(a, b, ctx + not_(c), depth, splits + 1)
        if a.op == b.op == 'lam':
            va, la, ha, ba = a.args
            vb, lb, hb, bb = b.args
            if prove(and_(eq(la, lb), eq(ha, hb)), ctx, depth + 1):
                f = fresh('l')
                return prove_eq(subst(ba, {va: f}), subst(bb, {vb: f}), ctx.rng(f, la, ha), depth + 1)
            return False
        if a.op == b.op == 'app' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            if all(prove_eq(x, y, ctx, depth + 1) for x, y in zip(a.args[1:], b.args[1:])):
                return True
        return z3check(ctx, eq(a, b)) == 'proved'
    a, b = simp(a, ctx), simp(b, ctx)
    if a is b or ring.is_zero(sub(a, b)):
        STATS['ring'] += 1
        return True
    rw = ctx.rewrites()
    if rw:
        a2, b2 = replace_deep(a, rw), replace_deep(b, rw)
        if a2 is not a or b2 is not b:
            a, b = simp(a2, ctx), simp(b2, ctx)
            if a is b or ring.is_zero(sub(a, b)):
                STATS['ring'] += 1
                return True
    for lem in ctx.lemmas:
        m = {}
        for x in big_atoms(a) + big_atoms(b):
            if x not in m:
                r = lem(x, ctx)
                if r is not None:
                    m[x] = r
        if m:
            STATS['lemma'] = STATS.get('lemma', 0) + len(m)
            a, b = simp(replace(a, m), ctx), simp(replace(b, m), ctx)
            if a is b or ring.is_zero(sub(a, b)):
                STATS['ring'] += 1
                return True
    # a product next to the same product with one factor left out
    m = {}
    prods = [x for x in set(big_atoms(a) + big_atoms(b)) if x.op == 'prod']
    for x in prods:
        v, lo, hi, body = x.args
        if body.op != 'ite' or body.args[1] is not ONE and not (body.args[1].op == 'const' and body.args[1].args[0] == 1):
            continue
        k = solve_eq(body.args[0], v)
        if k is None:
            continue
        for y in prods:
            if y is x or y in m or y.op != 'prod' or y.args[3].op == 'ite' or y.args[3].sort != x.args[3].sort:
                continue
            if y.args[1] is lo and y.args[2] is hi and ctx.decide(and_(le(lo, k), lt(k, hi))):
                if subst(y.args[3], {y.args[0]: v}) is body.args[2] or \
                        ring.is_zero(sub(subst(y.args[3], {y.args[0]: v}), body.args[2])):
                    m[y] = mul(subst(y.args[3], {y.args[0]: k}), x)
    if m:
        a, b = replace(a, m), replace(b, m)
        if a is b or ring.is_zero(sub(a, b)):
            STATS['ring'] += 1
            return True
    # identify binder atoms that are provably equal
    atoms = sorted({x for x in big_atoms(a) + big_atoms(b)}, key=lambda x: x.id)
    if len(atoms) > 1 and len(atoms) < 20:
        m = {}
        reps = []
        for x in atoms:
            for r in reps:
                if x.op == r.op and x.sort == r.sort and same_binder(x, r, ctx, depth + 1):
                    m[x] = r
                    break
            else:
                reps.append(x)
        if m:
            a2, b2 = replace(a, m), replace(b, m)
            if a2 is b2 or ring.is_zero(sub(a2, b2)):
                STATS['ring'] += 1
                return True
            a, b = a2, b2
    # applications with provably equal integer arguments
    apps = sorted(set(congruent_apps(a) + congruent_apps(b)), key=lambda x: x.id)
    m = {}
    if 1 < len(apps) <= 40:
        for i, x in enumerate(apps):
            for y in apps[:i]:
                if y in m or x.args[0] != y.args[0] or len(x.args) != len(y.args) or x.sort != y.sort:
                    continue
                if all(u is v or (u.sort == 'I' and v.sort == 'I' and ctx.proves(eq(u, v))) or
                       (u.sort == 'O' and v.sort == 'O' and depth < 7 and prove_eq(u, v, ctx, depth + 1)) or
                       (u.sort == 'R' and v.sort in 'RI' and depth < 6 and (ring.is_zero(sub(u, v)) or ctx.proves(eq(u, v))))
                       for u, v in zip(x.args[1:], y.args[1:])):
                    m[x] = y
                    break
        if m:
            a2, b2 = replace(a, m), replace(b, m)
            if a2 is b2 or ring.is_zero(sub(a2, b2)):
                STATS['ring'] += 1
                return True
            a, b = a2, b2
    # case split on a condition
    if splits < 8:
        cs = []
        for c in ite_conds(a) + ite_conds(b):
            for x in (c.args if c.op in ('and', 'or') else (c,)):
                if x not in cs:
                    cs.append(x)
        for c in cs:
            if ctx.decide(c) is None:
                return prove_eq(a, b, ctx + c, depth, splits + 1) and prove_eq(a, b, ctx + not_(c), depth, splits + 1)
    # a sum over a range that may be empty or has a provable last element: unfold once
    r = z3check(ctx, eq(a, b))
    if r == 'proved':
        return True
    if depth < 8:
        for x in atoms:
            if x.op == 'sum':
                v, lo, hi, body = x.args
                for y in atoms:
                    if y is not x and y.op == 'sum' and not (ctx.decide(eq(y.args[2], hi))):
                        if ctx.decide(eq(y.args[2], add(hi, 1))) and ctx.decide(le(y.args[1], hi)):
                            v2, l2, h2, b2 = y.args
                            un = add(sum_(v2, l2, hi, b2), subst(b2, {v2: hi}))
                            return prove_eq(replace(a, {y: un}), replace(b, {y: un}), ctx, depth + 2, splits)
    return False


def contradiction(ctx):
    """are the facts contradictory (after rewriting and simplification)?"""
    rw = ctx.rewrites()
    for f in ctx.facts:
        if f.op in ('var', 'const') or not (f.op in ('not', 'eq0', 'ge0', 'or') and big_atoms(f)):
            continue
        c = Ctx([g for g in ctx.facts if g is not f], ctx.attrs, ctx.lemmas)
        s = simp(replace_deep(f, rw), c)
        if s is FALSE or (s is not f and c.proves(not_(s))):
            return True
    return False


def prove(goal, ctx, depth=0):
    """goal: boolean term"""
    goal = lift(goal)
    if DEADLINE[0] is not None and time.process_time() > DEADLINE[0]:
        raise OutOfTime()
    if goal is TRUE or goal in ctx.facts:
        return True
    if ctx.infeasible():
        return True
    if goal is FALSE:
        return contradiction(ctx)
    if goal.op == 'and':
        return all(prove(g, ctx, depth) for g in goal.args)
    if goal.op == 'or' and depth < 8:
        if ctx.proves(goal):
            return True
        # prove the last disjunct under the negation of the others
        gs = sorted(goal.args, key=lambda g: 0 if g.op in ('ge0', 'not') else 1)
        g = gs[-1]
        return prove(g, ctx + [not_(x) for x in gs[:-1]], depth + 1)
    if goal.op == 'forall':
        v, lo, hi, body = goal.args
        f = fresh('g', v.sort)
        return prove(subst(body, {v: f}), ctx.rng(f, lo, hi), depth + 1)
    if goal.op == 'eq0':
        d = goal.args[0]
        if prove_eq(d, ZERO, ctx, depth):
            return True
        return False
    if goal.op == 'same':
        return prove_eq(goal.args[0], goal.args[1], ctx, depth)
    s = simp(goal, ctx)
    if s is not goal:
        return prove(s, ctx, depth + 1) if depth < 10 else ctx.proves(s)
    if ctx.proves(goal):
        return True
    # case split on if-then-else conditions inside the goal
    if depth < 10:
        for c in ite_conds(goal):
            if ctx.decide(c) is None:
                return prove(goal, ctx + c, depth + 1) and prove(goal, ctx + not_(c), depth + 1)
    return False
