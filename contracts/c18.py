"""C18: layout of structures."""
import ast
import itertools
from .structs import *
import casadi as cs
from pyvc.interp import Star, PyRaise, fn_node, formatted
from pyvc import models_sp as SPM
from pyvc.models_sp import pattern

SE, ST, CS_ = S3.StructEntry, S3.Structure, S3.CasadiStructure


def _word(name, *ids):
    t = fresh('t')
    return Lst([Seg(app('len:' + name, *ids, sort='I') if ids else var('len:' + name), t, [rec(name, *ids, t)])])


def words(n, name, *ids):
    """a list of n words"""
    return seq(var(n), lambda i: _word(name, *ids, i))


def any_model(rng):
    z = lambda *a: Fraction(1)
    return [mkmodel({'n': 2, 'm': 2, 'p': 1, 'd': 2, 'Q': 2, 'N': 2, 'limit': rng.randint(1, 5), 'len:P': 1, 'a': 1}, funs={'len:A': z, 'len:B': z, 'len:C': z, 'len:T': z, 'len:L': z, 'len:R': z, 'cnt': z, 'len:G': z}) for _ in range(2)]


SIZES = [le(0, var(x)) for x in ('n', 'm', 'p', 'd', 'Q', 'N', 'len:P')]


class Lpack(Unit):
    name = 'lpack'
    targets = (S3.lpack,)

    def cases(self):
        yield case('any list', lambda it: it.call(S3.lpack, [symlist('x', 'n')], {}), returns(seq(var('n'), lambda i: Lst([app('x', i, sort='I')]))), SIZES,
                   lambda rng: [mkmodel({'n': rng.randint(0, 4)}, funs={'x': lambda i: Fraction(i)}) for _ in range(3)], native=lambda m: S3.lpack(list(range(int(m.vars['n'])))))


def combined(*lists):
    """every element of the first list followed by every combination of the others"""
    if not lists:
        return Lst([Lst([])])

    def go(ls, acc):
        if not ls:
            return [acc]
        out = []
        for x in ls[0]:
            if isinstance(x, Seg):
                out.append(Seg(x.n, x.var, [y for e in x.elems for y in go([Lst([e])] + list(ls[1:]), acc)]))
            else:
                out += go(ls[1:], Lst(list(acc) + list(x)))
        return out
    return Lst(go(lists, Lst([])))


class Combine(Unit):
    name = 'combine'
    targets = (S3.combine,)

    def cases(self):
        A = words('n', 'A')
        rest = seq(var('p'), lambda i: rec('arg', i), tuple)
        tail = words('m', 'B')

        def rec_call(it, *args):
            require(it, 'remaining lists', tuple(y for x in args for y in (x.v if isinstance(x, Star) else [x])), rest)
            return tail
        yield case('no argument', lambda it: it.call(S3.combine, [], {}), returns(Lst([Lst([])])), SIZES, any_model, native=lambda m: S3.combine())
        yield case('recursive step', lambda it: direct(it, S3.combine, (A,) + rest), returns(combined(A, tail)), SIZES, any_model, {S3.combine: rec_call})
        yield case('two lists', lambda it: it.call(S3.combine, [A, words('m', 'B')], {}), returns(combined(A, words('m', 'B'))), SIZES, any_model)
        yield case('three lists', lambda it: it.call(S3.combine, [A, words('m', 'B'), words('p', 'C')], {}), returns(combined(A, words('m', 'B'), words('p', 'C'))), SIZES, any_model)


class ListIndices(Unit):
    name = 'listindices'
    targets = (S3.listindices,)
    assumptions = ('contracts of lpack and combine',)

    def cases(self):
        C = {S3.combine: lambda it, *a: combined(*a), S3.lpack: lambda it, L: seq(lift(it.length(L)), lambda i: Lst([it.seq_at(L, i)]))}
        more = seq(var('p'), lambda i: app('dim', i, sort='I'))
        dims = Lst([var('d')] + list(more))
        tail = words('m', 'T')

        def rec_call(it, d, nest=False):
            require(it, 'remaining dimensions', d, more)
            if nest is not False:
                raise OutOfReach('nested lists of the remaining dimensions')
            return tail
        C[S3.listindices] = rec_call
        for nest in (False, True):
            yield case('no dimension, nest=%s' % nest, lambda it, nest=nest: direct(it, S3.listindices, [Lst([]), nest]), returns(Lst([Lst([Lst([])])]) if nest else Lst([Lst([])])), SIZES, any_model, dict(C),
                       native=lambda m, nest=nest: S3.listindices([], nest))
        yield case('one more dimension', lambda it: direct(it, S3.listindices, [dims]), returns(seq2(var('d'), var('m'), lambda i, j: Lst([i] + list(_word('T', j))))), SIZES, any_model, dict(C))
        yield case('one more dimension, nested', lambda it: direct(it, S3.listindices, [dims, True]),
                   returns(seq(var('d'), lambda i: seq(var('m'), lambda j: Lst([i] + list(_word('T', j)))))), SIZES, any_model, dict(C))


def seq2(n, m, f, kind=Lst):
    """f(i, j) for i < n, for j < m"""
    i, j = fresh('i'), fresh('j')
    return kind([Seg(n, i, [Seg(m, j, [f(i, j)])])])


class Ancestors(Unit):
    name = 'canonicalIndexAncestors'
    targets = (S3.canonicalIndexAncestors, S3.is_string)

    def cases(self):
        yield case('empty', lambda it: it.call(S3.canonicalIndexAncestors, [()], {}), returns(Lst([])), SIZES, any_model, native=lambda m: S3.canonicalIndexAncestors(()))
        P = seq(var('len:P'), lambda t: rec('P', t, __isinstance__=lambda it, x, c: app('name?', x.args[0], sort='B')), tuple)
        ind = P + (rec('name', cls=str),) + seq(var('d'), lambda i: app('r', i, sort='I'), tuple)

        def rec_call(it, x):
            return seq(var('a'), lambda t: rec('anc', x, t))
        yield case('last name and its repetitions', lambda it: direct(it, S3.canonicalIndexAncestors, [ind]),
                   returns(Lst([ind] + list(seq(var('a'), lambda t: rec('anc', P, t))))), SIZES + [le(0, var('a'))], any_model, {S3.canonicalIndexAncestors: rec_call})


class EntryTraverse(Unit):
    name = 'StructEntry.traverseCanonicalIndex'
    targets = (SE.traverseCanonicalIndex,)
    assumptions = ('contracts of listindices, combine and of the nested structure', 'structures nested in less than 500 levels')

    def cases(self):
        C = {S3.combine: lambda it, *a: combined(*a)}
        dims = seq(var('p'), lambda i: app('dim', i, sort='I'))

        def li(it, d, nest=False):
            it.oblige('dimensions', lift(d is dims))
            return seq(var('n'), lambda i: seq(app('cnt', i, sort='I'), lambda j: _word('L', i, j))) if nest else words('n', 'L')
        C[S3.listindices] = li
        def inside(it, limit=1000):
            it.oblige('depth', or_(eq(lift(limit), sub(var('limit'), 1)), le(499, lift(limit))) if it.given else le(499, lift(limit)))
            return words('m', 'B')
        struct = rec('struct', cls=ST, traverseCanonicalIndex=lambda it, s: Model_(inside))

        def run(it, e, kw, nest=False):
            it.given = 'limit' in kw
            return direct(it, SE.traverseCanonicalIndex, [e, True] if nest else [e], kw)
        nm = rec('name', cls=str)
        for s, ch in ((None, Lst([Lst([])])), (struct, words('m', 'B'))):
            e = Obj(S3.CasadiStructEntry, {'name': nm, 'struct': s, 'dims': dims, 'type': None})
            for kw in ({}, {'limit': var('limit')}, {'limit': 0}):
                facts = SIZES + [lt(0, var('limit')), lt(var('limit'), 499)]
                lab = '%s%s' % ('nested structure' if s else 'matrix', '' if not kw else ', this level only' if kw['limit'] == 0 else ', limit')
                if kw.get('limit') == 0:
                    ch = Lst([Lst([])])
                yield case(lab, lambda it, e=e, kw=kw: run(it, e, kw), returns(combined(Lst([Lst([nm])]), words('n', 'L'), ch)), facts, any_model, dict(C))
                i = fresh('i')
                want = Lst([Seg(var('n'), i, [combined(Lst([Lst([nm])]), seq(app('cnt', i, sort='I'), lambda j: _word('L', i, j)), ch)])])
                yield case(lab + ', grouped', lambda it, e=e, kw=kw: run(it, e, kw, True), returns(want), facts, any_model, dict(C))



class Intersperse(Unit):
    name = 'intersperse (elements)'
    targets = (S3.intersperse, S3.intersperseIt)
    bound = 'up to four lists of up to four elements each'

    def cases(self):
        for k in range(5):
            for lens in itertools.product(range(5 if k < 4 else 3), repeat=k):
                lists = [Lst([rec('x', i, j) for j in range(n)]) for i, n in enumerate(lens)]
                want = Lst([rec('x', i, j) for j in range(max(lens, default=0)) for i, n in enumerate(lens) if j < n])
                yield case('lengths %r' % (lens,), lambda it, lists=lists: it.call(S3.intersperse, lists, {}), returns(want), models=lambda rng: [mkmodel({})],
                           native=lambda m, lens=lens: S3.intersperse(*[[['rec', 'x', i, j] for j in range(n)] for i, n in enumerate(lens)]))


class Done(Exception):
    def __init__(self, v):
        self.v = v


class IntersperseN(Unit):
    """The lists are visited in turn.  Before visit i of round r list j has been visited r times, once more if
    j < i; its iterator has passed that many elements and it counts as active until a visit found nothing.  This
    is the invariant of the loop: it holds before the first visit of round 0, every pass of the body yields element
    r of list i if there is one and nothing otherwise and leads to the next visit, and the loop goes on exactly
    while some list has not been found exhausted."""
    name = 'intersperse'
    targets = (S3.intersperse, S3.intersperseIt)

    def cases(self):
        L, i, r = var('L'), var('i'), var('r')
        size = lambda j: app('size', j, sort='I')
        visits = lambda i, r: lambda j: add(r, ite(lt(j, i), I(1), I(0)))
        facts = [le(1, L), le(0, r), le(0, i), lt(i, L), forall(k := fresh('k'), ZERO, L, le(0, size(k)))]

        def run(it):
            moved = []

            def rule(s, fr):
                node = fn_node(S3.intersperseIt)
                if s is not node.body[-1] or s.orelse:
                    raise OutOfReach('loop of another form')
                found = {}
                stored = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                used = {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
                for name, v in fr.vars.items():
                    if name not in used or isinstance(v, (T, int)) and name not in stored:
                        continue
                    if isinstance(v, int) and not isinstance(v, bool) and v == 0:
                        kind = 'position'
                    elif isinstance(v, Lst) and v.rec is None and len(v) == 1 and type(v[0]) is Seg and v[0].n is L and len(v[0].elems) == 1:
                        e = v[0].at(var('j'))
                        kind = 'active' if e is True else 'iterators' if isinstance(e, Rec) and e.name == 'iterator' and e.args[0] is var('j') else None
                    elif isinstance(v, tuple):
                        continue
                    else:
                        kind = None
                    if kind is None or kind in found:
                        raise OutOfReach('loop over other variables')
                    found[kind] = name
                if set(found) != {'position', 'active', 'iterators'}:
                    raise OutOfReach('loop over other variables')
                seen = visits(i, r)
                fr.vars[found['active']] = seq(L, lambda j: le(seen(j), size(j)))
                fr.vars[found['position']] = i
                its = fr.vars[found['iterators']]
                test = it.truth(it.eval(s.test, fr))
                j = fresh('j')
                it.oblige('goes on while a list is active', and_(implies(test, want := exists(j, ZERO, L, le(seen(j), size(j)))), implies(want, test)))
                it.ctx = it.ctx + test
                if s.body and fr.yields:
                    raise OutOfReach('elements before the loop')
                names = set(fr.vars)
                it.block(s.body, fr)
                if set(fr.vars) != names or fr.vars[found['iterators']] is not its:
                    raise OutOfReach('loop over other variables')
                raise Done((fr.yields, fr.vars[found['active']], fr.vars[found['position']], Lst(moved)))

            def step(it, v, *default):
                if default or not (isinstance(v, Rec) and v.name == 'iterator'):
                    raise OutOfReach('next')
                j = v.args[0]
                moved.append(j)
                at = visits(i, r)(j)
                if not it.branch(lt(at, size(j))):
                    raise PyRaise(StopIteration)
                return rec('x', j, at)
            step.always = True
            start = lambda it, v: rec('iterator', v.args[0])
            start.always = True
            it.tables = [{iter: start, next: step}] + list(it.tables)
            it.s_While = rule
            lists = seq(L, lambda j: rec('list', j), tuple)
            try:
                direct(it, S3.intersperseIt, [Star(lists)])
            except Done as d:
                return d.v
            raise OutOfReach('no loop')

        def post(last):
            def post(it, kind, v, ctx):
                if kind == 'raise':
                    yield 'does-not-raise', FALSE
                    return
                out, active, pos, moved = v
                i2, r2 = (I(0), add(r, 1)) if last else (add(i, 1), r)
                here = ctx.decide(lt(r, size(i)))
                if here is None:
                    raise OutOfReach('element not looked at')
                yield from veq('yielded', out, Lst([rec('x', i, r)] if here else []), ctx)
                # a further visit of an exhausted list changes nothing
                yield from veq('iterator moved', moved, Lst([i] if here else [i for _ in moved]), ctx)
                yield 'next visit', eq(lift(pos), i2)
                seen = visits(i2, r2)
                yield from veq('active', active, seq(L, lambda j: le(seen(j), size(j))), ctx)
            return post
        models = lambda rng: [mkmodel({'L': 3, 'i': 1, 'r': rng.randint(0, 2)}, funs={'size': lambda j: Fraction(j + 1)})]
        yield case('visit followed by the next list', run, post(False), facts + [lt(add(i, 1), L)], models)
        yield case('last visit of a round', run, post(True), facts + [eq(add(i, 1), L)], lambda rng: [mkmodel({'L': 3, 'i': 2, 'r': rng.randint(0, 2)}, funs={'size': lambda j: Fraction(j + 1)})])

        made = lambda it, *lists: seq(var('total'), lambda k: rec('y', k)) if veq_ok(it, lists) else None

        def veq_ok(it, lists):
            require(it, 'the lists', tuple(y for v in lists for y in (v.v if isinstance(v, Star) else [v])), seq(L, lambda j: rec('list', j), tuple))
            return True
        yield case('list of all elements', lambda it: direct(it, S3.intersperse, [Star(seq(L, lambda j: rec('list', j), tuple))]), returns(seq(var('total'), lambda k: rec('y', k))),
                   [le(0, L), le(0, var('total'))], lambda rng: [mkmodel({'L': 2, 'total': 3})], {S3.intersperseIt: made})
        yield case('no lists', lambda it: it.call(S3.intersperse, [], {}), returns(Lst([])), models=lambda rng: [mkmodel({})], native=lambda m: S3.intersperse())


class StructTraverse(Unit):
    name = 'Structure.traverseCanonicalIndex'
    targets = (ST.traverseCanonicalIndex,)
    assumptions = ('contracts of intersperse, SafeDict and of the traversal of an entry', 'structures nested in less than 500 levels')

    def cases(self):
        def lookup(it, d, k):
            def trav(it, nest=False, limit=1000):
                it.oblige('depth', eq(lift(limit), sub(var('limit'), 1)) if it.given else le(499, lift(limit)))
                if nest:
                    return rec('groups', k)
                return seq(app('count', *k.args, sort='I'), lambda i: _word('I', *k.args, i))
            return rec('entry', k, traverseCanonicalIndex=lambda it, e: Model_(trav))
        d = rec('dict', cls=S3.SafeDict, __getitem__=lookup)

        def single(b, i):
            return rec('key', b, i, cls=str)

        def singles(b):
            return Seg(var('n%d' % b), (i := fresh('i')), [single(b, i)])

        def groups(b, size):
            i = fresh('i')
            return Seg(var('n%d' % b), i, [tuple(single(10 * b + j + 5, i) for j in range(size))])

        def want(parts):
            out = []
            for p in parts:
                i = fresh('i')
                if isinstance(p.elems[0], tuple):
                    b = [x.args[0] for x in p.elems[0]]
                    ls = [i] * len(b)
                    q, j = fresh('q'), fresh('j')
                    out.append(Seg(p.n, i, [Seg(app('rounds', *ls, sort='I'), q, [Seg(app('cnt', *ls, q, sort='I'), j, [_word('G', *ls, q, j)])])]))
                else:
                    b = p.elems[0].args[0]
                    j = fresh('j')
                    out.append(Seg(p.n, i, [Seg(app('count', lift(b), i, sort='I'), j, [_word('I', lift(b), i, j)])]))
            return Lst(out)
        facts = SIZES + [le(0, var('n%d' % b)) for b in range(4)] + [lt(0, var('limit')), lt(var('limit'), 499)]

        def inter2(it, *args):
            if not all(isinstance(x, Rec) and x.name == 'groups' for x in args):
                raise OutOfReach('arguments of intersperse')
            ks = [x.args[0] for x in args]
            q = [k.args[1] for k in ks]
            tags = [k.args[0] for k in ks]
            it.oblige('entries of the group in order', lift(tags == sorted(tags, key=lambda t: t.args[0] if isinstance(t, T) else t)))
            return seq(app('rounds', *q, sort='I'), lambda r: seq(app('cnt', *q, r, sort='I'), lambda j: _word('G', *q, r, j)))

        def models(rng):
            one = lambda *a: Fraction(1)
            return [mkmodel({'n%d' % b: rng.randint(0, 2) for b in range(4)} | {'limit': 9, 'n': 1, 'm': 1, 'p': 1, 'd': 1, 'Q': 1, 'N': 1, 'len:P': 1}, funs={'count': one, 'cnt': one, 'rounds': one, 'len:G': one, 'len:I': one})]
        def run(it, s, kw):
            it.given = 'limit' in kw
            return direct(it, ST.traverseCanonicalIndex, [s], kw)
        # entries and groups in any order, groups of any size: the k-th element of the order is a group or a single entry
        isgroup = lambda k: app('isgroup', k, sort='B')
        gkey = lambda k, j: rec('key', 8, k, j, cls=str)
        gsize = lambda k: app('gsize', k, sort='I')
        members = lambda k, f, kind: seq(gsize(k), lambda j: f(gkey(k, j)), kind)

        def inter(it, *args):
            ks = [x for v in args if isinstance(v, Star) for s in v.v if isinstance(s, Seg) for e in s.elems if isinstance(e, Rec) and e.name == 'groups' for x in e.args[0].args[1:2]]
            if len(args) != 1 or len(ks) != 1:
                raise OutOfReach('arguments of intersperse')
            require(it, 'entries of the group in order', Lst(args[0].v), members(ks[0], lambda k: rec('groups', k), Lst))
            return seq(app('rounds', ks[0], sort='I'), lambda r: seq(app('cnt', ks[0], r, sort='I'), lambda j: _word('G', ks[0], r, j)))
        for kw in ({}, {'limit': var('limit')}):
            s = Obj(CS_, {'order': seq(var('n0'), lambda k: rec('ite', isgroup(k), members(k, lambda x: x, lambda x: tuple(x)), single(0, k))), 'dict': d})
            k = fresh('k')
            q, j, l = fresh('q'), fresh('j'), fresh('l')
            result = Lst([Seg(var('n0'), k, [
                Seg(ite(isgroup(k), 1, 0), fresh('once'), [Seg(app('rounds', k, sort='I'), q, [Seg(app('cnt', k, q, sort='I'), j, [_word('G', k, q, j)])])]),
                Seg(ite(isgroup(k), 0, 1), fresh('once'), [Seg(app('count', I(0), k, sort='I'), l, [_word('I', I(0), k, l)])])])])
            yield case('entries and groups in any order' + (', limit' if kw else ''), lambda it, s=s, kw=kw: run(it, s, kw), returns(result), facts, models, {S3.intersperse: inter})
        layouts = [('single entries', lambda: [singles(0)])]
        for size in (1, 2, 3):
            layouts.append(('groups of %d' % size, lambda size=size: [groups(0, size)]))
            layouts.append(('entries and groups of %d' % size, lambda size=size: [singles(0), groups(1, size), singles(2)]))
        layouts.append(('groups, entries, groups', lambda: [groups(0, 2), singles(1), groups(2, 3)]))
        for label, mk in layouts:
            for kw in ({}, {'limit': var('limit')}):
                parts = mk()
                s = Obj(CS_, {'order': Lst(parts), 'dict': d})
                yield case(label + (', limit' if kw else ''), lambda it, s=s, kw=kw: run(it, s, kw), returns(want(parts)), facts, models, {S3.intersperse: inter2})


class EntryLookup(Unit):
    name = 'getStructEntryByStructIndex'
    targets = (ST.getStructEntryByStructIndex, ST.getStructEntryByCanonicalIndex, SE.getStructEntryByStructIndex)
    assumptions = (PARTIAL, 'contract of SafeDict')

    def cases(self):
        def entry(k):
            return rec('entry', k, getStructEntryByStructIndex=lambda it, e: Model_(lambda it, idx: rec('inside', e, Lst(idx))))
        d = rec('dict', cls=S3.SafeDict, __getitem__=lambda it, d, k: entry(k))
        s = Obj(CS_, {'dict': d})
        k0, rest = rec('k0', cls=str), seq(var('n'), lambda i: rec('k', i, cls=str))
        f = ST.getStructEntryByStructIndex
        yield case('name', lambda it: direct(it, f, [s, Lst([k0])]), returns(entry(k0)), SIZES, any_model)
        yield case('nested names', lambda it: direct(it, f, [s, Lst([k0, rec('k1', cls=str)] + list(rest))]), returns(rec('inside', entry(k0), Lst([rec('k1', cls=str)] + list(rest)))), SIZES, any_model)
        st = rec('struct', cls=ST, getStructEntryByStructIndex=lambda it, e: Model_(lambda it, idx: rec('inside', idx)))
        e = Obj(S3.CasadiStructEntry, {'struct': st, 'name': 'x', 'dims': Lst([])})
        yield case('nested structure', lambda it: direct(it, SE.getStructEntryByStructIndex, [e, rest]), returns(rec('inside', rest)), SIZES, any_model)
        # canonical index: names and repetition numbers
        nums = lambda nm, n: Seg(var(n), (i := fresh('i')), [app(nm, i, sort='I')])
        names = lambda n: Seg(var(n), (i := fresh('i')), [rec('k', i, cls=str)])
        x = Lst([k0, nums('r', 'm'), rec('k1', cls=str), nums('s', 'p')])
        C = {ST.getStructEntryByStructIndex: lambda it, s, idx: rec('lookup', idx)}
        g = ST.getStructEntryByCanonicalIndex
        for kind in (Lst, tuple):
            yield case('names of a canonical index (%s)' % kind.__name__, lambda it, kind=kind: direct(it, g, [s, kind(x)]), returns(rec('lookup', Lst([k0, rec('k1', cls=str)]))), SIZES, any_model, dict(C))
            y = [names('n'), nums('r', 'm')]
            yield case('names of a longer canonical index (%s)' % kind.__name__, lambda it, kind=kind: direct(it, g, [s, kind(y)]), returns(rec('lookup', Lst([names('n')]))), SIZES, any_model, dict(C))
        z = Lst([Seg(var('n'), (i := fresh('i')), [rec('c', i, __isinstance__=lambda it, v, c: app('name?', v.args[0], sort='B'))])])
        j = fresh('j')
        yield case('names of any canonical index', lambda it: direct(it, g, [s, z]), returns(rec('lookup', Lst([FSeg(var('n'), j, app('name?', j, sort='B'), rec('c', j))]))), SIZES,
                   lambda rng: [mkmodel({'n': 2, 'm': 1, 'p': 1, 'd': 1, 'Q': 1, 'N': 1, 'len:P': 1}, funs={'name?': lambda i: True})], dict(C))


# ------------------------------------------------------------------ the layout
def mat(sp, vals):
    """DM(pattern, nonzeros)"""
    return rec('DM', sp, vals, cls=cs.DM, nz=lambda it, m: rec('nonzeros', __getitem__=lambda it, z, i: column(m.args[1]) if isinstance(i, slice) and i == slice(None) else oor('part of the nonzeros')))


def oor(msg):
    raise OutOfReach(msg)


def column(vals):
    return rec('column', vals, cls=cs.DM)


def DM_(it, *a):
    if len(a) == 2 and isinstance(a[0], Rec) and a[0].cls is cs.Sparsity and isinstance(a[1], Lst):
        it.oblige('as many values as nonzeros', eq(lift(it.length(a[1])), SPM.nnz(a[0])))
        return mat(*a)
    raise OutOfReach('DM of %r' % (a,))


def vec_(it, x):
    if isinstance(x, Rec) and x.name == 'column':
        return x
    raise OutOfReach('vec')


def vertcat_(it, *a):
    if len(a) == 1 and isinstance(a[0], Star):
        return rec('vertcat', Lst(a[0].v), cls=cs.DM)
    return rec('vertcat', Lst(a), cls=cs.DM)


MATS = {cs.DM: DM_, cs.vec: vec_, cs.vertcat: vertcat_}
for _f in MATS.values():
    _f.always = True


class Layout(Unit):
    name = 'CasadiStructure.__init__'
    targets = (CS_.__init__,)
    lean = ('free_entry', 'free_struct', 'free_nodup', 'free_single', 'indices_nodup')
    assumptions = ('contracts of Structure.__init__, traverseCanonicalIndex, getStructEntryByCanonicalIndex, canonicalIndexAncestors',
                   'names in a structure differ (contract of Structure.__init__, C24); then no canonical index is a beginning of another (Lean: free_entry, free_struct, indices_nodup)',
                   'casadi: DM(pattern, values) has the values as its nonzeros in column-major order, nz[:] lists them, vertcat stacks columns')

    def cases(self):
        Q = var('Q')
        idx = lambda q: _word('I', q)
        anc = lambda q, j: (rec('anc', q, j),)

        def entry(it, s, i):
            i = list(i)
            if not (len(i) == 1 and isinstance(i[0], Seg) and isinstance(i[0].elems[0], Rec) and i[0].elems[0].name == 'I'):
                raise OutOfReach('index of an entry')
            return rec('entry', i[0].elems[0].args[0], sparsity=lambda it, e: pattern(e.args[0]))

        def ancestors(it, i):
            if not (isinstance(i, tuple) and len(i) == 1 and isinstance(i[0], Seg) and isinstance(i[0].elems[0], Rec) and i[0].elems[0].name == 'I'):
                raise OutOfReach('ancestors of another index')
            q = i[0].elems[0].args[0]
            return Lst([i] + list(seq(app('depth', q, sort='I'), lambda j: anc(q, j))))

        def init(it, self, entries, order=None):
            it.oblige('entries and order are passed on', lift(entries is ENT and (order is ORD or order is None)))
        ENT, ORD = rec('entries'), rec('order')
        C = {ST.__init__: init, ST.traverseCanonicalIndex: lambda it, s, limit=1000: seq(Q, idx), ST.getStructEntryByCanonicalIndex: entry, S3.canonicalIndexAncestors: ancestors}
        K = lambda q: sum_(r_, ZERO, q, app('nnz', r_, sort='I'))
        M = lambda q: mat(pattern(q), seq(app('nnz', q, sort='I'), lambda t: add(K(q), t)))

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'does not raise', FALSE
                return
            yield 'size', eq(lift(it.getattr(v, 'size')), K(Q)), ctx
            table = it.getattr(v, 'lookuptable')
            yield from veq('lookup', table, Lst([Seg(Q, q_, [Seg(app('nnz', q_, sort='I'), t_, [(tuple(idx(q_)), t_, (app('row', q_, t_, sort='I'), app('col', q_, t_, sort='I')))])])]), ctx)
            m = it.getattr(v, 'map')
            if not isinstance(m, Dct) or m.log is None:
                raise OutOfReach('another form of the map')
            ev = it.dict_events(m)
            if len(ev) != 2 or not isinstance(ev[1], Seg) or len(ev[1].elems) != 1:
                raise OutOfReach('another form of the map')
            yield from seq_eq('positions of an element', [ev[0]], [Seg(Q, q_, [('set', tuple(idx(q_)), M(q_))])], ctx)
            # groups: under the key of the first event, the positions of all the events of the group, in order
            g = ev[1].elems[0]
            h = ev[1].var
            key = g[1]
            if not (isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], Rec) and key[0].args[0].op == 'app'):
                raise OutOfReach('another form of the groups')
            name = key[0].args[0].name if hasattr(key[0].args[0], 'name') else key[0].args[0].args[0]
            tag = str(name).rsplit('.', 1)[0]
            e0 = lambda t: app(tag + '.0', h, lift(t), sort='I')
            e1 = lambda t: app(tag + '.1', h, lift(t), sort='I')
            want = rec('vertcat', seq(app(tag + '.count', h, sort='I'), lambda t: column(M(e0(t)).args[1])))
            c = ctx.rng(h, ZERO, ev[1].n)
            yield 'all groups', eq(ev[1].n, var(tag + '.keys')), ctx
            yield from seq_eq('elements of the groups', [it.grouped[tag]], [Seg(Q, q_, [Seg(app('depth', q_, sort='I'), t_, [('add', anc(q_, t_), M(q_))])])], ctx)
            yield from veq('key of a group', key, anc(e0(0), e1(0)), c)
            yield from veq('positions of a group', g[2], want, c)
        q_, t_, r_ = fresh('q'), fresh('t'), fresh('r')
        facts = SIZES + [forall(q_, ZERO, Q, le(0, app('nnz', q_, sort='I'))), forall(q_, ZERO, Q, le(0, app('depth', q_, sort='I')))]

        def models(rng):
            one = lambda *a: Fraction(1)
            return [mkmodel({'Q': 2, 'n': 1, 'm': 1, 'p': 1, 'd': 1, 'N': 1, 'len:P': 1}, funs={'nnz': one, 'depth': one, 'row': one, 'col': one, 'len:I': one})]
        for label, kw in (('entries', {}), ('entries and order', {'order': ORD})):
            yield case(label, lambda it, kw=kw: it.call(CS_, [ENT], kw), post, facts, models, dict(C), [MATS])


class Lookup(Unit):
    name = 'CasadiStructure.getCanonicalIndex'
    targets = (CS_.getCanonicalIndex, CS_.canonicalIndices)

    def cases(self):
        i, n = var('i'), var('n')
        can = lambda k: tuple(_word('I', k))
        row = lambda k: (can(k), app('k', k, sort='I'), (app('r', k, sort='I'), app('c', k, sort='I')))
        s = Obj(CS_, {'size': n, 'lookuptable': seq(n, row)})
        want = {0: can, 1: lambda k: can(k) + (app('k', k, sort='I'),), 2: lambda k: can(k) + (app('r', k, sort='I'), app('c', k, sort='I'))}

        def models(rng):
            f = lambda *a: Fraction(1)
            for _ in range(4):
                yield mkmodel({'i': rng.randint(-1, 3), 'n': rng.randint(0, 3)}, funs={'k': f, 'r': f, 'c': f, 'len:I': f})
        for mode, w in want.items():
            yield case('mode %d' % mode, lambda it, mode=mode: direct(it, CS_.getCanonicalIndex, [s, i], {'extraMode': mode}), returns(w(i), and_(le(0, i), lt(i, n))), [le(0, n)], models)
            yield case('all, mode %d' % mode, lambda it, mode=mode: direct(it, CS_.canonicalIndices, [s], {'extraMode': mode}), returns(seq(n, w)), [le(0, n)], models)
        yield case('default mode', lambda it: direct(it, CS_.getCanonicalIndex, [s, i]), returns(want[1](i), and_(le(0, i), lt(i, n))), [le(0, n)], models)
        yield case('all, default mode', lambda it: direct(it, CS_.canonicalIndices, [s]), returns(seq(n, want[1])), [le(0, n)], models)


class Labels(Unit):
    name = 'CasadiStructure.getLabel'
    targets = (CS_.getLabel, CS_.labels)
    assumptions = ('contract of getCanonicalIndex', 'Python: sep.join(l) is the elements of l with sep between them')

    def cases(self):
        i, n = var('i'), var('n')
        ok = lambda i: and_(le(0, i), lt(i, n))

        def index(it, s, i, extraMode=1):
            if not it.branch(ok(lift(i))):
                raise PyRaise(Exception)
            return tuple(_word('I%s' % extraMode, lift(i)))

        def label(name, v, mode, k, ctx):
            if not (isinstance(v, Rec) and v.name == 'text' and [isinstance(x, str) for x in v.args] == [True, False, True] and isinstance(v.args[1], Rec) and v.args[1].name == 'join'):
                raise OutOfReach('text of another form')
            yield name + ': brackets', lift(v.args[0] == '[' and v.args[2] == ']'), ctx
            yield name + ': commas', lift(v.args[1].args[0] == ','), ctx
            t = fresh('t')
            yield from veq(name, v.args[1].args[1], Lst([Seg(app('len:I%s' % mode, k, sort='I'), t, [formatted(rec('I%s' % mode, k, t), 's')])]), ctx)

        def post(mode, every):
            def post(it, kind, v, ctx):
                if kind == 'raise':
                    yield 'raises-only-when-invalid', FALSE if every else not_(ok(i))
                elif not every:
                    yield 'accepts-only-valid', ok(i)
                    yield from label('label', v, mode, i, ctx)
                else:
                    if not (isinstance(v, Lst) and v.rec is None and len(v) == 1 and type(v[0]) is Seg and len(v[0].elems) == 1):
                        raise OutOfReach('list of another form')
                    yield 'as many as elements', eq(v[0].n, n)
                    k = fresh('k')
                    yield from label('labels', v[0].at(k), mode, k, ctx.rng(k, ZERO, n))
            return post
        f = lambda *a: Fraction(1)
        models = lambda rng: [mkmodel({'i': rng.randint(-1, 3), 'n': rng.randint(0, 3)}, funs={'len:I%d' % m: f for m in range(3)}) for _ in range(4)]
        s = Obj(CS_, {'size': n})
        for mode, kw in [(m, {'extraMode': m}) for m in range(3)] + [(1, {})]:
            lab = 'mode %d' % mode if kw else 'default mode'
            yield case(lab, lambda it, kw=kw: direct(it, CS_.getLabel, [s, i], kw), post(mode, False), [le(0, n)], models, {CS_.getCanonicalIndex: index})
            yield case('all, ' + lab, lambda it, kw=kw: direct(it, CS_.labels, [s], kw), post(mode, True), [le(0, n)], models, {CS_.getCanonicalIndex: index})


class Dictionary(Unit):
    name = 'SafeDict'
    targets = (S3.SafeDict.__getitem__,)

    def cases(self):
        n, q = var('n'), var('q')
        key = lambda k: rec('key', k, cls=str, injective=True)
        make = lambda: Obj(S3.SafeDict, {'<dict>': SDct(seq(n, lambda k: (key(k), rec('value', k))))})
        models = lambda rng: [mkmodel({'n': 3, 'q': rng.randint(0, 5)}) for _ in range(4)]
        yield case('any key', lambda it: it.getitem(make(), key(q)), returns(rec('value', q), lt(q, n)), [le(0, n), le(0, q)], models)


UNITS = [Lpack, Combine, ListIndices, Intersperse, IntersperseN, Ancestors, EntryTraverse, StructTraverse, EntryLookup, Layout, Lookup, Labels, Dictionary]

from . import concrete
concrete.validate(UNITS, layout=('StructEntry.traverseCanonicalIndex', 'Structure.traverseCanonicalIndex', 'getStructEntryByStructIndex', 'CasadiStructure.__init__', 'CasadiStructure.getCanonicalIndex', 'CasadiStructure.getLabel'))
