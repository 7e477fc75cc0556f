"""Native oracle of C21: symbolic structures and structures built from expressions."""
from .structs import *
from .c19 import numbers

BOUND = 'random structures of up to 150 elements, every primitive and sub-structure entry; up to 3 replacements'


def instances(rng, tier):
    while True:
        kind = rng.choice(['symSX', 'symMX', 'SX', 'MX', 'MX', 'MXm', 'sym='])
        if kind in ('symSX', 'symMX'):
            few = rng.random() < .3
            if rng.random() < .15:
                # neighbours with the same printed name
                n = rng.randint(1, 3)
                es = [dict(name='a', dims=[n]), dict(name='a_%d' % (n - 1)), dict(name='b', shape=rng.choice([None, 2]))]
                yield dict(kind=kind, d=dict(items=es if rng.random() < .5 else es[::-1], order=None))
                continue
            yield dict(kind=kind, d=rand_struct(rng, 3 if few else rng.choice([0, 1, 2]), few=few, names=CLASH if rng.random() < .3 else None))
            continue
        if kind == 'sym=':
            d = rand_struct(rng, 0, symm=False, sparse=False, zero=False, groups=False)
            for e in flat_entries(d):
                e.pop('dims', None)
            yield dict(kind=kind, d=d, own=[rng.random() < .5 for _ in flat_entries(d)])
            continue
        d = rand_struct(rng, rng.choice([0, 0, 1]), symm=False, zero=False, groups=kind == 'MX')
        if kind != 'MX':
            d['order'] = None      # MatrixStruct does not take an order
        es = flat_entries(d)
        rep = []
        for _ in range(rng.randint(0, 3)):
            e = rng.choice(es)
            ix = [rng.randint(0, n - 1) for n in (e.get('dims') or [])]
            if rng.random() < .5:
                ix = ix[:rng.randint(0, len(ix))]
            rep.append([e['name'], ix, rng.random() < .2, rng.random() < .25])
        yield dict(kind=kind, d=d, rep=rep, seed=rng.randint(0, 10 ** 6))


def is_pure(e):
    """purely symbolic by construction: all elements are independent symbols"""
    return e.is_valid_input()


def entry_part(cat, L, c, T):
    """elements of an entry as cut from the flat vector"""
    P = np.array(L.sub[c], object).reshape(-1, 1) if c in L.sub else L.matrix(c)
    return P


def value_check(s, L, now, what, cls):
    flat = numbers(now(s.cat)).ravel()
    for c in list(L.prim) + list(L.sub):
        P = entry_part(s.cat, L, c, cls)
        got = now(cls(s[c]))
        if got.shape != P.shape:
            return '%s: entry %r has shape %r instead of %r' % (what, c, got.shape, P.shape)
        g = numbers(got)
        w = np.array([[0. if p is None else flat[p] for p in row] for row in P], float).reshape(P.shape)
        if not np.allclose(g, w, rtol=1e-12, atol=0):
            return '%s: entry %r is %s instead of %s' % (what, c, g, w)
    return None


def symbolic(x):
    cls, X = (S.struct_symSX, cs.SX) if x['kind'] == 'symSX' else (S.struct_symMX, cs.MX)
    L = Layout(x['d'])
    s = real(x['d'], cls)
    if s.size != L.size or s.cat.shape != (L.size, 1) or s.shape != (L.size, 1):
        return 'flat vector has shape %r, size %r instead of %d' % (s.cat.shape, s.size, L.size)
    if not isinstance(s.cat, X) or not s.cat.is_valid_input() or not s.cat.is_dense():
        return 'flat vector is not purely symbolic: %r' % s.cat
    v = np.random.RandomState(3).uniform(1, 2, L.size)
    now = lambda e: cs.Function('e', [s.cat], [e])(v)
    e = value_check(s, L, now, 'symbols', X)
    if e:
        return e
    names = None
    if X is cs.SX:
        names = [str(s.cat[i]) for i in range(L.size)]
        if len(set(names)) != len(names):
            pass    # equal names of different symbols are allowed
    a = cs.DM(v) if L.size != 1 else cs.DM(v)
    if not np.array_equal(numbers(s(a).cat).ravel(), v):
        return 'numbers of the structure differ'
    if x['kind'] == 'symMX' and (s.numel() != L.size or not s.is_column() or not s.is_valid_input() or not s.is_dense()):
        return 'symbolic MX structure does not look like its vector'
    for bad in (S.entry('q', expr=X.sym('q', 2)), ):
        if not raises(cls, [bad]):
            return 'an entry with an expression is accepted'
    for l in ([S.entry('p', shape=2), bad], [bad, S.entry('p', shape=2)]):
        if not raises(cls, l):
            return 'an entry with an expression is accepted beside one without'
    given = S.entry('q', sym=cs.SX.sym('q', 2))
    if x['kind'] == 'symMX' and not all(raises(cls, l) for l in ([given], [given, S.entry('p', shape=2)], [S.entry('p', shape=2), given])):
        return 'an entry with a given SX symbol is accepted by struct_symMX'
    return None


def given(x):
    """struct_symSX with given symbols"""
    items, d = [], x['d']
    syms = {}
    for e, own in zip(flat_entries(d), x['own']):
        if own:
            syms[e['name']] = cs.SX.sym('given', *shape_of(e))
            items.append(S.entry(e['name'], sym=syms[e['name']]))
        else:
            items.append(real_entry(e))
    s = S.struct_symSX(items, order=real_order(d))
    L = Layout(d)
    if s.cat.shape != (L.size, 1) or not s.cat.is_valid_input():
        return 'flat vector is %r' % s.cat
    for k, v in syms.items():
        if s[k].shape != v.shape or not all(cs.is_equal(s[k][i], v[i]) for i in range(v.numel())):
            return 'entry %r is %s instead of the given symbol' % (k, s[k])
        P = L.matrix((k,))
        for i in range(P.shape[0]):
            for j in range(P.shape[1]):
                if not cs.is_equal(s.cat[P[i, j]], v[i, j]):
                    return 'position %d is %s instead of %s' % (P[i, j], s.cat[P[i, j]], v[i, j])
    return None


def sparse(T, e, vals):
    nz = stored_nz(e)
    r, c = shape_of(e)
    m = cs.DM(cs.Sparsity.triplet(r, c, [i for i, _ in nz], [j for _, j in nz]), vals)
    return T(m)


def build(X, sy, e, dims, new, r, pre=()):
    """nested lists of expressions; new[canonical] gets their numbers; no symbol: zeros"""
    if not dims and sy is None:
        n = Layout(e['struct']).size if e.get('struct') is not None else len(stored_nz(e))
        new[pre] = np.zeros(n)
        return X(cs.DM.zeros(n)) if e.get('struct') is not None else sparse(X, e, np.zeros(n))
    if not dims and e.get('struct') is not None:
        v = r.uniform(1, 2, Layout(e['struct']).size)
        new[pre] = v
        return X(cs.DM(v)) * sy
    if not dims:
        nz = stored_nz(e)
        v = r.uniform(1, 2, len(nz))
        new[pre] = v
        # symbol times numbers: evaluates to the numbers where the symbol is one
        m = sparse(X, e, v)
        return m * sy
    return [build(X, sy, e, dims[1:], new, r, pre + (i,)) for i in range(dims[0])]


def expressions(x):
    d, kind = x['d'], x['kind']
    X = cs.SX if kind == 'SX' else cs.MX
    cls = dict(SX=S.struct_SX, MX=S.struct_MX, MXm=S.struct_MX_mutable)[kind]
    r = np.random.RandomState(x['seed'])
    sy = X.sym('one')
    now = lambda e: cs.Function('e', [sy], [e])(1)
    new = {}
    items = []
    for it in d['items']:
        l = []
        for e in (it if isinstance(it, list) else [it]):
            kw = {} if e.get('struct') is None else {'struct': real(e['struct'])}
            l.append(S.entry(e['name'], expr=build(X, sy, e, e.get('dims') or [], new, r, (e['name'],)), **kw))
        items.append(tuple(l) if isinstance(it, list) else l[0])
    L = Layout(d)
    s = cls(items, order=real_order(d)) if kind == 'MX' else cls(items)
    by = {e['name']: e for e in flat_entries(d)}
    for n, rep in enumerate([None] + x['rep']):
        what = 'initially' if rep is None else 'after replacing %r' % (rep,)
        if rep is not None:
            name, ix, bad, zero = rep
            e = by[name]
            dims = (e.get('dims') or [])[len(ix):]
            fresh = {}
            v = build(X, sy if not zero or bad else None, e, dims, fresh, r, (name,) + tuple(ix))
            if bad:
                if dims:
                    continue
                sh = shape_of(e) if e.get('struct') is None else (Layout(e['struct']).size, 1)
                w = X(cs.DM.ones(sh[0] + 1, sh[1] + 2)) * sy
                if not raises(s.__setitem__, (name,) + tuple(ix), w):
                    return 'replacing %r of shape %r by shape %r is accepted' % (rep, sh, w.shape)
                if kind == 'MX' and e.get('struct') is not None:
                    sub = next(iter(Layout(e['struct']).prim))
                    if not raises(s.__setitem__, (name,) + tuple(ix) + sub, X(cs.DM.ones(*shape_of(Layout(e['struct']).prim[sub][0])))):
                        return 'replacing a part of an expression is accepted'
                elif kind == 'MX' and len(stored_nz(e)) > 1:
                    nz = stored_nz(e)[1:]
                    w = X(cs.DM(cs.Sparsity.triplet(sh[0], sh[1], [i for i, _ in nz], [j for _, j in nz]), 1.)) * sy
                    if not raises(s.__setitem__, (name,) + tuple(ix), w):
                        return 'replacing %r by an expression with another sparsity pattern is accepted' % (rep,)
            else:
                s[(name,) + tuple(ix)] = v
                new.update(fresh)
        want = np.full(L.size, np.nan)
        for c, v in new.items():
            want[L.sub[c] if c in L.sub else L.prim[c][1]] = v
        cat = now(s.cat)
        if cat.shape != (L.size, 1) or not np.allclose(numbers(cat).ravel(), want, rtol=1e-12, atol=0):
            return '%s: flat vector is %s instead of %s' % (what, cat, want)
        e = value_check(s, L, now, what, X)
        if e:
            return e
    bare, full = S.entry('q', shape=2), S.entry('p', expr=X.sym('p', 2))
    if not all(raises(cls, l) for l in ([bare], [bare, full], [full, bare])):
        return 'an entry without an expression is accepted'
    return None


def check(x):
    if x['kind'] in ('symSX', 'symMX'):
        return symbolic(x)
    if x['kind'] == 'sym=':
        return given(x)
    return expressions(x)
