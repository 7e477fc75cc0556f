"""Native oracle of C20: power indices against a direct evaluation of what they denote."""
from .structs import *
from .c19 import numbers

BOUND = 'random structures of up to 150 elements and power indices of up to 6 components of every kind, reading and writing'


class Bad(Exception):
    """the index is invalid"""


# index components: name | int | {'s':..} | {'l':[..]} | {'n':[names]} | {'e':1} ellipsis | {'d':1} | {'set':[..]} | {'nd':1} | {'fn':..}

def flatten(v):
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flatten(x)]
    if isinstance(v, dict):
        return [y for k in sorted(v) for y in flatten(v[k])]   # the order of a set is arbitrary
    return [v]


def fn_stack(v):
    return cs.vertcat(cs.DM(0, 1), *[cs.vec(x) for x in flatten(v)])


def fn_twice(v):
    if isinstance(v, (list, tuple)):
        return [fn_twice(x) for x in v]
    if isinstance(v, dict):
        return {k: fn_twice(x) for k, x in v.items()}
    return 2 * v + 1


def fn_rev(v):
    if isinstance(v, (list, tuple)):
        return list(v)[::-1]
    if isinstance(v, dict):
        return {k: v[k] for k in list(v)[::-1]}
    return v.T


FN = dict(stack=fn_stack, twice=fn_twice, rev=fn_rev)


INTS = [int, np.int64, np.int32, np.int16, np.int8, np.intp, np.longlong]


def real_index(ix, ints=0):
    """ints: indices as other integer types"""
    out = []
    for a in ix:
        if isinstance(a, dict):
            (k, v), = a.items()
            a = dict(s=lambda: slice(*v), l=lambda: list(v), n=lambda: list(v), e=lambda: Ellipsis, d=lambda: {}, set=lambda: set(v), nd=lambda: S.nesteddict, fn=lambda: FN[v])[k]()
        elif isinstance(a, int) and ints:
            a = INTS[(ints + len(out)) % len(INTS)](a)
        out.append(a)
    return tuple(out)


def kind(a):
    return next(iter(a)) if isinstance(a, dict) else 'name' if isinstance(a, str) else 'int'


def apply(ix, leaf, d, L, pre=()):
    """value of an index in a structure; leaf(canonical, extra) gives the value of a fully resolved part"""
    if not ix:
        if pre in L.sub:
            return leaf(pre, [])
        raise Bad
    p, rest = ix[0], ix[1:]
    by = {e['name']: e for e in flat_entries(d)}
    k = kind(p)

    def at(n, r):
        if n not in by:
            raise Bad
        return apply_entry(r, leaf, by[n], by[n].get('dims') or [], L, pre + (n,))
    if k == 'name':
        return at(p, rest)
    if k == 'e':
        return [at(n, rest) for n in keys_of(d)]
    if k == 'd':
        return {n: at(n, rest) for n in by}
    if k == 'nd':
        return {n: at(n, [p]) for n in by}
    if k == 'set':
        return {n: at(n, rest) for n in p['set']}
    if k == 'l' and not p['l']:
        return []
    if k == 'n':
        return [at(n, rest) for n in p['n']]
    if k == 'fn':
        return FN[p['fn']](apply(rest, leaf, d, L, pre))
    raise Bad


def apply_entry(ix, leaf, e, dims, L, pre):
    if not dims:
        if e.get('struct') is not None:
            if not ix:
                return leaf(pre, [])
            return apply(ix, leaf, e['struct'], L, pre)
        if ix and kind(ix[0]) == 'fn':
            return FN[ix[0]['fn']](apply_entry(ix[1:], leaf, e, dims, L, pre))
        if ix and kind(ix[0]) == 'nd':
            ix = []
        if len(ix) > 2:
            raise Bad
        return leaf(pre, ix)
    n = dims[0]
    if not ix:
        return [apply_entry(ix, leaf, e, dims[1:], L, pre + (i,)) for i in range(n)]
    p, rest = ix[0], ix[1:]
    k = kind(p)

    def at(i, r):
        # a repetition that does not exist is noticed when something of it is addressed
        return apply_entry(r, leaf, e, dims[1:], L, pre + (i % n if -n <= i < n else 'none',))
    if k == 'int':
        return at(p, rest)
    if k == 's':
        return [at(i, rest) for i in range(n)[slice(*p['s'])]]
    if k == 'l':
        return [at(i, rest) for i in p['l']]
    if k == 'nd':
        return [at(i, [p]) for i in range(n)]
    if k == 'fn':
        return FN[p['fn']](apply_entry(rest, leaf, e, dims, L, pre))
    raise Bad


def assign(ix, leaf, d, L, v, pre=()):
    """distribute a payload; leaf(canonical, extra, payload)"""
    if not ix:
        if pre in L.sub:
            return leaf(pre, [], v)
        raise Bad
    p, rest = ix[0], ix[1:]
    by = {e['name']: e for e in flat_entries(d)}
    k = kind(p)

    def at(n, r, v):
        if n not in by:
            raise Bad
        assign_entry(r, leaf, by[n], by[n].get('dims') or [], L, v, pre + (n,))
    if k == 'name':
        at(p, rest, v)
    elif k in ('e', 'n'):
        for i, n in enumerate(keys_of(d) if k == 'e' else p['n']):
            at(n, rest, unpack(v, i))
    elif k in ('d', 'nd', 'set'):
        if isinstance(v, dict):
            for n in v:
                if k != 'set' or n in p['set']:
                    at(n, [p] if k == 'nd' else rest, v[n])
        else:
            for n in (p['set'] if k == 'set' else by):
                at(n, [p] if k == 'nd' else rest, v)
    elif k == 'l' and not p['l']:
        pass
    else:
        raise Bad


def assign_entry(ix, leaf, e, dims, L, v, pre):
    if not dims:
        if e.get('struct') is not None:
            if not ix:
                return leaf(pre, [], v)
            return assign(ix, leaf, e['struct'], L, v, pre)
        if ix and kind(ix[0]) == 'nd':
            ix = []
        if len(ix) > 2:
            raise Bad
        return leaf(pre, ix, v)
    n = dims[0]

    def at(i, r, v):
        assign_entry(r, leaf, e, dims[1:], L, v, pre + (i % n if -n <= i < n else 'none',))
    p, rest = (ix[0], ix[1:]) if ix else ({'s': [None, None, None]}, [])
    k = kind(p)
    if k == 'int':
        at(p, rest, v)
    elif k in ('s', 'l', 'nd'):
        for m, i in enumerate(range(n)[slice(*p['s'])] if k == 's' else p['l'] if k == 'l' else range(n)):
            at(i, [p] if k == 'nd' else rest, unpack(v, m))
    else:
        raise Bad


def unpack(v, i):
    if isinstance(v, (list, tuple)):
        if i >= len(v):
            raise Bad
        return v[i]
    return v['rep'] if isinstance(v, dict) and 'rep' in v else v


# ---- instances --------------------------------------------------------------------------------------------------

def rand_index(rng, d, top=True):
    """mostly valid index of a structure"""
    c = rng.random()
    es = flat_entries(d)
    e = rng.choice(es)
    if c < .5:
        return [e['name'] if rng.random() < .96 else rng.choice(['nope', mixed_case(e['name']), ' ' + e['name'], e['name'] + '_0'])] + rand_entry_index(rng, e, list(e.get('dims') or []))
    if c < .6:
        return [{'e': 1}] + (rand_entry_index(rng, e, list(e.get('dims') or [])) if rng.random() < .4 else [])
    if c < .7:
        return [{'set': rng.sample([x['name'] for x in es], rng.randint(1, len(es))) + (['nope'] if rng.random() < .08 else [])}] + (rand_entry_index(rng, e, list(e.get('dims') or [])) if rng.random() < .3 else [])
    if c < .76:
        return [{'d': 1}]
    if c < .83:
        return [{'nd': 1}]
    if c < .9:
        return [{'n': rng.sample([x['name'] for x in es], rng.randint(1, len(es))) + (['nope'] if rng.random() < .08 else [])}] + (rand_entry_index(rng, e, list(e.get('dims') or [])) if rng.random() < .3 else [])
    if c < .98:
        return [{'fn': rng.choice(sorted(FN))}] + rand_index(rng, d, False)
    return [rng.choice([0, {'s': [None, None, None]}])]


def rand_entry_index(rng, e, dims):
    if rng.random() < .06:
        return [{'fn': rng.choice(sorted(FN))}] + rand_entry_index(rng, e, dims)
    if not dims:
        if e.get('struct') is not None:
            return rand_index(rng, e['struct'], False) if rng.random() < .8 else []
        c = rng.random()
        if c < .55:
            return []
        if c < .6:
            return [{'nd': 1}]
        if c < .63:
            return [0, 0, 0]
        # blocks of symmetric and of sparse entries: C23, C19
        return rand_extra(rng, shape_of(e)) if e.get('type') is None else []
    c = rng.random()
    n = dims[0]
    if c < .1:
        return []
    if c < .15:
        return [{'nd': 1}]
    if c < .45 and n:
        a = rng.randint(-n, n - 1) if rng.random() < .95 else rng.choice([n, -n - 1])
    elif c < .75:
        a = {'s': rng.choice([[None, None, None], [1, None, None], [None, -1, None], [None, None, -1], [None, None, 2], [0, n + 2, None], [n, None, None]])}
    elif c < .97:
        a = {'l': [rng.randint(-n, n - 1) for _ in range(rng.randint(0, n))]}
    else:
        a = rng.choice([{'d': 1}, {'set': ['a']}, {'e': 1}, 'a'])
    return [a] + rand_entry_index(rng, e, dims[1:])


def instances(rng, tier):
    while True:
        d = rand_struct(rng, rng.choice([0, 1, 1, 2]))
        ix = [rand_index(rng, d) for _ in range(4)]
        yield dict(d=d, reads=ix[:2], writes=[dict(ix=a, mode=rng.choice(['same', 'same', 'scalar', 'repeated', 'short', 'tuple', 'partial', 'further'])) for a in ix[1:]], seed=rng.randint(0, 10 ** 6), kind=rng.choice(['DM', 'DM', 'SX']))


def diff(got, want, path=''):
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return '%s is %r instead of a list of %d' % (path, got, len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            e = diff(g, w, path + '[%d]' % i)
            if e:
                return e
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return '%s is %r instead of a dictionary over %r' % (path, got, list(want))
        for k in want:
            e = diff(got[k], want[k], path + '[%r]' % k)
            if e:
                return e
        return None
    if isinstance(got, (list, dict)):
        return '%s is %r instead of a matrix' % (path, got)
    g, w = numbers(got), numbers(want)
    if g.shape != w.shape or not np.allclose(g, w, rtol=1e-12, atol=0):
        return '%s is %s instead of %s' % (path, got, want)
    return None


def reader(L, cur):
    def leaf(c, extra):
        if c in L.sub:
            P = np.array(L.sub[c], object).reshape(-1, 1)
        elif c in L.prim:
            P = L.matrix(c)
        else:
            raise Bad
        if any(kind(a) not in ('int', 's', 'l') for a in extra):
            raise Bad
        try:
            P = select(P, extra)
        except Exception:
            raise Bad
        if extra:
            leaf.extra = True
        v = np.array([[0. if p is None else cur[p] for p in row] for row in P], float).reshape(P.shape)
        return cs.DM(v) if v.size else cs.DM(*P.shape)
    return leaf


def safe(f, *a):
    try:
        return f(*a), None
    except Bad:
        return None, 'bad'


def has_fn(ix):
    return any(kind(a) == 'fn' for a in ix)


def check(x):
    try:
        return one(x)
    except Skip:
        return None


def one(x):
    d = x['d']
    L = Layout(d)
    st = real(d)
    r = np.random.RandomState(x['seed'])
    cur = r.uniform(1, 2, L.size)
    if x['kind'] == 'SX':
        s = st(cs.SX(cs.DM(cur)))
    else:
        s = st(cs.DM(cur))
    for ix in x['reads']:
        e = read(s, L, d, ix, cur)
        if e:
            return e
    for w in x['writes']:
        ix = w['ix']
        val, bad = safe(apply, ix, reader(L, cur), d, L)
        if bad or has_fn(ix):
            if bad and not has_fn(ix) and not raises(s.__setitem__, real_index(ix), 1.5):
                return 'writing the invalid index %r does not raise' % (ix,)
            e = None if bad else write_through(s, L, d, ix, cur, w['mode'], r)
            if e:
                return e
            cur = numbers(cs.DM(s.cat)).ravel()     # partial effects of a failed write are not specified
            continue
        pay, pre = payload(w['mode'], val, ix, r, keys_of(d))
        new = cur.copy()
        seen = set()
        clash = [False]

        def leaf(c, extra, v):
            if c not in L.sub and c not in L.prim:
                raise Bad
            P = np.array(L.sub[c], object).reshape(-1, 1) if c in L.sub else L.matrix(c)
            P = select(P, extra)
            if symmetric(L, c) and extra:
                clash[0] = True     # C23
                return
            if isinstance(v, (list, tuple, dict)):
                clash[0] = True     # a list where a matrix is expected: casadi's conversions
                return
            v = numbers(v)
            if v.shape == (1, 1):
                v = np.full(P.shape, v[0, 0])
            if v.shape != P.shape:
                clash[0] = True
                return
            if symmetric(L, c) and not np.array_equal(v, v.T):
                clash[0] = True     # what a matrix that is not symmetric stores there is not specified
                return
            here = set()
            for p, a in zip(P.ravel(), v.ravel()):
                if p is not None:
                    new[p] = a
                    if p in seen or (p in here and not symmetric(L, c)):
                        clash[0] = True
                    here.add(p)
            seen.update(here)
            if any(p is None for p in P.ravel()) and v.size:
                clash[0] = clash[0] or w['mode'] not in ('same', 'tuple', 'partial', 'further')
        _, bad = safe(assign, ix, leaf, d, L, pre)
        if clash[0]:
            continue
        if bad:
            if not raises(s.__setitem__, real_index(ix), pay):
                return 'writing %r to %r does not raise' % (pay, ix)
            cur = numbers(cs.DM(s.cat)).ravel()
            continue
        try:
            s[real_index(ix)] = pay
        except Exception as err:
            return 'writing %r at %r raises %s' % (pay, ix, str(err.__cause__ or err)[:300])
        if not np.allclose(numbers(cs.DM(s.cat)).ravel(), new, rtol=1e-12, atol=0):
            return 'writing %r at %r gives %s instead of %s' % (pay, ix, s.cat, new)
        cur = new
        e = read(s, L, d, ix, cur)
        if e:
            return 'after writing: ' + e
    return None


def write_through(s, L, d, ix, cur, mode, r):
    """writing through a function: it selects among the positions"""
    ks = [kind(a) for a in ix]
    if sum(k == 'fn' for k in ks) != 1 or not all(k in ('name', 'int') for k in ks[:ks.index('fn')]) or ix[ks.index('fn')]['fn'] != 'stack':
        return None
    odd = []

    def leaf(c, extra):
        P = L.matrix(c) if c in L.prim else np.array(L.sub[c], object).reshape(-1, 1)
        P = select(P, extra)
        if symmetric(L, c) or any(p is None for p in P.ravel()):
            odd.append(c)
            return cs.DM(*P.shape)
        return cs.DM(P.astype(float)) if P.size else cs.DM(*P.shape)
    P = apply(ix, leaf, d, L)
    if odd or not isinstance(P, cs.DM):
        return None
    at = numbers(P).ravel().astype(int)
    if not at.size or len(set(at)) < at.size:
        return None
    v = r.uniform(3, 4, at.size)
    if mode == 'scalar':
        v[:] = v[0]
    new = cur.copy()
    new[at] = v
    try:
        s[real_index(ix)] = float(v[0]) if mode == 'scalar' else cs.DM(v)
    except Exception as err:
        return 'writing through a function at %r raises %s' % (ix, str(err.__cause__ or err)[:300])
    if not np.allclose(numbers(cs.DM(s.cat)).ravel(), new, rtol=1e-12, atol=0):
        return 'writing %r through a function at %r gives %s instead of %s' % (v, ix, s.cat, new)
    return None


def symmetric(L, c):
    return c in L.prim and L.prim[c][0].get('type') == 'symm'


def read(s, L, d, ix, cur):
    leaf = reader(L, cur)
    want, bad = safe(apply, ix, leaf, d, L)
    try:
        # casadi's own indexing takes no other integer types
        got = s[real_index(ix, 0 if bad or hasattr(leaf, 'extra') else int(cur.sum() * 100) % 12)]
    except Exception as err:
        if bad:
            return None
        return 'reading %r raises %s' % (ix, str(err.__cause__ or err)[:300])
    if bad:
        # the result of applying a function to an empty selection may hide an invalid rest
        return 'the invalid index %r reads %r' % (ix, got)
    e = diff(got, want)
    if e is None and not np.allclose(numbers(cs.DM(s.cat)).ravel(), cur, rtol=1e-12, atol=0):
        e = 'changed the vector'
    return None if e is None else 'reading %r: %s' % (ix, e)


def sparse_like(v, r):
    """new random numbers with the shape of the selection; zeros (not stored) stay zero"""
    n = numbers(v)
    new = np.where(n == 0, 0., r.uniform(2, 5, n.shape))
    if n.shape[0] == n.shape[1] and np.array_equal(n, n.T):
        new = (new + new.T) / 2
    m = cs.DM(new) if new.size else cs.DM(*n.shape)
    return cs.sparsify(m)


def renew(v, r, f=list):
    if isinstance(v, list):
        return f(renew(a, r, f) for a in v)
    if isinstance(v, dict):
        return {k: renew(a, r, f) for k, a in v.items()}
    return sparse_like(v, r)


def payload(mode, val, ix, r, keys):
    """payload for the real code and for the reference"""
    if mode == 'scalar':
        v = float(r.uniform(5, 6))
        return v, v
    if mode == 'repeated' and isinstance(val, list) and val:
        if r.rand() < .4:
            # the same list for every element
            v = renew(val[0], r)
            return S.repeated(v), {'rep': v}
        v = float(r.uniform(5, 6))
        return S.repeated(v), {'rep': v}
    if mode == 'short' and isinstance(val, list) and val:
        v = renew(val, r)[:-1]
        return v, v
    if mode == 'partial' and isinstance(val, dict) and val:
        v = renew(val, r)
        v.pop(sorted(v)[0])
        return v, v
    v = renew(val, r, tuple if mode == 'tuple' else list)
    if mode == 'further' and isinstance(val, dict):
        # entries the index does not select (of a set), or that do not exist (of all entries)
        for k in [a for a in keys if a not in v] if kind(ix[0]) == 'set' else ['nope'] if kind(ix[0]) == 'd' and r.rand() < .2 else []:
            v[k] = float(r.uniform(5, 6))
        ks = list(v)
        v = {ks[i]: v[ks[i]] for i in r.permutation(len(ks))}
    return v, v
