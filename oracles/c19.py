"""Native oracle of C19: sequences of reads and writes of structured vectors against a plain array."""
from .structs import *

BOUND = 'random structures of up to 150 elements, up to 6 writes of elements, blocks, entries and sub-structures; numeric, SX and MX vectors'


def instances(rng, tier):
    while True:
        d = rand_struct(rng, rng.choice([0, 1, 1, 2]))
        L = Layout(d)
        ops = []
        places = list(L.prim) + list(L.sub)
        if not places:
            continue
        for _ in range(rng.randint(1, 6)):
            c = rng.choice(places)
            sub = c not in L.prim
            symm = not sub and L.prim[c][0].get('type') == 'symm'
            shape = (len(L.sub[c]), 1) if sub else shape_of(L.prim[c][0])
            # blocks of symmetric entries are the subject of C23
            ops.append(dict(c=list(c), x=[] if symm else [] if sub else rand_extra(rng, shape), v=rng.choice(['full', 'full', 'full', 'scalar', 'bad', 'list'])))
        yield dict(d=d, ops=ops, kind=rng.choice(['DM', 'DM', 'DM', 'SX', 'MX']), seed=rng.randint(0, 10 ** 6))


def data(kind, n, r):
    """initial vector and the function giving its current numbers"""
    v0 = r.uniform(1, 2, n)
    if kind == 'DM':
        return cs.DM(v0), lambda e: cs.DM(e)
    s = getattr(cs, kind).sym('data', n)
    return s, lambda e: cs.Function('e', [s], [e])(v0)


def numbers(m):
    m = cs.DM(m)
    return np.array(cs.densify(m)).reshape(m.shape)


def place(L, c, x):
    P = np.array(L.sub[c], object).reshape(-1, 1) if c in L.sub else L.matrix(c)
    return select(P, x)


def read_error(s, L, cur, now, c, x, what):
    P = place(L, c, x)
    try:
        e = s[c + real_extra(x)]
    except Exception as err:
        return '%s: reading %r raises %s' % (what, c + tuple(x), str(err.__cause__ or err)[:200])
    got = now(e)
    if got.shape != P.shape:
        return '%s: %r reads with shape %r instead of %r' % (what, c + tuple(x), got.shape, P.shape)
    g = numbers(got)
    for i in range(P.shape[0]):
        for j in range(P.shape[1]):
            want = 0. if P[i, j] is None else cur[P[i, j]]
            if not np.isclose(g[i, j], want, rtol=1e-12, atol=0, equal_nan=True):
                return '%s: element (%d, %d) of %r reads %r instead of %r' % (what, i, j, c + tuple(x), g[i, j], want)
    return None


def nested(e, L, cur, c, dims):
    if dims:
        return [nested(e, L, cur, c + (i,), dims[1:]) for i in range(dims[0])]
    if e.get('struct') is not None:
        return cs.DM(cur[L.sub[c]])
    P = L.matrix(c)
    k = [(i, j) for j in range(P.shape[1]) for i in range(P.shape[0]) if P[i, j] is not None]
    return cs.DM(cs.Sparsity.triplet(P.shape[0], P.shape[1], [a for a, _ in k], [b for _, b in k]), [float(cur[P[a]]) for a in k])


def by_keys(d, L, st, r):
    """vector built from a dictionary of all entries, given in any order"""
    cur = r.uniform(1, 2, L.size)
    vals = {e['name']: nested(e, L, cur, (e['name'],), e.get('dims') or []) for e in flat_entries(d)}
    names = [list(vals)[i] for i in r.permutation(len(vals))]
    try:
        s = st({k: vals[k] for k in names})
    except Exception as err:
        return 'calling with a dictionary over %r raises %s' % (names, str(err.__cause__ or err)[:200])
    got = numbers(s.cat).ravel()
    if not np.array_equal(got, cur):
        return 'the dictionary over %r gives %s instead of %s' % (names, got, cur)
    if not raises(st, dict(vals, nope=1.)) or not raises(st, {k: vals[k] for k in names[1:]}):
        return 'a dictionary with a further or a missing key is accepted'
    return None


def check(x):
    d, kind = x['d'], x['kind']
    L = Layout(d)
    st = real(d)
    r = np.random.RandomState(x['seed'])
    if L.size:
        for bad in (cs.DM.zeros(L.size + 1), cs.DM.zeros(L.size, 2), cs.DM.zeros(L.size - 1) if L.size > 2 else cs.DM.zeros(L.size + 2)):
            for f in (st, lambda a: S.DMStruct(st, data=a), lambda a: st(cs.MX(a)), lambda a: st(cs.SX(a))):
                if not raises(f, bad):
                    return 'data of shape %r accepted for a structure of size %d' % (bad.shape, L.size)
    for a, w in ((st(), 0.), (st(3), 3.), (S.DMStruct(st), float('nan'))):
        if a.cat.shape != (L.size, 1) or not np.array_equal(numbers(a.cat).ravel(), np.full(L.size, w), equal_nan=True):
            return 'default data is %s' % a.cat
    if L.size:
        a, b = st(), st(3)
        a.cat[0], b.cat[0] = 7, 7
        for a, w in ((st(), 0.), (st(3), 3.)):
            if not np.array_equal(numbers(a.cat).ravel(), np.full(L.size, w)):
                return 'default data is %s after writing to another vector' % a.cat
    e = by_keys(d, L, st, r)
    if e:
        return e
    s0, now = data(kind, L.size, r)
    if kind == 'DM' and L.size == 1:
        s0 = cs.DM(s0)
    start = cs.DM(now(s0))
    s = st(getattr(cs, kind)(s0))
    cur = numbers(start).ravel().copy()
    sym = 'symm'
    for n, op in enumerate([None] + x['ops']):
        what = 'initially' if op is None else 'after write %d of %r' % (n, op)
        if op is not None:
            c, ex = tuple(op['c']), op['x']
            P = place(L, c, ex)
            symm = c in L.prim and L.prim[c][0].get('type') == sym
            vals = r.uniform(-3, 3, P.shape)
            if kind == 'DM' and not symm and vals.size and r.rand() < .15:
                vals.flat[r.randint(vals.size)] = r.choice([np.nan, np.inf, -np.inf, 0.])
            if symm:
                vals = (vals + vals.T) / 2
            hole = any(p is None for p in P.ravel())
            twice = len({p for p in P.ravel() if p is not None}) < sum(p is not None for p in P.ravel()) and not symm
            v = op['v']
            if v == 'bad':
                bad = cs.DM.ones(P.shape[0] + 2, P.shape[1] + 1)
                if bad.numel() in (1, P.size):
                    continue
                if not raises(s.__setitem__, c + real_extra(ex), bad):
                    return 'payload of shape %r accepted at %r of shape %r' % (bad.shape, c + tuple(ex), P.shape)
            elif twice:
                continue
            else:
                if v == 'scalar' and not (symm and hole):
                    w = float(vals.ravel()[0]) if vals.size else 1.5
                    vals = np.full(P.shape, w)
                    pay = w if r.rand() < .5 else cs.DM(w)
                else:
                    pay = cs.DM(vals.reshape(P.shape)) if P.size else cs.DM(*P.shape)
                    if hole:
                        k = [(i, j) for j in range(P.shape[1]) for i in range(P.shape[0]) if P[i, j] is not None]
                        pay = cs.DM(cs.Sparsity.triplet(P.shape[0], P.shape[1], [a for a, _ in k], [b for _, b in k]), [float(vals[a]) for a in k])
                    elif v == 'list' and P.shape[1] == 1 and P.shape[0]:
                        pay = [float(t) for t in vals.ravel()]
                if kind != 'DM' and r.rand() < .5 and not isinstance(pay, list):
                    pay = getattr(cs, kind)(pay)
                try:
                    s[c + real_extra(ex)] = pay
                except Exception as err:
                    return 'writing %r raises %s' % (op, str(err.__cause__ or err)[:300])
                for p, w in zip(P.ravel(), vals.ravel()):
                    if p is not None:
                        cur[p] = w
        flat = now(s.cat)
        if flat.shape != (L.size, 1) or not np.allclose(numbers(flat).ravel(), cur, rtol=1e-12, atol=0, equal_nan=True):
            return '%s: the flat vector is %s instead of %s' % (what, flat, cur)
        todo = list(L.prim) + list(L.sub)
        if len(todo) > 8:
            todo = [todo[k] for k in r.permutation(len(todo))[:8]]
        for c in todo:
            e = read_error(s, L, cur, now, c, [], what)
            if e:
                return e
        for o in x['ops']:
            e = read_error(s, L, cur, now, tuple(o['c']), o['x'], what)
            if e:
                return e
        for c in todo[:3]:
            # a part is converted as what is read there
            if any(c[:m] in L.sub for m in range(1, len(c))) or c in L.prim:
                # (casadi itself borrows the result of the method, so that DM(part) must not be used)
                part, whole = getattr(s.prefix[c], '__%s__' % kind)(), getattr(cs, kind)(s[c])
                if part.shape != whole.shape or not np.allclose(numbers(now(part)), numbers(now(whole)), rtol=1e-12, atol=0, equal_nan=True):
                    return '%s: the part %r is converted to %s instead of %s' % (what, c, part, whole)
        if not np.allclose(numbers(now(s.cat)).ravel(), cur, rtol=1e-12, atol=0, equal_nan=True):
            return '%s: reading changed the flat vector' % what
    return None
