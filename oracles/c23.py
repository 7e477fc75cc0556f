"""Native oracle of C23: symmetric entries."""
from .structs import *
from .c19 import numbers

BOUND = 'random structures with one or two symmetric entries up to 5 x 5, dense and sparse, alone, repeated and nested; up to 5 writes; numeric, SX and MX vectors'


def symm_entry(rng, name):
    n = rng.randint(1, 5)
    e = dict(name=name, type='symm', shape=[n, n])
    if rng.random() < .25:
        nz = [[i, j] for i in range(n) for j in range(i, n) if rng.random() < .7]
        e['shape'] = {'sp': [n, n, nz + [[j, i] for i, j in nz if i != j]]}
    if rng.random() < .4:
        e['dims'] = [rng.randint(1, 2) for _ in range(rng.randint(1, 2))]
    return e


def instances(rng, tier):
    while True:
        items = [symm_entry(rng, 'P'), dict(name='x', shape=rng.randint(1, 3))]
        if rng.random() < .4:
            items.append(symm_entry(rng, 'Q'))
        if rng.random() < .3:
            items.append(dict(name='s', dims=[2], struct=dict(items=[dict(name='b'), symm_entry(rng, 'P')], order=None)))
        rng.shuffle(items)
        if rng.random() < .2:
            items = [items[:2]] + items[2:]
        d = dict(items=items, order=None)
        L = Layout(d)
        cand = [c for c in L.prim if L.prim[c][0].get('type') == 'symm']
        ops = []
        for _ in range(rng.randint(1, 5)):
            c = rng.choice(cand)
            n = shape_of(L.prim[c][0])[0]
            k = rng.random()
            if k < .3:
                x = []
            elif k < .55:
                x = [rng.randint(-n, n - 1), rng.randint(-n, n - 1)]
            elif k < .7:
                x = [rng.randint(-n * n, n * n - 1)]
            else:
                x = [rand_axis(rng, n), rand_axis(rng, n)]
            ops.append(dict(c=list(c), x=x, v=rng.choice(['full', 'scalar', 'scalar', 'bad']), wild=rng.random() < .5))
        yield dict(d=d, ops=ops, kind=rng.choice(['DM', 'DM', 'SX', 'MX']), seed=rng.randint(0, 10 ** 6))


def root(e):
    while e.__cause__ is not None:
        e = e.__cause__
    return str(e)[:300]


def check(x):
    d, kind = x['d'], x['kind']
    L = Layout(d)
    st = real(d)
    r = np.random.RandomState(x['seed'])
    if st.size != L.size:
        return 'size %d instead of %d' % (st.size, L.size)
    v0 = r.uniform(1, 2, L.size)
    if L.size and r.rand() < .2:
        # bounds of symmetric variables are often infinite
        v0[r.randint(L.size)] = r.choice([np.inf, -np.inf])
    if kind == 'DM':
        s, now = st(cs.DM(v0)), cs.DM
    else:
        sym = getattr(cs, kind).sym('v', L.size)
        s, now = st(getattr(cs, kind)(sym)), lambda e: cs.Function('e', [sym], [e])(v0)
    cur = v0.copy()

    def want(c, ex):
        P = select(L.matrix(c), ex)
        return np.array([[0. if p is None else cur[p] for p in row] for row in P], float).reshape(P.shape)

    def reads(what):
        flat = numbers(now(s.cat)).ravel()
        if not np.allclose(flat, cur, rtol=1e-12, atol=0, equal_nan=True):
            return '%s: the flat vector is %s instead of %s' % (what, flat, cur)
        for c, (e, _) in L.prim.items():
            if e.get('type') != 'symm':
                if not np.allclose(numbers(now(s[c])), want(c, []), rtol=1e-12, atol=0, equal_nan=True):
                    return '%s: %r changed' % (what, c)
                continue
            n = shape_of(e)[0]
            extras = [[]] + [list(o['x']) for o in x['ops'] if tuple(o['c']) == c]
            extras += [[int(r.randint(n)), int(r.randint(n))], [int(r.randint(n * n))], [{'s': [None, None, None]}, int(r.randint(n))], [int(r.randint(n)), {'s': [None, None, None]}], [{'l': [int(r.randint(n))]}, {'s': [None, None, None]}]]
            for ex in extras:
                w = want(c, ex)
                try:
                    g = numbers(now(s[c + real_extra(ex)]))
                except Exception as e2:
                    return '%s: reading %r raises %s' % (what, c + tuple(ex), root(e2))
                if g.shape != w.shape or not np.allclose(g, w, rtol=1e-12, atol=0, equal_nan=True):
                    return '%s: %r reads %s instead of %s' % (what, c + tuple(ex), g, w)
        return None
    e = reads('initially')
    if e:
        return e
    given = []
    for op in x['ops']:
        c, ex = tuple(op['c']), op['x']
        P = select(L.matrix(c), ex)
        n = shape_of(L.prim[c][0])[0]
        ix = c + real_extra(ex)
        if op['v'] == 'bad':
            z = cs.DM.ones(P.shape[0] + 2, P.shape[1] + 2)
            if not raises(s.__setitem__, ix, z):
                return 'payload of shape %r accepted at %r' % (z.shape, op)
            continue
        if op['v'] == 'scalar' or P.size == 1 or len(ex) == 1:
            w = float(r.uniform(3, 4)) if r.rand() < .9 else float(r.choice([np.inf, -np.inf, np.nan]))
            pay = w if r.rand() < .5 else cs.DM(w)
            new = [(p, w) for p in P.ravel() if p is not None]
        else:
            # a consistent block: mirrored elements that are both addressed get the same value
            val = {p: float(r.uniform(3, 4)) for p in P.ravel() if p is not None}
            if len(set(select(np.arange(n * n).reshape(n, n).astype(object), ex).ravel())) < P.size:
                continue
            nz = [(i, j) for j in range(P.shape[1]) for i in range(P.shape[0]) if P[i, j] is not None]
            pay = cs.DM(cs.Sparsity.triplet(P.shape[0], P.shape[1], [i for i, _ in nz], [j for _, j in nz]), [val[P[a]] for a in nz])
            new = list(val.items())
            if kind != 'DM' and op['wild']:
                pay = getattr(cs, kind)(pay)
        try:
            s[ix] = pay
        except Exception as e2:
            return 'writing %r at %r raises %s' % (pay, op, root(e2))
        for p, w in new:
            cur[p] = w
        e = reads('after writing %r at %r' % (pay, op))
        if e:
            return e
        given.append((ix, pay, new))
    for ix, pay, new in given:
        # the same payloads once more
        s[ix] = pay
        for p, w in new:
            cur[p] = w
        e = reads('after writing %r again at %r' % (pay, ix))
        if e:
            return e
    # declarations
    for sh in ((2, 3), (3, 1), 2, cs.Sparsity.dense(1, 2)):
        if not raises(lambda: S.entry('P', shape=sh, type='symm')):
            return 'non-square symmetric entry of shape %r accepted' % (sh,)
    return None
