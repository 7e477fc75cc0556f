"""Native oracle of C22: matrix views through structures against plain matrices."""
from .structs import *
from .c19 import numbers

BOUND = 'random dense structures of up to 40 elements, up to 3 (sometimes 12) repetitions, up to 4 writes of blocks; numeric, SX and MX matrices'


def small(rng, depth=1):
    while True:
        d = rand_struct(rng, rng.choice([0, depth]), symm=False, sparse=False, zero=False)
        if size_of(d) <= 14:
            return d


def rand_selector(rng, d):
    """rows selected by a structure: JSON form"""
    c = rng.random()
    es = flat_entries(d)
    e = rng.choice(es)
    n = size_of(d)
    if c < .4:
        return {'name': e['name']}
    if c < .55:
        return {'names': rng.sample([x['name'] for x in es], rng.randint(1, len(es)))}
    if c < .8:
        ix = [e['name']] + [rng.randint(-k, k - 1) for k in (e.get('dims') or [])]
        if e.get('struct') is None and shape_of(e)[1] == 1 and rng.random() < .4:
            return {'index': ix}        # casadi takes index matrices only if they are columns
        if e.get('struct') is not None and rng.random() < .6:
            f = rng.choice(flat_entries(e['struct']))
            ix += [f['name']] + [rng.randint(-k, k - 1) for k in (f.get('dims') or [])]
        return {'indexf': ix}
    return {'plain': rand_axis(rng, n)}


def positions(d, sel):
    L = Layout(d)

    def under(pre):
        return sorted(p for c, (_, pos) in L.prim.items() if c[:len(pre)] == pre for p in pos)
    (k, v), = sel.items()
    if k == 'name':
        return under((v,))
    if k == 'names':
        return [p for n in v for p in under((n,))]
    if k in ('index', 'indexf'):
        pre, dims = (), []
        cur = d
        for a in v:
            if isinstance(a, str):
                e = next(x for x in flat_entries(cur) if x['name'] == a)
                dims = list(e.get('dims') or [])
                cur = e.get('struct')
                pre += (a,)
            else:
                n = dims.pop(0)
                pre += (a % n,)
        return under(pre)
    n = L.size
    x = real_extra([v])[0]
    return list(range(n)[x]) if isinstance(x, slice) else [i % n for i in (x if isinstance(x, list) else [x])]


def real_selector(sel):
    (k, v), = sel.items()
    if k == 'name':
        return v
    if k == 'names':
        return list(v)
    if k == 'index':
        return S.index[tuple(v)]
    if k == 'indexf':
        return S.indexf[tuple(v)]
    return real_extra([v])[0]


def instances(rng, tier):
    while True:
        view = rng.choice(['repeated', 'squared', 'product', 'squared_repeated', 'parse', 'entry'])
        d = small(rng)
        d2 = d if view in ('squared', 'squared_repeated') else small(rng)
        N = rng.choice([1, 2, 3, 1, 2, 3, 12])
        ops = []
        if view == 'repeated':
            L = Layout(d)
            for _ in range(4):
                c = rng.choice(list(L.prim) + list(L.sub))
                sh = shape_of(L.prim[c][0]) if c in L.prim else None
                ops.append(dict(k=rng.randint(-N, N - 1), c=list(c), x=rand_extra(rng, sh) if sh else []))
        elif view != 'parse':
            for _ in range(4):
                ops.append(dict(k=rng.randint(-N, N - 1), a=rand_selector(rng, d), b=rand_selector(rng, d2)))
        yield dict(view=view, d=d, d2=d2, N=N, ops=ops, kind=rng.choice(['DM', 'DM', 'SX', 'MX']), seed=rng.randint(0, 10 ** 6))


def parse(x, r):
    d = x['d']
    s = real(d)
    n = size_of(d)
    L = Layout(d)
    if any(e.get('dims') for e in flat_entries(d)):
        return None
    M = r.uniform(1, 2, (n, x['N']))
    s.parseMatrix(M + 1e-6)        # has no influence on what follows
    got = s.parseMatrix(M if r.rand() < .5 else cs.DM(M).full())
    if list(got) != keys_of(d):
        return 'keys are %r' % list(got)
    for k in got:
        P = np.array(L.sub[(k,)], object).reshape(-1, 1) if (k,) in L.sub else L.matrix((k,))
        want = np.hstack([np.array([[M[p, j] for p in row] for row in P]).reshape(P.shape) for j in range(x['N'])])
        g = numbers(got[k])
        if g.shape != want.shape or not np.array_equal(g, want):
            return '%r is %s instead of %s' % (k, g, want)
    for bad in (np.ones((n + 1, 0)), np.ones((n + 1, 2)), np.ones((n + 2, n)), np.ones(n) if n > 1 else np.ones((2, 1)), np.ones((1, n)) if n > 1 else np.ones((3, 2))):
        if not raises(s.parseMatrix, bad):
            return 'parseMatrix accepts shape %r for a structure of size %d' % (bad.shape, n)
    return None


def check(x):
    view, d, d2, N, kind = x['view'], x['d'], x['d2'], x['N'], x['kind']
    r = np.random.RandomState(x['seed'])
    if view == 'parse':
        return parse(x, r)
    s, s2 = real(d), real(d2)
    n, m = size_of(d), size_of(d2)
    shape = dict(repeated=(n, N), squared=(n, n), product=(n, m), squared_repeated=(n, n * N), entry=(n, m))[view]
    M = r.uniform(1, 2, shape)
    X = getattr(cs, kind)
    if kind == 'DM':
        src = cs.DM(M)
        now = lambda e: cs.DM(e)
    else:
        sym = X.sym('m', *shape)
        src = X(sym)
        now = lambda e: cs.Function('e', [sym], [e])(M0)
    M0 = M.copy()
    if view == 'entry':
        # an entry whose shape is given by two structures, in a structured vector with something else
        st = S.struct([S.entry('pre', shape=2), S.entry('P', shapestruct=(s, s2), repeat=2)])
        flat = cs.vertcat(X([1, 2]), cs.vec(src), X(cs.DM.zeros(n * m)))
        vec = st(flat)
        p = vec.prefix['P', 0]
        under = lambda: cs.reshape(vec.cat[2:2 + n * m], n, m)
        rest = lambda: cs.vertcat(vec.cat[:2], vec.cat[2 + n * m:])
    else:
        f = s.product if view == 'product' else getattr(s, view)
        p = s.product(s2, src) if view == 'product' else f(src)
        under = lambda: p.cast()
        rest = None
        # unsuitable sizes
        for bad in ((n + 1, shape[1]), (n, shape[1] + 1), (shape[1] + 2, n + 2)):
            if view in ('repeated', ) and bad[0] == n or bad == (1, 1) or (view == 'squared_repeated' and bad[0] == n and bad[1] % n == 0):
                continue
            z = cs.DM.ones(*bad)
            if not raises((lambda a: s.product(s2, a)) if view == 'product' else f, z):
                return '%s accepts shape %r for structures of sizes %d, %d' % (view, bad, n, m)
        if kind == 'DM' and n > 1 and view in ('squared', 'product'):
            q = numbers((s.product(s2, 3.) if view == 'product' else f(3.)).cast())
            if not np.array_equal(q, np.full(shape, 3.)):
                return 'scalar view is %s' % q
    for t, op in enumerate([None] + x['ops']):
        what = 'initially' if op is None else 'after writing %r' % (op,)
        if op is not None:
            rows, cols, ix, sh = target(view, d, d2, N, op, n)
            if len(set(zip(rows, cols))) < len(rows):
                continue
            vals = r.uniform(-3, -1, sh)
            pay = cs.DM(vals) if vals.size else cs.DM(*sh)
            if r.rand() < .3:
                w = float(r.uniform(-3, -1))
                vals[:] = w
                pay = w
            elif kind != 'DM' and r.rand() < .5:
                pay = X(pay)
            try:
                p[ix] = pay
            except Exception as e:
                while e.__cause__ is not None:
                    e = e.__cause__
                return 'writing %r raises %s' % (op, str(e)[:300])
            for k, (i, j) in enumerate(zip(rows, cols)):
                M[i, j] = vals[k % sh[0], k // sh[0]]
        u = numbers(now(under()))
        if u.shape != M.shape or not np.allclose(u, M, rtol=1e-12, atol=0):
            return '%s: the matrix is %s instead of %s' % (what, u, M)
        if rest is not None:
            z = numbers(now(rest())).ravel()
            if not np.array_equal(z, np.concatenate([[1., 2.], np.zeros(n * m)])):
                return '%s: other elements changed' % what
        if kind == 'DM' and view != 'entry' and (src.shape != shape or not np.allclose(numbers(src), M, rtol=1e-12, atol=0)):
            return '%s: the viewed matrix is not the one given' % what
        for o in x['ops']:
            rows, cols, ix, sh = target(view, d, d2, N, o, n)
            try:
                got = numbers(now(X(p[ix])))
            except Exception as e:
                while e.__cause__ is not None:
                    e = e.__cause__
                return '%s: reading %r raises %s' % (what, o, str(e)[:300])
            want = np.zeros(sh)
            for k, (i, j) in enumerate(zip(rows, cols)):
                want[k % sh[0], k // sh[0]] = M[i, j]
            if got.shape != tuple(sh) or not np.allclose(got, want, rtol=1e-12, atol=0):
                return '%s: %r reads %s instead of %s' % (what, o, got, want)
    return None


def target(view, d, d2, N, op, n):
    """rows and columns of the matrix (column-major over the selection), index of the view, shape"""
    if view == 'repeated':
        L = Layout(d)
        c = tuple(op['c'])
        P = np.array(L.sub[c], object).reshape(-1, 1) if c in L.sub else L.matrix(c)
        P = select(P, op['x'])
        rows = [p for p in P.T.ravel()]
        return rows, [op['k'] % N] * len(rows), (op['k'],) + c + real_extra(op['x']), P.shape
    a, b = positions(d, op['a']), positions(d2, op['b'])
    rows = [i for _ in b for i in a]
    off = n * (op['k'] % N) if view == 'squared_repeated' else 0
    cols = [off + j for j in b for _ in a]
    ix = (real_selector(op['a']), real_selector(op['b']))
    if view == 'squared_repeated':
        ix = (op['k'],) + ix
    return rows, cols, ix, (len(a), len(b))
