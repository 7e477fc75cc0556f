"""Native oracle of C25: structures and numeric structured vectors after pickling, saving and loading."""
import os
import pickle
import shutil
import tempfile
from .structs import *
from .c19 import numbers

BOUND = 'random structures of up to 150 elements; pickle protocols 0-5, save() and struct_load(), twice in a row'


def instances(rng, tier):
    while True:
        yield dict(d=rand_struct(rng, rng.choice([0, 1, 2])), what=rng.choice(['struct', 'inner', 'vector', 'vector', 'symSX']), how=rng.choice(['pickle', 'pickle', 'save', 'twice']),
                   protocol=rng.randint(0, 5), seed=rng.randint(0, 10 ** 6))


def through(o, how, protocol):
    if how == 'save' and hasattr(o, 'save'):
        d = tempfile.mkdtemp()
        try:
            f = os.path.join(d, 'saved')
            o.save(f)
            return S.struct_load(f)
        finally:
            shutil.rmtree(d)
    r = pickle.loads(pickle.dumps(o, max(protocol, 2)))
    return pickle.loads(pickle.dumps(r, max(protocol, 2))) if how == 'twice' else r


def same_layout(s, d):
    L = Layout(d)
    if s.size != L.size:
        return 'size is %r instead of %d' % (s.size, L.size)
    if list(s.keys()) != keys_of(d):
        return 'keys are %r' % (s.keys(),)
    for c, (e, pos) in L.prim.items():
        m = s.i[c]
        nz, v = dm_positions(m)
        if m.shape != shape_of(e) or nz != stored_nz(e) or v != pos:
            return 'index matrix of %r is %s' % (c, m)
    for c, pos in L.sub.items():
        if [int(v) for v in s.i[c].nonzeros()] != pos:
            return 'index of %r is %s' % (c, s.i[c])
    want = ['[' + ','.join(map(str, c + (n,))) + ']' for c, n, p in L.flat]
    if s.labels() != want:
        return 'labels are %r instead of %r' % (s.labels(), want)
    return None


def check(x):
    d = x['d']
    L = Layout(d)
    r = np.random.RandomState(x['seed'])
    if x['what'] == 'symSX':
        s = real(d, S.struct_symSX)
        return same_layout(through(s, x['how'], x['protocol']), d)
    s = real(d)
    if x['what'] in ('struct', 'inner'):
        o = s if x['what'] == 'struct' else s.struct
        t = through(o, x['how'], x['protocol'])
        if type(t) is not type(o):
            return 'loaded object is a %s' % type(t).__name__
        e = same_layout(t, d) or same_layout(o, d)
        if e:
            return e
        if x['what'] == 'struct' and t.order != o.order:
            return 'order is %r instead of %r' % (t.order, o.order)
        v = t(cs.DM(range(L.size)) if L.size != 1 else 0)
        w = s(cs.DM(range(L.size)) if L.size != 1 else 0)
    else:
        w = s(cs.DM(r.uniform(1, 2, L.size)))
        for k in range(L.size):
            if r.rand() < .1:
                w.cat[k] = [float('inf'), float('nan'), 0., -1e300][r.randint(4)]
        before = numbers(w.cat)
        v = through(w, x['how'], x['protocol'])
        if type(v) is not type(w):
            return 'loaded object is a %s' % type(v).__name__
        if not np.array_equal(numbers(w.cat), before, equal_nan=True):
            return 'saving changed the vector'
        e = same_layout(v, d)
        if e:
            return e
    if v.cat.shape != w.cat.shape or not np.array_equal(numbers(v.cat), numbers(w.cat), equal_nan=True):
        return 'data is %s instead of %s' % (v.cat, w.cat)
    for c in list(L.prim) + list(L.sub):
        a, b = v[c], w[c]
        if a.sparsity() != b.sparsity() or not np.array_equal(numbers(a), numbers(b), equal_nan=True):
            return '%r is %s instead of %s' % (c, a, b)
    # views of a part
    for c in list(L.prim)[:6]:
        for m in range(1, len(c)):
            p = through(w.prefix[c[:m]], 'pickle', x['protocol'])
            if not np.array_equal(numbers(p[c[m:]]), numbers(w[c]), equal_nan=True):
                return 'loaded view %r reads %s for %r instead of %s' % (c[:m], p[c[m:]], c[m:], w[c])
    # the loaded vector is independent and as usable as the original
    for c, (e, pos) in list(L.prim.items())[:6]:
        P = L.matrix(c)
        z = r.uniform(3, 4, P.shape)
        z = (z + z.T) / 2 if e.get('type') == 'symm' else z
        nz = [(i, j) for j in range(P.shape[1]) for i in range(P.shape[0]) if P[i, j] is not None]
        keep = numbers(w.cat).copy()
        v[c] = cs.DM(cs.Sparsity.triplet(P.shape[0], P.shape[1], [i for i, _ in nz], [j for _, j in nz]), [float(z[a]) for a in nz])
        g = numbers(v[c])
        if any(g[a] != float(z[a]) for a in nz):
            return 'writing %r after loading reads %s instead of %s' % (c, g, z)
        if not np.array_equal(numbers(w.cat), keep, equal_nan=True):
            return 'writing to the loaded vector changes the original'
    return None
