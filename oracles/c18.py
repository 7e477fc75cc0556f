"""Native oracle of C18: index matrices, lookups and labels against an independent layout."""
from .structs import *

BOUND = 'random structures with up to 4 entries per level, 3 levels, up to 3 repetition dimensions of length 0..3, dense, sparse and symmetric matrices up to 4 x 4, tuple groups and explicit orders; up to 150 elements, some with 101..115 repetitions'


def instances(rng, tier):
    while True:
        if rng.random() < .01:
            # positions and repetitions of three digits
            yield dict(d=dict(items=[dict(name='a', shape=2), dict(name='b', dims=[rng.randint(101, 115)]), dict(name='c', shape=rng.randint(101, 115))], order=None))
            continue
        yield dict(d=rand_struct(rng, rng.choice([0, 1, 2, 2])))


def check(x):
    d = x['d']
    s = real(d)
    L = Layout(d)
    if s.size != L.size:
        return 'size is %r instead of %d' % (s.size, L.size)
    if list(s.keys()) != keys_of(d):
        return 'keys are %r' % (s.keys(),)
    for c, (e, pos) in L.prim.items():
        m = s.i[c]
        nz, v = dm_positions(m)
        if m.shape != shape_of(e) or nz != stored_nz(e) or v != pos:
            return 'index matrix of %r is %s with nonzeros %s, expected positions %s' % (c, m, nz, pos)
        if m.is_dense():
            f = s.f[c]
            if f != pos:
                return 'flat indices of %r are %r instead of %r' % (c, f, pos)
    for c, pos in L.sub.items():
        m = s.i[c]
        if m.shape != (len(pos), 1) or [int(v) for v in m.nonzeros()] != pos:
            return 'index of the sub-structure %r is %s instead of %r' % (c, m, pos)
        if s.f[c] != pos:
            return 'flat indices of the sub-structure %r are %r instead of %r' % (c, s.f[c], pos)
    for mode in (0, 1, 2):
        want = [c + ((), (n,), p)[mode] for c, n, p in L.flat]
        got = s.canonicalIndices(mode)
        if [tuple(g) for g in got] != want:
            return 'canonical indices (mode %d) are %r instead of %r' % (mode, got, want)
        text = ['[' + ','.join(map(str, w)) + ']' for w in want]
        if s.labels(mode) != text or [s.getLabel(k, mode) for k in range(s.size)] != text:
            return 'labels (mode %d) are %r instead of %r' % (mode, s.labels(mode), text)
        if [s.getCanonicalIndex(k, mode) for k in range(s.size)] != want:
            return 'canonical index (mode %d) differs' % mode
    if s.labels() != s.labels(1) or s.canonicalIndices() != s.canonicalIndices(1):
        return 'default mode is not 1'
    for k, w in enumerate(s.canonicalIndices(2)):
        m = s.i[w]
        if m.shape != (1, 1) or m.nnz() != 1 or int(m) != k:
            return 'the index of %r is %s instead of %d' % (w, m, k)
    # neither structured vectors nor other structures made of it change its layout
    s(cs.MX.sym('v', L.size))
    S.struct_symMX(s)
    w = S.struct([S.entry('w', struct=s, repeat=2), S.entry('y')])
    want = [('w', n) + c + (k,) for n in (0, 1) for c, k, _ in L.flat] + [('y', 0)]
    if w.canonicalIndices() != want:
        return 'as part of another structure the canonical indices are %r instead of %r' % (w.canonicalIndices(), want)
    for k in (-1, L.size, L.size + 3):
        if not raises(s.getCanonicalIndex, k):
            return 'canonical index of position %d' % k
    return None
