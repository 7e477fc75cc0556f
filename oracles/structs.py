"""Random structures and an independent reference of their layout, shared by the oracles of C18-C25.

A structure is described by dict(items=[entry or list of entries (a tuple group)], order=None or list), an entry by
dict(name=, dims=[...], shape=None | n | [n] | [r, c] | {'sp': [r, c, [[i, j], ...]]}, struct=description, type='symm', ss=[description or n, ...]).
"""
import itertools
import casadi as cs
import numpy as np
from .common import *
from casadi_extras import structure3 as S


def flat_entries(d):
    return [e for it in d['items'] for e in (it if isinstance(it, list) else [it])]


# ---- reference --------------------------------------------------------------------------------------------------

def shape_of(e):
    if e.get('ss') is not None:
        l = [x if isinstance(x, int) else size_of(x) for x in e['ss']]
        return (l[0], l[1] if len(l) > 1 else 1)
    s = e.get('shape')
    if s is None:
        return (1, 1)
    if isinstance(s, dict):
        return tuple(s['sp'][:2])
    if isinstance(s, int):
        return (s, 1)
    return (s[0], s[1] if len(s) > 1 else 1)


def full_nz(e):
    """declared nonzeros, column-major"""
    s = e.get('shape')
    if isinstance(s, dict):
        return sorted((tuple(x) for x in s['sp'][2]), key=lambda p: (p[1], p[0]))
    r, c = shape_of(e)
    return [(i, j) for j in range(c) for i in range(r)]


def stored_nz(e):
    return [(i, j) for i, j in full_nz(e) if e.get('type') != 'symm' or i <= j]


def entry_canon(e, first=None):
    dims = e.get('dims') or []
    ranges = [range(n) for n in dims]
    if first is not None:
        ranges[0] = [first]
    kids = canon(e['struct']) if e.get('struct') is not None else [((), e)]
    return [((e['name'],) + ix + c, ee) for ix in itertools.product(*ranges) for c, ee in kids]


def canon(d):
    """canonical indices of the primitive elements in layout order with their entries"""
    by = {e['name']: e for e in flat_entries(d)}
    if d.get('order') is not None:
        order = d['order']
    else:
        order = [[e['name'] for e in it] if isinstance(it, list) else it['name'] for it in d['items']]
    out = []
    for o in order:
        if not isinstance(o, (list, tuple)):
            out += entry_canon(by[o])
            continue
        chunks = [[entry_canon(by[n], k) for k in range(by[n]['dims'][0])] if by[n].get('dims') else [entry_canon(by[n])] for n in o]
        for k in range(max(map(len, chunks))):
            for c in chunks:
                if k < len(c):
                    out += c[k]
    return out


def keys_of(d):
    if d.get('order') is None:
        return [e['name'] for e in flat_entries(d)]
    return [n for o in d['order'] for n in (o if isinstance(o, (list, tuple)) else [o])]


def size_of(d):
    return sum(len(stored_nz(e)) for _, e in canon(d))


class Layout:
    def __init__(self, d):
        self.d, self.prim, self.sub, self.flat, k = d, {}, {}, [], 0
        for c, e in canon(d):
            nz = stored_nz(e)
            self.prim[c] = (e, list(range(k, k + len(nz))))
            self.flat += [(c, n, p) for n, p in enumerate(nz)]
            for m in range(1, len(c)):
                if isinstance(c[m], str):
                    self.sub.setdefault(c[:m], []).extend(range(k, k + len(nz)))
            k += len(nz)
        self.size = k

    def matrix(self, c):
        """positions of an entry as a dense object array; None where nothing is stored; symmetric entries mirrored"""
        e, pos = self.prim[c]
        r, k = shape_of(e)
        a = np.full((r, k), None, object)
        for p, (i, j) in zip(pos, stored_nz(e)):
            a[i, j] = p
            if e.get('type') == 'symm':
                a[j, i] = p
        return a


# ---- the real thing ---------------------------------------------------------------------------------------------

def real_shape(s):
    if isinstance(s, dict):
        r, c, nz = s['sp']
        nz = sorted(map(tuple, nz), key=lambda p: (p[1], p[0]))
        return cs.Sparsity.triplet(r, c, [p[0] for p in nz], [p[1] for p in nz])
    return tuple(s) if isinstance(s, list) else s


def real_entry(e, kind=None):
    kw = {}
    if e.get('dims'):
        kw['repeat'] = e['dims'][0] if len(e['dims']) == 1 and e.get('int_repeat') else list(e['dims'])
    if e.get('shape') is not None:
        kw['shape'] = real_shape(e['shape'])
    if e.get('struct') is not None:
        kw['struct'] = real(e['struct'])
    if e.get('ss') is not None:
        l = [x if isinstance(x, int) else real(x) for x in e['ss']]
        kw['shapestruct'] = l[0] if len(l) == 1 and not isinstance(l[0], int) and e.get('bare') else tuple(l)
    if e.get('type'):
        kw['type'] = e['type']
    return S.entry(e['name'], **kw)


def real_items(d):
    return [tuple(real_entry(e) for e in it) if isinstance(it, list) else real_entry(it) for it in d['items']]


def real_order(d):
    return None if d.get('order') is None else [tuple(o) if isinstance(o, (list, tuple)) else o for o in d['order']]


def real(d, cls=None):
    return (cls or S.struct)(real_items(d), order=real_order(d))


# ---- random descriptions ----------------------------------------------------------------------------------------

NAMES = ['a', 'b', 'c', 'x', 'y', 'zz', 'w1', 'T', 'u']
CLASH = ['a', 'a_0', 'a_1', 'a_0_0', 'a_b', 'b', 'b_0']     # the same when joined with indices


def rand_entry(rng, name, depth, symm=True, sparse=True, zero=True, ss=True, few=False, names=None):
    e = dict(name=name)
    lo = 0 if zero and rng.random() < .2 else 1
    if rng.random() < (.2 if few else .5):
        e['dims'] = [rng.randint(lo, 3) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        if rng.random() < .1:
            e['dims'] = rng.choice([[rng.randint(4, 8)], [rng.randint(1, 2), rng.randint(4, 6)], [rng.randint(4, 5), rng.randint(1, 2)]])
        e['int_repeat'] = rng.random() < .5
    if depth and rng.random() < (.7 if few else .35):
        e['struct'] = rand_struct(rng, depth - 1, symm, sparse, False, few=few, names=names)
        return e
    c = rng.random()
    if rng.random() < .06:
        e['shape'] = rng.choice([[1, rng.randint(5, 9)], [rng.randint(5, 9), 1], rng.randint(5, 12)])
    elif c < .2:
        pass
    elif c < .45:
        e['shape'] = rng.choice([rng.randint(lo, 4), [rng.randint(lo, 4)]])
    elif c < .7 or not (symm or sparse):
        e['shape'] = [rng.randint(lo, 4), rng.randint(lo, 3)]
    elif c < .85 and sparse:
        r, k = rng.randint(1, 4), rng.randint(1, 3)
        if rng.random() < .3:
            r = k
        nz = [[i, j] for i in range(r) for j in range(k) if rng.random() < .6]
        e['shape'] = {'sp': [r, k, nz]}
    elif symm:
        n = rng.randint(1, 4)
        e['shape'] = [n, n] if n > 1 or rng.random() < .5 else 1
        e['type'] = 'symm'
        if rng.random() < .2 and sparse:
            nz = [[i, j] for i in range(n) for j in range(i, n) if rng.random() < .7]
            e['shape'] = {'sp': [n, n, nz + [[j, i] for i, j in nz if i != j]]}
    elif ss and depth:
        e['ss'] = [rand_struct(rng, 0, False, False, False), rng.choice([1, 2, 3])]
    return e


def rand_struct(rng, depth=2, symm=True, sparse=True, zero=True, groups=True, n=None, few=False, names=None):
    """few: the same few names on all levels, mostly sub-structures"""
    while True:
        wide = not few and n is None and names is None and rng.random() < .04
        own = rng.sample(NAMES[:2], 2) if few else ['e%d' % k for k in rng.sample(range(14), rng.randint(9, 12))] if wide else rng.sample(names or NAMES, n or rng.randint(1, 4))
        es = [dict(name=nm, shape=rng.choice([None, None, 2])) if wide else rand_entry(rng, nm, depth, symm, sparse, zero, few=few, names=names) for nm in own]
        items, order = [], None
        c = rng.random()
        if groups and c < .35 and len(es) > 1:
            k = rng.randint(2, len(es))
            at = rng.randint(0, len(es) - k)
            items = es[:at] + [es[at:at + k]] + es[at + k:]
        elif c < .55:
            items = es
            order = rng.sample(own, len(own))
            if groups and rng.random() < .4 and len(es) > 1:
                k = rng.randint(2, len(es))
                order = [order[:k]] + order[k:]
        else:
            items = es
        d = dict(items=items, order=order)
        if (zero or canon(d)) and len(canon(d)) < 60 and size_of(d) < 150:
            return d


def mixed_case(n):
    return n.upper() if n.upper() != n else n.lower()


def dm_positions(m):
    """pattern and values of a DM"""
    sp = m.sparsity()
    return [(int(i), int(j)) for j, i in zip(sp.get_col(), sp.row())], [int(x) if float(x) == int(x) else float(x) for x in m.nonzeros()]


def raises(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


# ---- matrix indices ---------------------------------------------------------------------------------------------

def real_extra(x):
    """[] | [a] | [a, b] with a an integer, {'s': [start, stop, step]} or {'l': [...]}"""
    return tuple(slice(*a['s']) if isinstance(a, dict) and 's' in a else list(a['l']) if isinstance(a, dict) else a for a in x)


def rand_axis(rng, n):
    c = rng.random()
    if c < .35 and n:
        return rng.randint(-n, n - 1)
    if c < .6:
        return {'s': rng.choice([[None, None, None], [None, rng.randint(0, n), None], [rng.randint(0, n), None, None], [rng.randint(0, n), n, None], [None, None, 2], [-1, None, None] if n else [None, None, None]])}
    return {'l': rng.sample(range(n), rng.randint(0, n)) if rng.random() < .8 or not n else [rng.randint(-n, n - 1)]}


def rand_extra(rng, shape):
    r, c = shape
    k = rng.choice([0, 0, 1, 2])
    if k == 0:
        return []
    if k == 1:
        return [rand_axis(rng, r * c if rng.random() < .7 else r)] if r * c else []
    return [rand_axis(rng, r), rand_axis(rng, c)]


class Skip(BaseException):
    """casadi itself crashes on this index"""


def select(P, extra):
    """the addressed part of an array of positions (None: not stored), by casadi's own indexing of a plain matrix"""
    m = cs.DM(np.array([[0 if p is None else p + 1 for p in row] for row in P], float).reshape(P.shape)) if P.size else cs.DM(*P.shape)
    if len(extra):
        x = real_extra(extra)
        if not P.size and any(isinstance(a, slice) and (a.step or 1) < 0 for a in x):
            raise Skip
        m = m[x[0]] if len(x) == 1 else m[x]
    m = np.array(cs.densify(cs.DM(m))).reshape(m.shape)
    return np.array([[None if v == 0 else int(v) - 1 for v in row] for row in m], object).reshape(m.shape)
