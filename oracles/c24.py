"""Native oracle of C24: validation and normalisation of entry declarations."""
from .structs import *

BOUND = 'random keyword combinations with valid and invalid values, lists of up to 5 entries with duplicate names and invalid orders'
KW = ('repeat', 'shape', 'sym', 'expr', 'struct', 'shapestruct', 'type')
FORBIDDEN = {frozenset(p) for p in (('shape', 'struct'), ('struct', 'shapestruct'), ('sym', 'shape'), ('sym', 'repeat'), ('sym', 'expr'), ('expr', 'shape'), ('expr', 'repeat'))}


def rand_value(rng, k):
    """JSON description of a keyword value"""
    bad = rng.random() < .12
    if k == 'repeat':
        if bad:
            return rng.choice([{'bad': 'float'}, {'bad': 'listfloat'}, {'bad': 'str'}, {'bad': 'tuple'}, {'bad': 'none'}])
        return rng.choice([rng.randint(0, 4), [rng.randint(0, 3) for _ in range(rng.randint(0, 3))], {'np': rng.randint(1, 3)}])
    if k == 'shape':
        if bad:
            return rng.choice([{'bad': 'empty'}, {'bad': 'three'}, {'bad': 'float'}, {'bad': 'str'}, {'bad': 'none'}, {'bad': 'emptytuple'}])
        n = rng.randint(0 if rng.random() < .15 else 1, 4)
        return rng.choice([n, [n], [n, rng.randint(1, 3)], [n, n], {'tup': [n, rng.randint(1, 3)]}, {'tup': [n]}, {'sp': [3, 2, [[0, 0], [2, 1]]]}, {'np': n}])
    if k == 'struct':
        return rng.choice([{'st': 'S'}, {'st': 'T'}, {'sym': 'S'}])
    if k == 'shapestruct':
        if bad:
            return rng.choice([{'bad': 'int'}, {'bad': 'list'}, {'bad': 'three'}, {'bad': 'str'}, {'bad': 'emptytuple'}])
        return rng.choice([{'ss': ['S']}, {'ss1': 'S'}, {'ss': ['S', 'T']}, {'ss': ['S', 'S']}, {'ss': ['T', 2]}, {'ss': [3, 'T']}, {'ss': [2, 2]}])
    if k == 'sym':
        if bad:
            return rng.choice([{'bad': 'mx'}, {'bad': 'expr'}, {'bad': 'num'}])
        return rng.choice([{'sx': [rng.randint(1, 3), rng.randint(1, 3)]}, {'sx': [2, 2]}, {'symst': 'S'}])
    if k == 'expr':
        if bad:
            return rng.choice([{'bad': 'num'}, {'bad': 'listnum'}, {'bad': 'str'}])
        return {'nest': [rng.randint(0 if rng.random() < .3 else 1, 3) for _ in range(rng.randint(0, 3))], 'shape': [rng.randint(1, 3), rng.randint(1, 3)] if rng.random() < .7 else [2, 2], 'T': rng.choice(['MX', 'SX', 'DM'])}
    return 'symm' if not bad else rng.choice(['sym', '', 'SYMM', 'diag'])


def instances(rng, tier):
    while True:
        c = rng.random()
        if c < .75:
            ks = [k for k in KW if rng.random() < (.45 if k in ('repeat', 'shape') else .2)]
            kw = {k: rand_value(rng, k) for k in ks}
            if rng.random() < .05:
                kw[rng.choice(['shapes', 'rep', 'dims', 'name', 'Shape'])] = 2
            yield dict(kind='entry', n=1 if rng.random() < .93 else rng.choice([0, 2, 3]), kw=kw)
        else:
            names = [rng.choice(['a', 'b', 'c', 'd', 'e']) for _ in range(rng.randint(0, 5))] if rng.random() < .4 else rng.sample(rng.choice([['a', 'b', 'c', 'd', 'e'], ['a', 'A', 'a ', ' a', 'a_']]), rng.randint(0, 5))
            items, i = [], 0
            while i < len(names):
                k = rng.randint(2, 3) if rng.random() < .15 else 1
                items.append(names[i] if k == 1 else names[i:i + k])
                i += k
            order = None
            if rng.random() < .5:
                order = rng.sample(names, len(names))
                q = rng.random()
                if q < .15:
                    order.append('zz')
                elif q < .3 and order:
                    order[rng.randrange(len(order))] = 'nope'
                elif q < .45 and len(order) > 1:
                    order = [order[:2]] + order[2:]
                elif q < .55 and order:
                    order = [order[:1] + ['nope']] + order[1:]
                elif q < .65 and order:
                    order.append(rng.choice(order))
                elif q < .75 and order:
                    order.pop()
            yield dict(kind='list', items=items, order=order, arg=rng.choice(['list'] * 9 + ['tuple', 'dict', 'str']))


DESC = dict(S=dict(items=[dict(name='p', shape=2), dict(name='q')], order=None), T=dict(items=[dict(name='u', dims=[2])], order=None))


def real_value(k, v):
    """real value, or None if the value is invalid for the keyword"""
    if isinstance(v, dict) and 'bad' in v:
        b = v['bad']
        return {'repeat': {'float': 2.0, 'listfloat': [2, 1.5], 'str': 'x', 'tuple': (2, 3), 'none': None},
                'shape': {'empty': [], 'three': (1, 2, 3), 'float': 2.5, 'str': 'ab', 'none': None, 'emptytuple': ()},
                'shapestruct': {'int': 3, 'list': [real(DESC['S'])], 'three': (1, real(DESC['S']), 2), 'str': ('S',), 'emptytuple': ()},
                'sym': {'mx': cs.MX.sym('m', 2), 'expr': cs.SX.sym('m', 2) + 1, 'num': 3},
                'expr': {'num': 3, 'listnum': [1, 2], 'str': 'x'}}[k][b]
    if isinstance(v, dict):
        if 'np' in v:
            return np.int64(v['np'])
        if 'tup' in v:
            return tuple(v['tup'])
        if 'sp' in v:
            return real_shape(v)
        if 'st' in v:
            return real(DESC[v['st']])
        if 'sym' in v and k == 'struct':
            return real(DESC[v['sym']], S.struct_symSX)
        if 'ss' in v:
            return tuple(x if isinstance(x, int) else real(DESC[x]) for x in v['ss'])
        if 'ss1' in v:
            return real(DESC[v['ss1']])
        if 'sx' in v:
            return cs.SX.sym('s', *v['sx'])
        if 'symst' in v:
            return real(DESC[v['symst']], S.struct_symSX)
        if 'nest' in v:
            def build(dims):
                if not dims:
                    T = getattr(cs, v['T'])
                    return T(cs.DM.ones(*v['shape']))
                return [build(dims[1:]) for _ in range(dims[0])]
            return build(v['nest'])
    return v


def expected(kw):
    """None if the declaration is invalid; else (repeat, shape, nonzeros or None for dense, struct description)"""
    if any(k not in KW for k in kw) or any(frozenset((a, b)) in FORBIDDEN for a in kw for b in kw if a != b):
        return None
    if any(isinstance(v, dict) and 'bad' in v for v in kw.values()):
        return None
    rep, shape, nz, st = [], (1, 1), None, None
    size = {k: size_of(d) for k, d in DESC.items()}
    if 'repeat' in kw:
        v = kw['repeat']
        rep = list(v) if isinstance(v, list) else [v['np'] if isinstance(v, dict) else v]
    if 'struct' in kw:
        st = next(iter(kw['struct'].values()))
    if 'shapestruct' in kw:
        l = kw['shapestruct'].get('ss') or [kw['shapestruct']['ss1']]
        l = [x if isinstance(x, int) else size[x] for x in l]
        shape = (l[0], l[1] if len(l) > 1 else 1)
    if 'shape' in kw:
        v = kw['shape']
        if isinstance(v, dict) and 'sp' in v:
            shape, nz = tuple(v['sp'][:2]), sorted(map(tuple, v['sp'][2]), key=lambda p: (p[1], p[0]))
        else:
            l = [v['np']] if isinstance(v, dict) and 'np' in v else v['tup'] if isinstance(v, dict) else v if isinstance(v, list) else [v]
            shape = (l[0], l[1] if len(l) > 1 else 1)
    if 'sym' in kw:
        v = kw['sym']
        if 'symst' in v:
            st, shape = v['symst'], (size[v['symst']], 1)
        else:
            shape = tuple(v['sx'])
    if 'expr' in kw:
        dims = kw['expr']['nest']
        if 0 in dims:
            rep, shape = [0], (0, 0)
        else:
            rep, shape = list(dims), tuple(kw['expr']['shape'])
    if nz is None:
        nz = [(i, j) for j in range(shape[1]) for i in range(shape[0])]
    if 'type' in kw:
        if kw['type'] != 'symm' or shape[0] != shape[1]:
            return None
        nz = [(i, j) for i, j in nz if i <= j]
    return rep, shape, nz, st


def check_entry(x):
    kw = x['kw']
    want = expected(kw) if x['n'] == 1 else None
    args = {k: real_value(k, v) for k, v in kw.items()}
    if 'type' in args and 'struct' in args and want is not None and want[1] != (1, 1):
        return None
    pos = ['nm', 'extra', 3][:x['n']]
    try:
        e = S.entry(*pos, **args)
    except Exception as err:
        return None if want is None else 'valid declaration %r raises %s' % (kw, str(err)[:200])
    if want is None:
        return 'invalid declaration %r (%d positional) is accepted' % (kw, x['n'])
    rep, shape, nz, st = want
    if e.name != 'nm':
        return 'name is %r' % e.name
    if [int(r) for r in e.repeat] != rep or [int(r) for r in e.dims] != rep:
        return '%r: repetitions are %r instead of %r' % (kw, e.repeat, rep)
    sp = e.sparsity
    if sp.shape != shape or list(zip(sp.row(), sp.get_col())) != nz:
        return '%r: shape is %r %r instead of %r %r' % (kw, sp.shape, list(zip(sp.row(), sp.get_col())), shape, nz)
    if (e.struct is None) != (st is None):
        return '%r: nested structure is %r' % (kw, e.struct)
    if st is not None:
        L = Layout(DESC[st])
        if list(e.struct.keys()) != keys_of(DESC[st]) or e.struct.size != L.size:
            return '%r: nested structure is %r' % (kw, e.struct)
    if e.isPrimitive() != (st is None):
        return 'isPrimitive is %r' % e.isPrimitive()
    if S.entry(e) is not e:
        return 'an entry is not kept as it is'
    if 'expr' in kw and e.expr is not args['expr'] or ('expr' not in kw and e.expr is not None):
        return 'expression is %r' % e.expr
    if e.type != kw.get('type'):
        return 'type is %r' % e.type
    # the structure made of the entry has the size the declaration says
    if st is None:
        s = S.struct([e])
        n = len(nz) * int(np.prod(rep)) if rep else len(nz)
        if s.size != n:
            return '%r: the structure has size %d instead of %d' % (kw, s.size, n)
    return None


def check_list(x):
    flat = [n for it in x['items'] for n in (it if isinstance(it, list) else [it])]
    items = [tuple(S.entry(n) for n in it) if isinstance(it, list) else S.entry(it, shape=2) for it in x['items']]
    order = x['order']
    group = any(isinstance(it, list) for it in x['items'])
    ok = x['arg'] == 'list' and len(set(flat)) == len(flat)
    if order is not None:
        o = [n for it in order for n in (it if isinstance(it, list) else [it])]
        ok = ok and not group and sorted(o) == sorted(flat)
    arg = dict(list=items, tuple=tuple(items), dict={str(i): e for i, e in enumerate(items)}, str='ab')[x['arg']]
    try:
        s = S.struct(arg, order=None if order is None else [tuple(o) if isinstance(o, list) else o for o in order])
    except Exception as err:
        return None if not ok else 'valid list of entries raises %s' % str(err)[:200]
    if not ok:
        return 'invalid list of entries accepted: %r' % (x,)
    if list(s.keys()) != (flat if order is None else o):
        return 'keys are %r' % (s.keys(),)
    return None


def check(x):
    return check_entry(x) if x['kind'] == 'entry' else check_list(x)
