"""C04: Butcher tableaus."""
from .util import *
from casadi_extras.collocation import butcher as B

s = var('s')
NPTS = 'nodes are a sequence of floats, at least one'


def acoef(tau, n, x, j):
    y = fresh('y', 'R')
    return integral(y, R(0), x, lag(tau, n, j, y))


def tableau_contract(it, A, b, c):
    from pyvc.models_np import asarr
    A, b, c = asarr(it, A), asarr(it, b), asarr(it, c)
    it.oblige('tableau-square', and_(lift(A.ndim == 2 and b.ndim == 1 and c.ndim == 1)))
    it.oblige('tableau-sizes', and_(eq(A.shape[0], A.shape[1]), eq(b.shape[0], A.shape[0]), eq(c.shape[0], A.shape[0])))
    o = Obj(B.ButcherTableau)
    o.attrs.update(_A=A, _b=b, _c=c)
    return o


TABLEAU = {('new', B.ButcherTableau): tableau_contract,
           B.ButcherTableau.A.fget: lambda it, o: o.attrs['_A'],
           B.ButcherTableau.b.fget: lambda it, o: o.attrs['_b'],
           B.ButcherTableau.c.fget: lambda it, o: o.attrs['_c']}


class Collocation(Unit):
    name = 'butcherTableuForCollocationPoints'
    targets = (B.butcherTableuForCollocationPoints,)
    lean = ('integ_exact',)
    assumptions = (DISTINCT, REAL, NPTS)

    def cases(self):
        for label in ('array', 'list'):
            c = Case(label=label, ctx=nodes_ctx(name='tau', size=s), contracts=TABLEAU)

            def run(it, label=label):
                k = fresh('k')
                t = symarr('tau', s) if label == 'array' else Lst([Seg(s, k, [app('tau', k)])])
                o = it.call(B.butcherTableuForCollocationPoints, [t], {})
                return it.getattr(o, 'A'), it.getattr(o, 'b'), it.getattr(o, 'c')
            c.run = run

            def post(it, v, ctx):
                yield from arr_posts('A', v[0], (s, s), lambda i, j: acoef(fn('tau'), s, app('tau', i), j), ctx)
                yield from arr_posts('b', v[1], (s,), lambda j: acoef(fn('tau'), s, R(1), j), ctx)
                yield from arr_posts('c', v[2], (s,), fn('tau'), ctx)
            c.post = guard(post)

            def models(rng, label=label):
                for q in range(5):
                    ta = rand_nodes(rng, q % 4 + 1)
                    yield mkmodel({'s': len(ta)}, {'tau': ta}, inst=dict(kind='colloc', nodes=ta), tau=np.array(ta) if label == 'array' else ta)
            c.models = models

            def native(m):
                t = B.butcherTableuForCollocationPoints(m.native['tau'])
                return t.A, t.b, t.c
            c.native = native
            yield c


class Tableau(Unit):
    name = 'ButcherTableau'
    targets = (B.ButcherTableau.__init__, B.ButcherTableau.A.fget, B.ButcherTableau.b.fget, B.ButcherTableau.c.fget)
    assumptions = ('arguments are numpy arrays of at most three dimensions',)

    def cases(self):
        d = [var('d%d' % i) for i in range(9)]
        for na in range(4):
            for nb in range(4):
                for nc in range(4):
                    if abs(na - 2) + abs(nb - 1) + abs(nc - 1) > 2:
                        continue
                    yield self.case(na, nb, nc, d)

    def case(self, na, nb, nc, d):
        sa, sb, sc = d[0:na], d[3:3 + nb], d[6:6 + nc]
        used = sa + sb + sc
        c = Case(label='dimensions %d %d %d' % (na, nb, nc), ctx=Ctx([le(0, x) for x in used]))

        def run(it):
            o = it.call(B.ButcherTableau, [symarr('A', *sa), symarr('b', *sb), symarr('c', *sc)], {})
            return it.getattr(o, 'A'), it.getattr(o, 'b'), it.getattr(o, 'c')
        c.run = run
        ok = and_(eq(sa[0], sa[1]), eq(sb[0], sa[0]), eq(sc[0], sa[0])) if (na, nb, nc) == (2, 1, 1) else FALSE

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'rejects-only-malformed', not_(ok)
                return
            yield 'accepts-only-well-formed', ok
            if ok is not FALSE:
                for nm, a, sh in (('A', v[0], sa), ('b', v[1], sb), ('c', v[2], sc)):
                    yield from arr_posts(nm, a, sh, fn(nm), ctx)
        c.post = post

        def models(rng):
            for q in range(12):
                k = rng.randint(1, 3)
                sz = {str(x.args[0]): k for x in used}
                if used and rng.random() < .5:
                    sz[rng.choice(sorted(sz))] = rng.randint(1, 4)
                g = lambda l: np.array(np.random.RandomState(q).randint(-5, 6, [sz[x.args[0]] for x in l]), dtype=float)
                A, b_, c_ = g(sa), g(sb), g(sc)
                yield mkmodel(sz, {'A': A, 'b': b_, 'c': c_}, inst=dict(kind='data', A=A.tolist(), b=b_.tolist(), c=c_.tolist()), A=A, b=b_, c=c_)
        c.models = models

        def native(m):
            t = B.ButcherTableau(m.native['A'], m.native['b'], m.native['c'])
            return t.A, t.b, t.c
        c.native = native
        return c


UNITS = [Collocation, Tableau]
