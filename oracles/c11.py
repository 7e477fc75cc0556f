"""Native oracle of C11: the integrator's outputs satisfy the scheme equations."""
from .scheme import *

BOUND = 'random well-conditioned nonlinear models, N <= 5 intervals, order <= 4, up to 3 states and 2 algebraic states'


def rand_problem(rng):
    d = rand_scheme(rng)
    d['soft'] = True
    d['N'], d['M'] = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4])
    t = [rng.choice([0., 0., 1., -1.])]
    eq = rng.random() < .2
    for _ in range(d['N']):
        t.append(t[-1] + (.25 if eq else rng.choice([.5, .25, .125, .0625])))
    d['T'] = t
    tdp = rng.random() < .3
    d['kw'] = {}
    d['ntdp'] = 0
    if rng.random() < .5:
        d['kw']['method'] = rng.choice(['radau', 'legendre'])
    if tdp:
        d['kw']['tdp'] = True
        d['ntdp'] = rng.choice([1, 2])
    g = lambda r, c: [[rng.randint(-8, 8) / 8 for _ in range(c)] for _ in range(r)]
    d['u'], d['P'], d['x0'], d['z0'] = g(d['nu'], d['N']), g(d['np'], 1), g(d['nx'], 1), g(d['nz'], 1)
    d['integrate'] = rng.random() < .4
    return d


def instances(rng, tier):
    while True:
        yield rand_problem(rng)


def dm(a, r, c):
    return cs.DM(np.array(a, dtype=float).reshape(r, c)) if r * c else cs.DM(r, c)


def run(d):
    m = build_model(d)
    kw = dict(d['kw'])
    if kw.pop('tdp', False):
        kw['tdp_fun'] = lambda t: cs.DM([tdp_at(d, i, float(t)) for i in range(d['ntdp'])])
    f = C.collocationIntegrator('f', m, list(d['T']) if d.get('taslist') else np.array(d['T']), d['M'], **kw)
    a = dict(x0=dm(d['x0'], d['nx'], 1), z0=dm(d['z0'], d['nz'], 1), u=dm(d['u'], d['nu'], d['N']), p=dm(d['P'], d['np'], 1))
    r = f.integrate(**a) if d.get('integrate') else f(**a)
    return f, r


def solved(d, r):
    """instance whose states and derivatives are the integrator's"""
    return dict(d, x=np.array(r['x']).tolist(), K=np.array(r['K']).tolist(), Z=np.array(r['Z']).reshape(d['nz'], d['N'] * d['M']).tolist())


def small(name, cols):
    a = np.array(cols, dtype=float)
    if a.size and not (np.abs(a) <= 1e-6).all():
        return '%s not satisfied: residual %r' % (name, float(np.abs(a).max()))
    return None


def check(d):
    f, r = run(d)
    N, M = d['N'], d['M']
    for k, sh in (('x', (d['nx'], N + 1)), ('K', (d['nx'], N * M)), ('Z', (d['nz'], N * M))):
        if tuple(r[k].shape) != sh:
            return '%s has shape %s' % (k, r[k].shape)
    s = solved(d, r)
    ref = Ref(s)
    cols = lambda a: [list(c) for c in np.array(a).T]
    x = np.array(r['x'])

    def traj():
        if 'x_traj' not in r:
            return 'no trajectory'
        return first(cmp('x_traj', r['x_traj'](np.array(d['T'][:-1])), cols(x[:, :-1]), d['nx']),
                     cmp('x_traj', r['x_traj'](np.array([min(t, d['T'][n // M + 1]) for n, t in enumerate(ref.tc)]), 'left'), ref.X, d['nx']))
    return first(
        lambda: small('collocation equations', ref.res),
        lambda: small('continuity equations', ref.xf),
        lambda: small('start state', [x[i, 0] - d['x0'][i][0] for i in range(d['nx'])]),
        lambda: cmp('xf', r['xf'], cols(x[:, 1:]), d['nx']),
        lambda: cmp('X', r['X'], ref.X, d['nx']),
        lambda: cmp('Q', r['Q'], ref.Qs, d['nq']),
        lambda: cmp('qf', r['qf'], [ref.q[-1]], d['nq']),
        lambda: cmp('tc', np.array(r['tc']).reshape(1, -1), [[t] for t in ref.tc], 1),
        lambda: traj() if d.get('integrate') else None)
