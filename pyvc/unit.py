"""Contract units: extraction, translation validation, proof, refutation."""
import os
import time
import random
import itertools
import traceback
from fractions import Fraction
import numpy as np
from .term import *
from . import term as tm
from . import prove as pv
from .prove import Ctx, prove, STATS
from .values import *
from .interp import Interp, Frame
from . import models_np, models_cs, models_sp

TABLES = [models_sp.TABLE, models_cs.TABLE, models_np.TABLE]
GOAL_TIME = 40.0             # processor time


class Case:
    """one symbolic scenario: ctx, run(it) -> value, post(it, kind, value, ctx) -> (label, goal, ctx)*"""
    label = ''
    contracts = {}

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def models(self, rng):
        return []

    def native(self, model):
        raise NotImplementedError

    def observe(self, v):
        return v


class Unit:
    name = ''
    targets = ()
    assumptions = ()
    lean = ()
    bound = None    # description of the bound, if the cases exhaust the inputs only up to one

    def cases(self):
        raise NotImplementedError


def fname(f):
    f = getattr(f, '__wrapped__', f)
    return '%s.%s' % (getattr(f, '__module__', '?'), getattr(f, '__qualname__', f))


# ------------------------------------------------------------------ evaluation of symbolic values
class _Skip(Exception):
    pass


def evalue(v, m):
    """concrete value (nested lists of numbers) of a symbolic value in a model"""
    if isinstance(v, T):
        return ev(v, m)
    if isinstance(v, Arr):
        sh = [int(ev(s, m)) for s in v.shape]

        def go(d, env):
            if d == len(sh):
                return tm.ev(v.body, m, dict(env))
            return [go(d + 1, {**env, v.vars[d]: Fraction(i)}) for i in range(sh[d])]
        if any(s == 0 for s in sh):
            return np.zeros(sh)
        return go(0, {})
    if isinstance(v, Poly):
        return [ev(v.at(lift(q)), m) for q in (Fraction(-1, 2), Fraction(0), Fraction(1, 3), Fraction(2))]
    if isinstance(v, Cat):
        blocks = [evalue(v.at(i), m) for i in range(int(ev(v.n, m)))]
        if v.ndim == 1:
            return sum(blocks, [])
        return [sum((list(b[r]) for b in blocks), []) for r in range(len(blocks[0]))]
    if isinstance(v, Lst):
        out = []
        for x in v:
            if isinstance(x, Seg):
                for i in range(int(ev(x.n, m))):
                    out.extend(evalue(Lst([x.at(i, j) for j in range(len(x.elems))]), m))
            elif isinstance(x, FSeg):
                for i in range(int(ev(x.n, m))):
                    if ev(subst(x.cond, {x.var: I(i)}), m):
                        out.append(evalue(vsubst(x.elem, {x.var: I(i)}), m))
            else:
                out.append(evalue(x, m))
        return out
    if isinstance(v, Filt):
        return [ev(subst(v.elem, {v.var: I(i)}), m) for i in range(int(ev(v.n, m))) if ev(subst(v.cond, {v.var: I(i)}), m)]
    if isinstance(v, Rec):
        f = m.native.get('recs', {}).get(v.name)
        if f:
            return f(*[evalue(x, m) for x in v.args])
        return ['rec', v.name] + [evalue(x, m) for x in v.args]
    if isinstance(v, SDct):
        return dict(evalue(v.pairs, m))
    if isinstance(v, tuple) and has_seg(v):
        return tuple(evalue(Lst(v), m))
    if isinstance(v, tuple):
        return tuple(evalue(x, m) for x in v)
    if isinstance(v, list):
        return [evalue(x, m) for x in v]
    if isinstance(v, dict):
        return {k: evalue(x, m) for k, x in v.items()}
    if isinstance(v, Obj):
        return {k: evalue(x, m) for k, x in v.attrs.items()}
    return v


def nat(v):
    """nested lists of numbers of a native value"""
    import casadi as cs
    if isinstance(v, np.poly1d):
        return [v(q) for q in (-0.5, 0.0, 1 / 3, 2.0)]
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size else np.zeros(v.shape)
    if isinstance(v, cs.DM):
        a = np.array(v)
        return a.tolist() if a.size else np.zeros(a.shape)
    if isinstance(v, tuple):
        return tuple(nat(x) for x in v)
    if isinstance(v, list):
        return [nat(x) for x in v]
    if isinstance(v, dict):
        return {k: nat(x) for k, x in v.items()}
    if isinstance(v, np.generic):
        return v.item()
    return v


def same(a, b, tol=1e-7, path=''):
    """None if equal up to rounding, else a description"""
    if isinstance(a, np.ndarray):
        a = a.tolist() if a.size else a
    if isinstance(b, np.ndarray):
        b = b.tolist() if b.size else b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.size(a) == 0 and np.size(b) == 0:
            return None
        return '%s: sizes differ' % path
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return '%s: shapes differ: %s vs %s' % (path, str(a)[:80], str(b)[:80])
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, tol, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return '%s: key %s missing' % (path, k)
            r = same(a[k], b[k], tol, '%s.%s' % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return None if a == b else '%s: %r vs %r' % (path, a, b)
    if isinstance(a, (bool, int, float, Fraction, np.number)) and isinstance(b, (bool, int, float, Fraction, np.number)):
        x, y = float(a), float(b)
        if x != x and y != y:
            return None
        if x == y or abs(x - y) <= tol * max(1, abs(x), abs(y)):
            return None
        return '%s: %r vs %r' % (path, x, y)
    if a is b:
        return None
    return '%s: %r vs %r' % (path, a, b)


def holds(ctx, m):
    for f in ctx.facts:
        if any(v.args[0] not in m.vars for v in fv(f)):
            continue          # about a named witness: implied by the corresponding existential fact
        if not ev(f, m):
            return False
    return True


# ------------------------------------------------------------------ refutation
def refute(goal, ctx, models, rng, tries=150):
    """a model (with values for the free variables) in which the facts hold and the goal does not"""
    vs = set(fv(goal))
    for f in ctx.facts:
        vs |= fv(f)
    for m in models:
        extra = sorted([v for v in vs if v.args[0] not in m.vars], key=lambda v: v.id)
        ni = [v for v in extra if v.sort == 'I']
        others = [v for v in extra if v.sort != 'I']
        top = max([int(x) for x in m.vars.values() if isinstance(x, (int, Fraction)) and x == int(x)] + [2])
        top = min(top, 6)
        if len(ni) <= 3 and (top + 1) ** len(ni) <= tries * 2:
            combos = list(itertools.product(range(0, top + 1), repeat=len(ni)))
            rng.shuffle(combos)
        else:
            combos = [tuple(rng.randint(0, top) for _ in ni) for _ in range(tries)]
        for c in combos:
            m2 = tm.Model(m.vars, m.funs)
            for v, x in zip(ni, c):
                m2.vars[v.args[0]] = Fraction(x)
            for v in others:
                if v.sort == 'B':
                    m2.vars[v.args[0]] = rng.random() < .5
                else:
                    m2.vars[v.args[0]] = Fraction(rng.randint(-20, 20), rng.randint(1, 7))
            try:
                ok = True
                for f in ctx.facts:
                    if not ev(f, m2):
                        ok = False
                        break
                if not ok:
                    continue
                g = goal_holds(goal, m2)
            except (Undef, ZeroDivisionError, OverflowError, KeyError, IndexError, TypeError, ValueError):
                continue
            if g is False:
                return m, m2
    return None


def goal_holds(g, m):
    """evaluate a goal; equalities of floats (transcendental functions) with tolerance"""
    if g.op == 'and':
        return all(goal_holds(x, m) is not False for x in g.args)
    if g.op == 'or':
        return any(goal_holds(x, m) for x in g.args)
    if g.op == 'eq0':
        x = ev(g.args[0], m)
        if isinstance(x, float):
            return abs(x) < 1e-7
        return x == 0
    if g.op == 'same':
        a, b = ev(g.args[0], m), ev(g.args[1], m)
        return same(list(a) if isinstance(a, tuple) else a, list(b) if isinstance(b, tuple) else b) is None
    if g.op == 'forall':
        v, lo, hi, body = g.args
        for i in range(int(ev(lo, m)), int(ev(hi, m))):
            if goal_holds(subst(body, {v: I(i)}), m) is False:
                return False
        return True
    return bool(ev(g, m))


# ------------------------------------------------------------------ running a unit
class Result:
    def __init__(self, unit):
        self.unit = unit
        self.obls = []            # dicts
        self.out_of_reach = []
        self.validated = 0
        self.mismatch = []
        self.paths = 0
        self.returns = 0
        self.reached = 0
        self.trusted = set()
        self.used = set()
        self.wall = 0.0


def run_unit(unit, rng, budget=None, verbose=False):
    res = Result(unit)
    t0 = time.time()
    end = time.process_time() + budget if budget else None
    for case in unit.cases():
        try:
            run_case(unit, case, rng, res, end, verbose)
        except OutOfReach as e:
            res.out_of_reach.append((case.label, str(e)))
            if verbose:
                print('  OUT OF REACH', case.label, e)
                if os.environ.get('PYVC_TB'):
                    traceback.print_exc()
        except pv.OutOfTime:
            res.out_of_reach.append((case.label, 'extraction time limit'))
        except Retry as e:
            res.out_of_reach.append((case.label, 'mutation of a shared object in a loop'))
        except RecursionError:
            res.out_of_reach.append((case.label, 'recursion limit of the extractor'))
        except Exception as e:
            if verbose:
                raise
            res.out_of_reach.append((case.label, 'verifier error %r' % e))
    res.wall = time.time() - t0
    return res


def backend(before):
    z = STATS['z3_queries'] - before['z3_queries']
    r = STATS['ring'] - before['ring']
    if z:
        return 'z3' if not r else 'ring+z3'
    return 'ring' if r else 'simplifier'


def run_case(unit, case, rng, res, end, verbose):
    pv.DEADLINE[0] = time.process_time() + 120
    tables = list(getattr(case, 'tables', [])) + TABLES
    it = Interp(case.ctx, case.contracts, tables)
    it.solve_rules = list(getattr(case, 'solve_rules', []))
    paths = []
    goals = []
    seen = set()
    for pctx, kind, val, obls in it.paths(lambda: case.run(it)):
        paths.append((pctx, kind, val))
        res.paths += 1
        if kind == 'return':
            res.returns += 1
        try:
            posts = list(case.post(it, kind, val, pctx))
        except PyRaise as e:
            raise OutOfReach('the contract does not apply to the result: %s' % (e.args,))
        for label, goal, c in obls:
            goals.append(('safety:' + label, goal, c))
        for p in posts:
            label, goal = p[0], p[1]
            c = p[2] if len(p) > 2 else pctx
            goals.append((label, lift(goal), c))
        if verbose:
            print('  path %s %s (%d goals)' % (kind, val.etype.__name__ if kind == 'raise' else '', len(obls) + len(posts)))
    res.trusted |= it.trusted
    res.used |= {fname(f) for f in it.used}
    models = []
    for m in case.models(rng):
        models.append(m)
    # translation validation: the extracted summary agrees with the real code on concrete instances
    for m in models:
        hit = [p for p in paths if safe(holds, p[0], m)]
        if not hit:
            if getattr(case, 'total', True):
                res.mismatch.append((case.label, 'no extracted path covers the instance %s' % describe(m)))
            continue
        res.reached += 1
        pctx, kind, val = hit[0]
        if case.__class__.native is Case.native and 'native' not in case.__dict__:
            continue
        try:
            nv = ('return', case.native(m))
        except NotImplementedError:
            continue
        except Exception as e:
            nv = ('raise', e)
        if nv[0] != kind:
            res.mismatch.append((case.label, 'real code %s, summary %s on %s' % (
                'raises %r' % nv[1] if nv[0] == 'raise' else 'returns', 'raises %s' % val.etype if kind == 'raise' else 'returns', describe(m))))
            continue
        if kind == 'raise':
            if not isinstance(nv[1], val.etype):
                res.mismatch.append((case.label, 'real code raises %r, summary %s' % (nv[1], val.etype)))
            else:
                res.validated += 1
            continue
        try:
            d = same(evalue(case.observe_sym(val) if hasattr(case, 'observe_sym') else val, m), nat(case.observe(nv[1])), getattr(case, 'tol', 1e-7))
        except Undef as e:
            d = 'summary undefined: %s' % e
        except (KeyError, AttributeError, TypeError, OutOfReach) as e:
            d = 'summary of another form: %r' % e
        if d:
            res.mismatch.append((case.label, d + ' on ' + describe(m)))
        else:
            res.validated += 1
    # proof
    for label, goal, c in goals:
        key = (goal, frozenset(c.facts))
        if key in seen:
            continue
        seen.add(key)
        before = dict(STATS)
        t = time.time()
        if end is not None and time.process_time() > end:
            raise OutOfReach('time limit of the unit')
        pv.DEADLINE[0] = time.process_time() + GOAL_TIME
        status = 'unknown'
        try:
            if prove(goal, c):
                status = 'proved'
        except (pv.OutOfTime, RecursionError):
            status = 'unknown'
        except Exception as e:       # prover defects count as undischarged
            status = 'unknown'
            if verbose:
                traceback.print_exc()
        pv.DEADLINE[0] = None
        rec = dict(case=case.label, label=label, status=status, backend=backend(before), time=time.time() - t)
        if status != 'proved':
            rec['goal'] = show(goal)[:2000]
            rec['facts'] = [show(f)[:300] for f in c.facts[-12:]]
            r = None
            try:
                r = refute(goal, c, models, rng)
            except RecursionError:
                pass
            if r is not None:
                rec['status'] = 'refuted'
                rec['model'] = describe(r[1])
                rec['model_obj'] = r[0]
        if verbose and rec['status'] != 'proved':
            print('   ', rec['status'], label, rec.get('model', ''), '\n       ', rec['goal'][:600], '\n       facts', [f[:200] for f in rec['facts']])
        res.obls.append(rec)


def safe(f, *a):
    try:
        return f(*a)
    except (Undef, ZeroDivisionError, OverflowError, KeyError, TypeError, IndexError):
        return False


def describe(m):
    return getattr(m, 'text', None) or ', '.join('%s=%s' % (k, v) for k, v in m.vars.items() if '!' not in k)


def mkmodel(vars=None, arrays=None, funs=None, inst=None, **native):
    """Model whose functions are given by arrays (nested lists / numpy); native data kept for the real code"""
    f = dict(funs or {})
    for name, a in (arrays or {}).items():
        f[name] = arrfun(name, a)
    m = tm.Model({k: Fraction(v) if isinstance(v, (int, float, np.integer)) and not isinstance(v, bool) else v for k, v in (vars or {}).items()}, f)
    m.native = dict(native)
    m.inst = inst
    m.text = ', '.join('%s=%s' % (k, v) for k, v in (vars or {}).items()) + ''.join('; %s=%s' % (k, np.array2string(np.asarray(v, dtype=float), precision=17, threshold=60) if v is not None and not callable(v) else v) for k, v in (arrays or {}).items())
    return m


def arrfun(name, a):
    a = np.asarray(a)

    def f(*idx):
        x = a
        for i in idx:
            k = int(i)
            if k < 0 or k >= len(x):
                raise Undef('index out of range of ' + name)
            x = x[k]
        v = x.item() if hasattr(x, 'item') else x
        if isinstance(v, bool):
            return v
        if isinstance(v, (int,)):
            return Fraction(v)
        if v != v or v in (float('inf'), float('-inf')):
            return v
        return Fraction(v)
    return f


def symarr(name, *shape, kind='np', sort='R'):
    return Arr(shape, lambda *i: app(name, *i, sort=sort), kind=kind)
