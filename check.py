"""Decides one property:  python check.py C01 [--tier quick|thorough] [--replay FILE]

1. the contract units of contracts/cNN.py are extracted from the sources in /repo, validated against the
   real code and proved (pyvc);
2. the Lean files the proofs rely on are re-checked;
3. the oracle of oracles/cNN.py exercises the real code (replay of countermodels, bounded stand-in).
"""
import os
import sys
import json
import time
import random
import signal
import resource
import hashlib
import argparse
import importlib
import warnings
import subprocess
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
LEAN = '/app/lean4-4.33.0/build/release/stage1/bin/lean'
sys.dont_write_bytecode = True
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    # the same order of sets, hence the same proofs, in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append(TOOLS)
sys.setrecursionlimit(20000)
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')

UNIT_TIME = {'quick': 150, 'thorough': 600}    # of processor time
SWEEP_TIME = {'quick': 10, 'thorough': 240}
INSTANCE_TIME = 60    # of processor time
HUNG = 70


class Timeout(Exception):
    pass


fired = []


def alarm(*a):
    fired.append(a)
    if len(fired) > 2:
        # the code under test swallows the exception
        stop[0]()
    raise Timeout()


stop = [lambda: os._exit(HUNG)]


# ------------------------------------------------------------------ oracle
def run_instance(orc, inst):
    """None or a description of the violation"""
    del fired[:]
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, INSTANCE_TIME, 1)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                return orc.check(inst)
            except (Timeout, KeyboardInterrupt, MemoryError):
                raise
            except Exception:
                # never happens on code that satisfies the property: the oracle handles all expected outcomes
                return 'unexpected exception: ' + traceback.format_exc()[-900:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def fresh_sweep(**k):
    return dict(dict(kind='sweep', n=0, nontrivial=0, bad=[], slow=0, error=None, samples=[]), **k)


def sweep(pid, seed, tier, part, parts, q, progress, skip, end):
    """progress: position and number of instances, so that the sweep can go on after a crash of the interpreter"""
    silence()
    out = fresh_sweep()
    try:
        orc = importlib.import_module('oracles.' + pid.lower())
        rng = random.Random('%s/%s/%d' % (seed, pid, part))
        seen = set()
        for k, inst in enumerate(orc.instances(rng, tier)):
            if k % parts != part or k < skip:
                continue
            if time.time() > end:
                break
            out['n'] += 1
            progress[0], progress[1] = k, out['n']
            key = json.dumps(inst, sort_keys=True, default=str)
            h = hashlib.sha1(key.encode()).digest()
            if h not in seen:
                seen.add(h)
                out['nontrivial'] += 1
            if len(out['samples']) < 3:
                out['samples'].append(key[:400])
            def hung():
                out['slow'] += 1
                out['bad'].append((inst, 'no result within %d s of processor time' % INSTANCE_TIME))
                q.put(out)
                q.close()
                q.join_thread()
                os._exit(0)
            stop[0] = hung
            try:
                msg = run_instance(orc, inst)
            except Timeout:
                hung()
            if msg:
                out['bad'].append((inst, str(msg)[:1500]))
                q.put(dict(kind='finding', bad=out['bad'][-1:]))
                if len(out['bad']) >= 5:
                    break
    except BaseException:
        out['error'] = traceback.format_exc()
    q.put(out)


def silence():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(fd, 2)


# ------------------------------------------------------------------ units
def units_of(pid):
    """(property, index) of the units of a check: its own, and those that prove the contracts its own rely on at calls"""
    mod = importlib.import_module('contracts.' + pid.lower())
    out = [(pid, i) for i in range(len(mod.UNITS))]
    own = set(mod.UNITS)
    for other, names in getattr(importlib.import_module('contracts.depends'), 'DEPENDS').get(pid, {}).items():
        us = importlib.import_module('contracts.' + other.lower()).UNITS
        for i, u in enumerate(us):
            if u.name in names and u not in own:
                out.append((other, i))
    return out


def prove_unit(pid, idx, seed, tier, q):
    silence()
    # a back end that does not come back: the process is ended
    resource.setrlimit(resource.RLIMIT_CPU, (UNIT_TIME[tier] + 60, UNIT_TIME[tier] + 70))
    t0 = time.time()
    try:
        from pyvc.unit import run_unit, fname
        from pyvc import prove as pv
        mod = importlib.import_module('contracts.' + pid.lower())
        unit = mod.UNITS[idx]()
        r = run_unit(unit, random.Random('%s/%s/%d' % (seed, pid, idx)), budget=UNIT_TIME[tier])
        obls = []
        for o in r.obls:
            d = {k: v for k, v in o.items() if k != 'model_obj'}
            m = o.get('model_obj')
            if m is not None and getattr(m, 'inst', None) is not None:
                d['inst'] = m.inst
            obls.append(d)
        q.put(dict(kind='unit', owner=pid, name=unit.name, targets=[fname(t) for t in unit.targets], lean=list(unit.lean), bound=unit.bound,
                   assumptions=list(unit.assumptions), obls=obls, out_of_reach=r.out_of_reach, mismatch=r.mismatch,
                   validated=r.validated, paths=r.paths, reached=r.reached, returns=r.returns, trusted=sorted(r.trusted),
                   used=sorted(r.used), wall=time.time() - t0, stats=dict(pv.STATS)))
    except BaseException:
        q.put(dict(kind='unit', owner=pid, name='unit %d of %s' % (idx, pid), error=traceback.format_exc(), wall=time.time() - t0))


# ------------------------------------------------------------------ main
def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def write_replay(pid, data):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    s = json.dumps(data, indent=1, sort_keys=True, default=str)
    path = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(s)
    return os.path.relpath(path, HERE)


def replay(path):
    data = json.load(open(path))
    if 'instance' not in data:
        print(json.dumps(data, indent=1))
        return 0
    orc = importlib.import_module('oracles.' + data['property'].lower())
    msg = run_instance(orc, data['instance'])
    print('violated: %s' % msg if msg else 'holds')
    return 1 if msg else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    pid, tier = a.property, a.tier
    if tier not in UNIT_TIME:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    try:
        import casadi_extras
        where = os.path.realpath(casadi_extras.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            print('casadi_extras does not come from %s' % REPO, file=sys.stderr)
            sys.exit(3)
        mod = importlib.import_module('contracts.' + pid.lower())
        todo = units_of(pid)
        import_error = None
    except SystemExit:
        raise
    except Exception:
        import_error = traceback.format_exc()
        mod, todo = None, []
    q = mp.get_context('fork').Queue()
    ctx = mp.get_context('fork')
    parts = 2 if tier == 'quick' else 4
    progress = [ctx.Array('q', [0, 0]) for p in range(parts)]
    end = time.time() + SWEEP_TIME[tier]
    findings, crashed = [], []

    def part(p, skip):
        return 'sweep%d' % p, ctx.Process(target=sweep, args=(pid, seed, tier, p, parts, q, progress[p], skip, end))
    pending = [part(p, 0) for p in range(parts)]
    pending += [('unit%d of %s' % (i, o), ctx.Process(target=prove_unit, args=(o, i, seed, tier, q))) for o, i in todo]
    leans = sorted({l for o, i in todo for l in importlib.import_module('contracts.' + o.lower()).UNITS[i].lean})
    theorems = []
    lproc = lean_start(leans)
    results = []
    running = []
    limit = 500 if tier == 'quick' else 3000
    nmax = 8
    expect = len(pending)
    dead = []
    while len(results) + len(dead) < expect:
        while pending and len(running) < nmax:
            n, p = pending.pop(0)
            p.start()
            running.append((n, p))
        try:
            r = q.get(timeout=0.2)
            (findings if r['kind'] == 'finding' else results).append(r)
        except Exception:
            pass
        still = []
        for n, p in running:
            if p.is_alive():
                still.append((n, p))
            elif p.exitcode not in (0, None):
                if n.startswith('sweep') and p.exitcode < 0 and len(crashed) < 50:
                    # the library crashed on this instance; go on with the next
                    k = int(n[5:])
                    crashed.append(fresh_sweep(n=progress[k][1], nontrivial=progress[k][1]))
                    pending.insert(0, part(k, progress[k][0] + 1))
                else:
                    dead.append((n, p.exitcode))
        running = still
        lean_poll(lproc)
        if time.time() - t0 > limit:
            for n, p in running:
                p.kill()
            dead += [(n, 'time limit') for n, p in running] + [(n, 'not started') for n, p in pending]
            break
    lean = lean_finish(lproc)
    results += crashed
    if crashed:
        results += [fresh_sweep(bad=f['bad']) for f in findings]
    sys.exit(conclude(pid, tier, seed, t0, results, dead, len(crashed), lean, import_error, a.verbose))


def lean_start(names):
    """Lean files that state and prove the named lemmas"""
    files = {}
    d = os.path.join(HERE, 'lean')
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith('.lean'):
            txt = open(os.path.join(d, f)).read()
            for n in names:
                if 'theorem %s ' % n in txt or 'theorem %s\n' % n in txt or 'lemma %s ' % n in txt:
                    files.setdefault(f, []).append(n)
    missing = [n for n in names if not any(n in v for v in files.values())]
    procs = []
    if os.path.exists(LEAN):
        for f in files:
            procs.append((f, files[f], subprocess.Popen([LEAN, os.path.join(d, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), time.time()))
    return dict(files=files, missing=missing, procs=procs, time={}, available=os.path.exists(LEAN))


def lean_poll(l):
    for f, _, p, t in l['procs']:
        if p.poll() is not None:
            l['time'].setdefault(f, time.time() - t)


def lean_finish(l):
    out = dict(checked=[], failed=[], missing=l['missing'], available=l['available'], time=0.0)
    for f, names, p, t in l['procs']:
        try:
            txt, _ = p.communicate(timeout=400)
        except subprocess.TimeoutExpired:
            p.kill()
            txt = 'timeout'
        out['time'] += l['time'].get(f, time.time() - t)
        txtf = open(os.path.join(HERE, 'lean', f)).read()
        if p.returncode == 0 and 'sorry' not in txt and 'error' not in txt and 'axiom ' not in txtf:
            out['checked'] += names
        else:
            out['failed'].append((f, names, txt[-800:]))
    return out


def conclude(pid, tier, seed, t0, results, dead, crashed, lean, import_error, verbose):
    orc_name = 'oracles.' + pid.lower()
    units = [r for r in results if r['kind'] == 'unit']
    sweeps = [r for r in results if r['kind'] == 'sweep']
    errors = [r['error'] for r in sweeps if r.get('error')]
    bounded = []
    violations = []
    undischarged = []
    nob = ndis = 0
    back = {}
    targets, assumptions, trusted, used = set(), set(), set(), set()
    bounded_fns = set()
    validated = paths = reached = 0
    ztime = 0.0
    unit_rows = []
    for u in units:
        if u.get('error'):
            bounded.append('%s: verifier error, bounded sweep only: %s' % (u['name'], u['error'][-400:]))
            continue
        assumptions |= set(u['assumptions'])
        trusted |= set(u['trusted'])
        used |= set(u['used'])
        validated += u['validated']
        paths += u['paths']
        reached += u['reached']
        ztime += u['stats'].get('z3_time', 0)
        unsound = bool(u['mismatch'])
        for case, why in u['out_of_reach']:
            bounded.append('%s/%s: outside the extractable subset (%s)' % (u['name'], case, why))
        for m in u['mismatch']:
            bounded.append('%s/%s: extracted summary rejected by translation validation (%s)' % (u['name'], m[0], m[1]))
        n = d = 0
        for o in u['obls']:
            n += 1
            if o['status'] == 'proved' and not unsound:
                d += 1
                if not u.get('bound'):
                    back[o['backend']] = back.get(o['backend'], 0) + 1
            elif not unsound:
                undischarged.append((u, o))
        if u.get('bound'):
            # exhausted up to a bound: decides, but is not counted as proved
            bounded.append('%s: %d of %d obligations discharged for %s' % (u['name'], d, n, u['bound']))
            bounded_fns |= set(u['targets'])
        elif not unsound:
            nob += n
            ndis += d
            if d:
                targets |= set(u['targets'])
        else:
            nob += n
        if not u['out_of_reach'] and not unsound and (n == 0 or u['reached'] == 0):
            errors.append('%s: vacuous (%d obligations, %d instances reached)' % (u['name'], n, u['reached']))
        unit_rows.append(dict(unit=u['name'], contract_of=u['owner'], functions=u['targets'], obligations=n, discharged=d, paths=u['paths'],
                              instances_validated=u['validated'], wall_s=round(u['wall'], 1)))
    for n, code in dead:
        bounded.append('%s: process ended (%s)' % (n, code))
    if lean['failed']:
        for f, names, txt in lean['failed']:
            undischarged.append((dict(name='lean/' + f), dict(case='', label='lean:' + ','.join(names), status='failed', goal=txt, backend='lean')))
    for l in lean['checked']:
        nob += 1
        ndis += 1
        back['lean'] = back.get('lean', 0) + 1
    for l in lean['missing']:
        assumptions.add('lemma %s is used but not machine-checked' % l)
    if not lean['available']:
        assumptions.add('Lean not available on this machine: lemmas not re-checked')
    # concrete failures
    for s in sweeps:
        for inst, msg in s['bad']:
            violations.append((inst, msg, None))
    replayed = set()
    callee = []
    undischarged.sort(key=lambda a: a[0].get('owner', pid) != pid)
    if undischarged:
        for u, o in undischarged:
            owner = u.get('owner', pid)
            if 'inst' in o and o['label'] not in replayed:
                orc = importlib.import_module('oracles.' + owner.lower())
                try:
                    msg = run_instance(orc, o['inst'])
                except BaseException:
                    msg = None
                if msg and owner != pid:
                    # the input breaks the contract of a callee; this property is no longer proved
                    replayed.add(o['label'])
                    callee.append(dict(property=owner, instance=o['inst'], message=msg, obligation='%s/%s/%s' % (u['name'], o['case'], o['label'])))
                elif msg:
                    replayed.add(o['label'])
                    violations.append((o['inst'], msg, '%s/%s/%s' % (u['name'], o['case'], o['label'])))
    nsweep = sum(s['n'] for s in sweeps)
    lines = []
    known = known_findings(pid)
    vio_out = []
    for inst, msg, ob in violations[:3]:
        k = [x for x in known if x.split(' :: ')[0] in msg]
        if k:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k[0]))
            continue
        data = dict(property=pid, instance=inst, message=msg, seed=seed, obligation=ob,
                    how='python check.py --replay <this file>')
        if undischarged:
            data['undischarged_obligations'] = ['%s/%s/%s: %s' % (u['name'], o['case'], o['label'], o['status']) for u, o in undischarged[:20]]
        path = write_replay(pid, data)
        vio_out.append(dict(replay=path, message=msg))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    if undischarged and not violations:
        u, o = undischarged[0]
        data = dict(property=pid, failed_obligation='%s/%s/%s' % (u['name'], o['case'], o['label']), status=o['status'],
                    goal=o.get('goal'), facts=o.get('facts'), model=o.get('model'), seed=seed,
                    others=['%s/%s/%s: %s' % (x['name'], y['case'], y['label'], y['status']) for x, y in undischarged[1:30]])
        if callee:
            data['callee_failing_inputs'] = callee[:3]
        path = write_replay(pid, data)
        vio_out.append(dict(replay=path, message='undischarged: ' + data['failed_obligation']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    if import_error:
        bounded.append('contracts not applicable to this source, bounded sweep only: ' + import_error[-600:])
    level = 'proof' if units and nob else 'exploration'
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python check.py %s' % pid,
               trusted_base=TRUSTED, functions_under_contract=sorted(targets), obligations_by_backend=back,
               solver_time_s=round(ztime, 2), lean_time_s=round(lean['time'], 1), lean_theorems=sorted(set(lean['checked'])),
               paths=paths, translation_validated_instances=validated, units=unit_rows,
               bounded_only=bounded, functions_checked_to_a_bound=sorted(bounded_fns - targets), sampled_properties=getattr(importlib.import_module(orc_name), 'BOUND', '') if not import_error else '',
               evaluations=nsweep, distinct_nontrivial=sum(s['nontrivial'] for s in sweeps),
               rule='distinct generated instances of the native oracle (replay and bounded stand-in)',
               samples=[x for s in sweeps for x in s['samples']][:4],
               contracts_used_at_calls=sorted(used), timed_out_instances=sum(s['slow'] for s in sweeps), instances_crashing_the_interpreter=crashed,
               explanation='extraction from source, translation validation, deductive proof; native oracle as replay')
    assumptions = sorted(assumptions) + ['library model: ' + t for t in sorted(trusted)]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=assumptions, violations=vio_out)
    if errors:
        ev['errors'] = errors
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print('%s: %d obligations, %d discharged, %d instances, %.1f s%s' % (
        pid, nob, ndis, nsweep, time.time() - t0, '; bounded: %d' % len(bounded) if bounded else ''))
    if verbose:
        for b in bounded:
            print('  bounded', b)
        for u, o in undischarged:
            print('  undischarged %s/%s/%s %s %s' % (u['name'], o['case'], o['label'], o['status'], o.get('goal', '')[:300]))
        for inst, msg, ob in violations:
            print('  violated', msg[:600], json.dumps(inst, default=str)[:600])
        for r in unit_rows:
            print('  unit', r)
    for e in errors:
        print(e, file=sys.stderr)
    if vio_out:
        return 1
    if errors or nsweep == 0:
        # a crash of the oracle on the code under test, a vacuous proof or an import failure is not a verdict
        return 3
    return 0


TRUSTED = ['pyvc extractor and simplifier (validated against the real code on concrete instances in every run)',
           'z3', 'Lean 4 kernel and Mathlib', 'library models of numpy/casadi in pyvc/models_*.py (listed under assumptions)',
           'real arithmetic stands for floating point', 'CPython']

if __name__ == '__main__':
    main()
