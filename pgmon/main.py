"""Run the monitors of one property.

    python -m pgmon.main C01            (VERIF_SEED, VERIF_TIER from the environment)
    python -m pgmon.main --replay FILE

Exit 0: held on everything explored.  Exit 1: violated, with a VIOLATION line.
Exit 2: inconclusive or an error of the machinery.
"""
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_WATCHDOG_S = 150


class Watchdog(Exception):
    pass


def load(prop):
    return importlib.import_module('pgmon.props.' + prop.lower())


def schedule(mod, index):
    """Which workload case ``index`` belongs to, and its number there."""
    total = sum(w for _, w, _ in mod.WORKLOADS)
    cycle, pos = divmod(index, total)
    for name, weight, fn in mod.WORKLOADS:
        if pos < weight:
            return name, fn, cycle * weight + pos
        pos -= weight
    raise AssertionError


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property={} '.format(prop)):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                out[key.split('=', 1)[1]] = text
    return out


def run_case(mod, prop, seed, tier, index):
    from pgmon import rt
    name, fn, sub = schedule(mod, index)
    ctx = rt.Ctx(prop, name, seed, tier, sub)
    # The package draws from numpy's global generator in random().
    import numpy as np
    np.random.seed(int(ctx.rng.integers(2 ** 32)))
    out = {'index': index, 'workload': name, 'violation': None, 'known': None,
           'error': None}

    def on_alarm(*_):
        raise Watchdog('case ran over {} s'.format(CASE_WATCHDOG_S))
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_WATCHDOG_S)
    real_stdout = sys.stdout
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(ctx)
    except rt.Violation as v:
        out['violation'] = {
            'monitor': v.monitor, 'message': v.msg, 'details': v.details,
            'events': ctx.events[-60:], 'notes': ctx.notes}
    except rt.KnownFinding as k:
        out['known'] = k.key
    except (KeyboardInterrupt, SystemExit):
        raise
    except (MemoryError, OSError, Watchdog):
        out['error'] = traceback.format_exc()
    except Exception as e:
        out['malformed'] = traceback.format_exc()
        out['violation'] = {
            'monitor': 'well-formed-result',
            'message': 'a result could not be processed: {!r}'.format(e),
            'details': {'traceback': out['malformed']},
            'events': ctx.events[-60:], 'notes': ctx.notes}
    finally:
        signal.alarm(0)
        sys.stdout = real_stdout
    return ctx, out


def worker(prop, seed, tier, shard, nshards, ncases, deadline, stop, q):
    try:
        from pgmon import rt
        cov = rt.LineCoverage(os.path.join(rt.REPO, 'paragami'))
        mod = load(prop)
        cov.start()
        agg = {'evaluations': 0, 'events': 0, 'monitors': Counter(),
               'ops': Counter(), 'workloads': Counter(), 'sigs': set(),
               'samples': [], 'known': Counter(), 'violation': None,
               'error': None, 'exhausted': True}
        for index in range(shard, ncases, nshards):
            if time.time() > deadline or stop.is_set():
                agg['exhausted'] = False
                break
            ctx, out = run_case(mod, prop, seed, tier, index)
            agg['evaluations'] += 1
            agg['events'] += ctx.n_events
            agg['monitors'] += ctx.monitors
            agg['ops'] += ctx.ops
            agg['workloads'][out['workload']] += 1
            agg['sigs'] |= ctx.sigs
            if ctx.sample and len(agg['samples']) < 3:
                agg['samples'].append(
                    '{} #{}: {}'.format(out['workload'], ctx.index, ctx.sample))
            if out['known']:
                agg['known'][out['known']] += 1
            if out.get('malformed'):
                # A result the monitors could not even process (the case is a
                # deterministic function of its index, so it must recur).
                _, again = run_case(mod, prop, seed, tier, index)
                if not again['violation']:
                    out['violation'], out['error'] = None, out['malformed']
            if out['violation']:
                agg['violation'] = out
                stop.set()
                break
            if out['error']:
                agg['error'] = out
                stop.set()
                break
        cov.stop()
        agg['lines'] = {f: sorted(v) for f, v in cov.hit.items()}
        q.put((shard, agg))
    except BaseException:
        q.put((shard, {'fatal': traceback.format_exc()}))


def repo_executable_lines(root):
    out = {}
    for f in sorted(os.listdir(root)):
        if not f.endswith('.py') or f == '_version.py':
            continue
        try:
            code = compile(open(os.path.join(root, f)).read(), f, 'exec')
        except SyntaxError:
            continue
        lines, todo = set(), [code]
        while todo:
            c = todo.pop()
            lines |= {l for _, _, l in c.co_lines() if l}
            todo += [k for k in c.co_consts if hasattr(k, 'co_lines')]
        out[f] = len(lines)
    return out


def run_property(prop, seed, tier):
    t0 = time.time()
    from pgmon import rt
    mod = load(prop)
    quick = tier != 'thorough'
    ncases = mod.QUICK if quick else mod.THOROUGH
    budget = float(os.environ.get(
        'PGMON_BUDGET', 300 if quick else 780))
    nsh = min(8, os.cpu_count() or 1)
    mpc = mp.get_context('fork')
    stop, q = mpc.Event(), mpc.Queue()
    procs = [mpc.Process(target=worker, args=(
        prop, seed, tier, s, nsh, ncases, t0 + budget, stop, q))
        for s in range(nsh)]
    for p in procs:
        p.start()
    results, hard = {}, t0 + budget + CASE_WATCHDOG_S / 2
    while len(results) < nsh and time.time() < hard:
        try:
            s, r = q.get(timeout=1.0)
            results[s] = r
        except Exception:
            if not any(p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        if p.is_alive() and len(results) < nsh:
            p.terminate()
        p.join(timeout=5)
    tot = {'evaluations': 0, 'events': 0, 'monitors': Counter(),
           'ops': Counter(), 'workloads': Counter(), 'sigs': set(),
           'samples': [], 'known': Counter()}
    viol, errs, lines, complete = [], [], {}, True
    for s in sorted(results):
        r = results[s]
        if 'fatal' in r:
            errs.append(r['fatal'])
            continue
        for k in ('evaluations', 'events'):
            tot[k] += r[k]
        for k in ('monitors', 'ops', 'workloads', 'known'):
            tot[k] += r[k]
        tot['sigs'] |= r['sigs']
        tot['samples'] += r['samples']
        complete &= r['exhausted']
        if r['violation']:
            viol.append(r['violation'])
        if r['error']:
            errs.append('case {} ({}):\n{}'.format(
                r['error']['index'], r['error']['workload'], r['error']['error']))
        for f, ls in r['lines'].items():
            lines.setdefault(f, set()).update(ls)
    if len(results) < nsh:
        errs.append('{} of {} workers gave no result'.format(
            nsh - len(results), nsh))
    known = known_findings(prop)
    for key in tot['known']:
        if key not in known:
            errs.append('a case stopped at {!r}, which is not listed'.format(key))

    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    starved = [] if viol else [
        m for m, least in mod.REQUIRED.items() if tot['monitors'][m] < least]
    execl = repo_executable_lines(os.path.join(rt.REPO, 'paragami'))
    cov = {
        'evaluations': tot['evaluations'],
        'distinct_nontrivial': len(tot['sigs']),
        'rule': mod.RULE,
        'samples': tot['samples'][:8],
        'exhaustive': False,
        'ran_all_scheduled_cases': bool(complete),
        'scheduled_cases': ncases,
        'events_observed': tot['events'],
        'monitor_evaluations': dict(sorted(tot['monitors'].items())),
        'operations': dict(sorted(tot['ops'].items())),
        'workloads': dict(sorted(tot['workloads'].items())),
        'known_findings_seen': dict(tot['known']),
        'repo_lines_observed': {
            f: '{}/{}'.format(len(lines.get(f, ())), n)
            for f, n in execl.items() if lines.get(f)},
    }
    ev = {'property': prop, 'tier': 'quick' if quick else 'thorough',
          'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key in sorted(tot['known']):
        if key in known:
            print('KNOWN-FINDING: property={} {} {}'.format(
                prop, key, known[key]))
    print('{} {}: {} cases, {} distinct, {} events, {} monitor evaluations, '
          '{:.1f} s'.format(prop, ev['tier'], tot['evaluations'],
                            len(tot['sigs']), tot['events'],
                            sum(tot['monitors'].values()), ev['wall_s']))
    if viol:
        v = min(viol, key=lambda o: o['index'])
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '{}-seed{}-case{}.json'.format(
            prop, seed, v['index']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier,
                       'index': v['index'], 'workload': v['workload'],
                       'violation': v['violation']}, f, indent=1, default=str)
        print('  case {} ({}): [{}] {}'.format(
            v['index'], v['workload'], v['violation']['monitor'],
            v['violation']['message'][:1000]))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if errs:
        print('ERROR of the machinery:\n' + '\n'.join(errs[:3]))
        return 2
    if starved:
        print('INCONCLUSIVE: monitors reached too rarely: {}'.format(
            {m: (tot['monitors'][m], mod.REQUIRED[m]) for m in starved}))
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    ctx, out = run_case(load(r['property']), r['property'], r['seed'],
                        r['tier'], r['index'])
    for e in ctx.events[-60:]:
        print('  ', *e)
    if out['violation']:
        print(json.dumps(out['violation'], indent=1, default=str)[:6000])
        print('VIOLATION property={} replay={}'.format(r['property'], path))
        return 1
    if out['error']:
        print(out['error'])
        return 2
    print('held on this case')
    return 0


def main(argv):
    sys.path.insert(0, HERE)
    if argv[:1] == ['--replay']:
        return replay(argv[1])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    return run_property(argv[0], seed, tier)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
