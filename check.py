#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]   |   check.py --replay FILE   |   check.py --list"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
CONTRACTS = ['c01_c04']
GLOBAL_BUDGET = {'quick': 640.0, 'thorough': 3 * 3600.0}


def load_cases():
    out = {}
    for m in json.load(open(os.path.join(HERE, 'contracts', 'modules.json'))):
        mod = importlib.import_module('contracts.' + m)
        for p, cs in mod.CASES.items():
            out.setdefault(p, []).extend(cs)
    return out


def tasks_for(prop, tier):
    """list of (case, variant, mode)"""
    allc = load_cases()
    out = []
    if prop in ('C18', 'C19'):
        mode = 'frame' if prop == 'C18' else 'units'
        for p, cs in sorted(allc.items()):
            for c in cs:
                if mode == 'frame' and not c.frame or mode == 'units' and not c.relational or c.real:
                    continue
                if c.slow and tier == 'quick':
                    continue
                if mode == 'units' and not any(getattr(i, 'dim', None) or hasattr(i, 'lon') for i in c.inputs.values()):
                    continue
                if mode == 'frame' and not any(getattr(i, 'axes', None) or hasattr(i, 'lon') for i in c.inputs.values()):
                    continue
                vs = c.variants()
                for v in (vs[:1] if tier == 'quick' else vs):
                    out.append((c, v, mode))
    for c in allc.get(prop, []):
        vs = c.variants()
        for v in vs:
            out.append((c, v, 'values'))
    return out


_TASKS = None
_ARGS = None


class Watchdog(BaseException):
    pass


def work(k):
    from pyvc.runner import Runner, Result
    from pyvc.engine import Unsupported
    import traceback
    case, variant, mode = _TASKS[k]
    tier, seed, deadline = _ARGS
    if time.time() > deadline:
        r = Result(case.id, variant)
        r.unsupported.append('not started: global time budget of the check exhausted')
    else:
        def stop(sig, frame):
            import linecache
            raise Watchdog(' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in
                                       reversed(traceback.extract_stack(frame)[-12:])))
        signal.signal(signal.SIGALRM, stop)
        # a case that does not answer is stopped: it counts as unsupported, the others still run
        limit = max(150.0, 4 * case.budget) * (1 if tier == 'quick' else 8)
        signal.setitimer(signal.ITIMER_REAL, max(5.0, min(limit, deadline + 60 - time.time())), 5.0)
        try:
            r = Runner(case, variant, tier=tier, seed=seed, mode=mode).run()
        except Exception:
            r = Result(case.id, variant)
            r.unsupported.append('internal: ' + traceback.format_exc()[-600:])
        except BaseException as e:
            r = Result(case.id, variant)
            r.unsupported.append('internal: %s: %s' % (type(e).__name__, e))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    d = dict(r.__dict__)
    d['mode'] = mode
    d['bounded_only'] = case.bounded_only
    d['note'] = case.note
    for x in ('functions', 'stubs', 'trusted'):
        d[x] = sorted(d[x])
    return k, d


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'open':
                    out.append(d)
    return out


RECORD = os.environ.get('PYVC_RECORD') == '1'      # development: rewrite the list of fully discharged cases
BASELINE = os.path.join(HERE, 'contracts', 'proved.json')


def key_of(r):
    return '%s|%s|%s' % (r['case'], ','.join('%s=%s' % kv for kv in sorted(r['variant'].items())), r['mode'])


def proved_baseline():
    out = set()
    if os.path.exists(BASELINE):
        for ks in json.load(open(BASELINE)).values():
            out.update(ks)
    return out


def record(prop, results):
    d = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    d[prop] = sorted(key_of(r) for r in results if r['obligations'] and r['obligations'] == r['discharged']
                     and not r['unsupported'] and not r['violations'])
    with open(BASELINE, 'w') as fh:
        json.dump(d, fh, indent=0, sort_keys=True)
        fh.write('\n')


def matches(f, v):
    return f['case'] == v['case'] and re.search(f['why'], v.get('why') or '') is not None


TRUSTED = [
    'pyvc: the obligation generator (source rewriting, numpy/astropy/scipy shims, normaliser) of this framework',
    'z3 (leaf obligations the normaliser and interval reasoning do not close)',
    'assumed contracts of numpy, astropy.units/constants/coordinates, scipy (odeint, quad, splrep/splev, interp1d, '
    'RectBivariateSpline, jv), numba.jit (semantics-preserving), schwimmbad pools (order-preserving map)',
    'machine arithmetic treated as real arithmetic (cross-checked on the sampled replays only)',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    if a.replay:
        from pyvc import replay
        return replay.main(a.replay)
    if a.list:
        for p, cs in sorted(load_cases().items()):
            print(p, len(cs), sum(len(c.variants()) for c in cs))
        return 0
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    global _TASKS, _ARGS
    _TASKS = tasks_for(a.prop, a.tier)
    if a.only:
        _TASKS = [t for t in _TASKS if re.search(a.only, t[0].id)]
    if not _TASKS:
        print('no contract cases for', a.prop)
        return 2
    budget = GLOBAL_BUDGET[a.tier]
    _ARGS = (a.tier, seed, t0 + budget)
    results = [None] * len(_TASKS)
    # slow cases first
    order = sorted(range(len(_TASKS)), key=lambda k: -_TASKS[k][0].budget * (3 if _TASKS[k][0].slow else 1))
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(a.j, len(_TASKS)))
    hard = t0 + budget + 120
    known = known_findings(a.prop)
    try:
        it = pool.imap_unordered(work, order, chunksize=1)
        done = 0
        while done < len(order):
            left = hard - time.time()
            try:
                k, d = it.next(timeout=max(left, 1))
            except mp.TimeoutError:
                break
            except StopIteration:
                break
            results[k] = d
            done += 1
            if any(not v.get('noinput') and not any(matches(f, v) for f in known) for v in d['violations']):
                hard = min(hard, time.time() + 45)        # a failing input is known: no need to wait for the slowest case
            if a.v:
                print('%-44s %-24s %s ob %d/%d paths %d samples %d/%d %.1fs' % (
                    d['case'], d['variant'], d['mode'], d['discharged'], d['obligations'], d['paths'], d['samples'],
                    d['sample_skipped'], d['wall']), 'VIOL' if d['violations'] else '', 'VACUOUS' if d['vacuous'] else '')
                for x in d['undecided']:
                    print('     undecided', x)
                for x in d['unsupported']:
                    print('     unsupported', x)
                for x in sorted(set(d['notes'])):
                    print('     note', x)
    finally:
        pool.terminate()
        os.system("true")
    for k, r in enumerate(results):
        if r is None:
            c, v, m = _TASKS[k]
            results[k] = dict(case=c.id, variant=v, mode=m, obligations=0, discharged=0, undecided=[], violations=[],
                              paths=0, samples=0, sample_skipped=0, functions=[], stubs=[], trusted=[], wall=0.0,
                              stats={}, notes=[], unsupported=['stopped: hard time limit'], vacuous=False,
                              bounded_only=c.bounded_only, note=c.note)
    return report(a.prop, a.tier, seed, results, time.time() - t0, bool(a.only))


def report(prop, tier, seed, results, wall, partial):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    known = known_findings(prop)
    hit = {}
    viols = []
    for r in results:
        for v in r['violations']:
            f = next((f for f in known if matches(f, v)), None)
            if f is not None:
                hit[f['what']] = f
            else:
                viols.append(v)
    base = proved_baseline()
    for r in results:
        if r['violations'] or key_of(r) not in base:
            continue
        for label, why, leaf in r.get('unproved', [])[:1]:
            viols.append({'case': r['case'], 'variant': r['variant'], 'mode': r['mode'], 'obligation': label,
                          'noinput': True, 'why': 'obligation no longer discharged: ' + why, 'leaf': leaf})
    if not partial and RECORD:
        record(prop, results)
    ob = sum(r['obligations'] for r in results)
    dis = sum(r['discharged'] for r in results)
    und = [dict(obligation=l, why=w) for r in results for l, w in r['undecided']]
    uns = [dict(case=r['case'], variant=r['variant'], why=w) for r in results for w in r['unsupported']]
    stats = {}
    for r in results:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
    funcs = sorted({f for r in results for f in r['functions']})
    samples = sum(r['samples'] for r in results)
    bounded = sorted({r['case'] for r in results if r['bounded_only'] or r['unsupported']})
    proved = sorted({r['case'] for r in results if r['obligations'] and r['obligations'] == r['discharged']
                     and not r['unsupported']} - set(bounded))
    cov = {
        'obligations': ob, 'discharged': dis,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED,
        'functions_under_contract': funcs,
        'cases_proved': proved,
        'cases_bounded_only': bounded,
        'back_ends': {k: v for k, v in stats.items() if k not in ('z3_time',)},
        'solver_seconds': round(stats.get('z3_time', 0.0), 3),
        'paths_explored': sum(r['paths'] for r in results),
        'replays_on_real_code': samples,
        'replays_skipped_too_close_to_call': sum(r['sample_skipped'] for r in results),
        'bounded_note': 'every case is additionally replayed on the real package with seeded inputs (bounded, never '
                        'counted as proved); cases under cases_bounded_only rest on those replays alone',
        'undecided_obligations': und[:60], 'unsupported': uns[:60],
        'vacuous_cases': sorted({r['case'] for r in results if r['vacuous']}),
        'callee_contracts_used': sorted({s for r in results for s in r['stubs']}),
        'samples': [{'case': r['case'], 'variant': r['variant'], 'mode': r['mode']} for r in results[:5]],
    }
    assumptions = ['real arithmetic instead of IEEE doubles', 'sizes, values and units of the declared inputs are '
                   'arbitrary within the stated preconditions; argument kinds are those of the cases',
                   'library functions behave as their assumed contracts (see DESIGN.md)']
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'proof',
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': len(viols)}
    if not partial:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write('\n')
    for w, f in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    seen = set()
    rc = 0
    # violations with a failing input first
    viols.sort(key=lambda v: bool(v.get('noinput')))
    for v in viols:
        key = (v['case'], v.get('noinput'))
        if key in seen:
            continue
        seen.add(key)
        h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, h))
        v['property'] = prop
        with open(path, 'w') as fh:
            json.dump(v, fh, indent=1, default=str)
            fh.write('\n')
        print('  failed: %s [%s] %s' % (v['case'], v.get('obligation') or 'contract on the real code', v['why']))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if v.get('noinput') else ''))
        rc = 1
        if len(seen) >= 8:
            break
    print('%s: %d obligations, %d discharged, %d undecided, %d unsupported paths, %d replays, %.1f s' % (
        prop, ob, dis, len(und), len(uns), samples, wall))
    return rc


if __name__ == '__main__':
    sys.exit(main())
