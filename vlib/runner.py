"""Engine: seeded parallel generation, failure shrinking, replay files,
known findings and evidence."""
from __future__ import annotations

import collections
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, 'replays')
EVIDENCE = os.path.join(ROOT, 'evidence')
FINDINGS = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
CASE_CPU_LIMIT = 20.  # seconds of CPU time; an ordinary case takes ~1e-3
MEMORY_LIMIT = 3 << 30


class GeneratorError(Exception):
    pass


def _alarm(signum, frame):
    from .adapter import Hang
    raise Hang


def _setup_worker():
    signal.signal(signal.SIGVTALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except (ValueError, OSError):
        pass


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                           digest_size=8).digest()


def run_check(prop, case, limit=None):
    """Returns a failure description or None, and the label."""
    limit = limit or prop.cpu_limit or CASE_CPU_LIMIT
    from .adapter import Hang
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        try:
            return prop.check(case)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Hang:
        return {'what': 'no answer after %.0f s of CPU time' % limit}, 'hang'


def _chunk(args):
    prop_id, seed, chunk, size = args
    from .props import PROPS
    prop = PROPS[prop_id]
    stats = {'evaluations': 0, 'nontrivial': 0, 'none': 0, 'invalid': 0,
             'labels': collections.Counter(), 'digests': set(),
             'samples': [], 'failure': None, 'calls': 0}
    known = {json.dumps(f['case'], sort_keys=True)
             for f in known_findings(prop_id)}
    for i in range(size):
        name = '%s:%s:%s:%s' % (seed, prop_id, chunk, i)
        r = random.Random(name)
        try:
            case = prop.gen(r)
        except Exception as e:
            # an error of the machinery, never a verdict about the library
            raise GeneratorError('%s: %s\n%s' % (name, e,
                                                 traceback.format_exc()))
        if case is None:
            stats['none'] += 1
            continue
        stats['evaluations'] += 1
        failure, label = run_check(prop, case)
        if failure is not None:
            if not prop.valid(case):
                stats['invalid'] += 1
                continue
            if json.dumps(case, sort_keys=True) in known:
                continue
            failure = dict(failure, case=case, origin=name)
            stats['failure'] = failure
            break
        stats['labels'][label] += 1
        if prop.nontrivial(case, label):
            stats['nontrivial'] += 1
            stats['digests'].add(digest(case))
            if len(stats['samples']) < 2 and (
                    len(json.dumps(case)) < 1500):
                stats['samples'].append(dict(case, answer=label))
    return chunk, stats


def known_findings(prop_id):
    """The listed failing cases."""
    res = []
    try:
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('finding: property=%s ' % prop_id):
                    continue
                body = line.split(' ', 2)[2]
                res.append(json.loads(body))
    except FileNotFoundError:
        pass
    return res


def run(prop_id, tier, seed, workers=8):
    from .props import PROPS
    prop = PROPS[prop_id]
    t0 = time.monotonic()
    total = prop.cases[tier]
    size = prop.chunk
    cap = {'quick': 240., 'thorough': 3000.}[tier]
    violations = []
    for finding in known_findings(prop_id):
        failure, _ = _isolated(prop_id, finding['case'])
        if failure is not None:
            print('KNOWN-FINDING: property=%s %s' % (prop_id,
                                                     finding['what']))
    # regression cases first: minimal inputs of the defects repaired so far
    regress = list(prop.regressions())
    agg = {'evaluations': 0, 'nontrivial': 0, 'none': 0, 'invalid': 0,
           'labels': collections.Counter(), 'digests': set(), 'samples': []}
    failure = None
    for case in regress:
        fl, label = _isolated(prop_id, case)
        agg['evaluations'] += 1
        agg['labels'][label] += 1
        if fl is not None:
            failure = dict(fl, case=case, origin='regression')
            break
    truncated = False
    if failure is None:
        n = (total + size - 1) // size
        jobs = ((prop_id, seed, c, size) for c in range(n))
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(workers, _setup_worker) as pool:
            for chunk, stats in pool.imap_unordered(_chunk, jobs):
                for k in ('evaluations', 'nontrivial', 'none', 'invalid'):
                    agg[k] += stats[k]
                agg['labels'] += stats['labels']
                agg['digests'] |= stats['digests']
                if len(agg['samples']) < 6:
                    agg['samples'] += stats['samples']
                if stats['failure'] is not None:
                    failure = stats['failure']
                    break
                if time.monotonic() - t0 > cap:
                    truncated = True
                    break
            pool.terminate()
    replay = None
    if failure is not None:
        if prop.shrinkable:
            failure = _shrink(prop, failure)
        replay = save_replay(prop_id, failure)
        violations.append(failure)
    wall = time.monotonic() - t0
    write_evidence(prop, tier, seed, agg, truncated, wall, violations)
    if replay is not None:
        print(json.dumps({k: v for k, v in failure.items()
                          if k != 'traceback'})[:4000])
        print('VIOLATION property=%s replay=%s' % (prop_id, replay),
              flush=True)
        return 1
    print('property=%s tier=%s seed=%s: held on %d cases (%d distinct '
          'non-trivial) in %.1f s' % (prop_id, tier, seed,
                                      agg['evaluations'],
                                      len(agg['digests']), wall))
    return 0


def _isolated_target(prop_id, case, conn):
    _setup_worker()
    from .props import PROPS, prepare
    conn.send(run_check(PROPS[prop_id], prepare(case)))


def _isolated(prop_id, case):
    """Runs a single case in a child process."""
    ctx = multiprocessing.get_context('fork')
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_isolated_target, args=(prop_id, case, b))
    p.start()
    b.close()
    try:
        res = a.recv()
    except EOFError:
        res = {'what': 'the process died'}, 'died'
    p.join()
    return res


def _shrink_target(prop_id, failure, conn):
    _setup_worker()
    from .props import PROPS
    from .shrink import shrink
    prop = PROPS[prop_id]
    slow = 'no answer' in failure.get('what', '')

    def fails(c):
        try:
            return run_check(prop, c, 3. if slow else None)[0] is not None
        except Exception:  # noqa: a candidate the check cannot digest
            return False
    best = shrink(failure['case'], fails, budget=40.)
    conn.send(best)


def _shrink(prop, failure):
    ctx = multiprocessing.get_context('fork')
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_shrink_target, args=(prop.id, failure, b))
    p.start()
    b.close()
    try:
        case = a.recv() if a.poll(90.) else None
    except EOFError:
        case = None
    if p.is_alive():
        p.terminate()
    p.join()
    if case is None or case == failure['case']:
        return failure
    found, _ = _isolated(prop.id, case)
    if found is None:
        return failure
    return dict(found, case=case, origin=failure['origin'],
                original=failure['case'])


def save_replay(prop_id, failure):
    os.makedirs(REPLAYS, exist_ok=True)
    name = '%s-%s.json' % (prop_id, digest(failure['case']).hex())
    path = os.path.join(REPLAYS, name)
    with open(path, 'w') as f:
        json.dump(dict(failure, property=prop_id), f, indent=1)
    return os.path.relpath(path, ROOT)


def replay(path):
    from .props import PROPS
    with open(path) as f:
        data = json.load(f)
    failure, label = _isolated(data['property'], data['case'])
    if failure is None:
        print('property=%s holds on %s (%s)' % (data['property'], path,
                                                label))
        return 0
    print(json.dumps(dict(failure, case=data['case'])))
    print('VIOLATION property=%s replay=%s' % (data['property'], path))
    return 1


def write_evidence(prop, tier, seed, agg, truncated, wall, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = {
        'property': prop.id, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': agg['evaluations'],
            'distinct_nontrivial': len(agg['digests']),
            'rule': prop.rule,
            'samples': agg['samples'][:6],
            'discarded_by_generator': agg['none'],
            'discarded_invalid_failures': agg['invalid'],
            'answers': dict(sorted(agg['labels'].items(),
                                   key=lambda kv: -kv[1])[:80]),
            'truncated_by_wall_cap': truncated,
        },
        'assumptions': list(prop.assumptions),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    path = os.path.join(EVIDENCE, '%s.json' % prop.id)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, path)


def main(argv):
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    prop_id = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--seed' in argv:
        seed = int(argv[argv.index('--seed') + 1])
    return run(prop_id, tier, seed)
