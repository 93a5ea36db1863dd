#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: every obligation of the proof units it rests on has
to be discharged for the current source of /repo. A failed obligation is
replayed natively; a unit that cannot be decided is replaced by a bounded
native exploration, reported as such."""

import argparse
import concurrent.futures
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))

import prove   # noqa: E402
import units   # noqa: E402
import meta    # noqa: E402
import native  # noqa: E402


def known_findings(prop):
    path = os.path.join(HERE, 'known-findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                res.append(line.split(' ', 2)[2])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = args.prop
    t0 = time.time()
    budget = 560 if args.tier == 'quick' else 3000

    jobs = sorted(units.jobs_for(prop, args.tier), key=lambda j: -j.cost)
    for j in jobs:
        j.timeout = min(j.timeout, budget)
        if args.tier == 'thorough':
            j.timeout = budget
    results = []
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
        def one(j):
            left = budget - (time.time() - t0)
            if left < 5:
                r = prove.Result(j)
                r.reason = 'no time left'
                return r
            j.timeout = min(j.timeout, left)
            return j.run() if hasattr(j, 'run') else prove.prove(j)
        for r in ex.map(one, jobs):
            results.append(r)
            if args.v:
                print('%-24s %-9s %5d/%-5d covers %d %6.1fs %s' % (
                    r.name, r.status, r.discharged, r.obligations, r.covers,
                    r.wall_s, r.reason), flush=True)

    failed = [r for r in results if r.status == 'failed']
    undecided = [r for r in results if r.status == 'undecided']
    nat = None
    violation = None

    if failed or undecided or args.tier == 'thorough':
        limit = (160 if args.tier == 'quick' else 600)
        nat = native.explore(prop, seed, limit, failed, undecided)
        nat.violations[:0] = [r.confirmed for r in failed if r.confirmed]

    replay_dir = os.path.join(HERE, 'replay')
    if failed or (nat and nat.violations):
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, prop + '.txt')
        with open(path, 'w') as f:
            f.write('property %s: %s\n' % (prop, meta.title(prop)))
            if nat and nat.violations:
                f.write('\n== failing input, run against the real code ==\n')
                f.write(nat.violations[0] + '\n')
            for r in failed:
                f.write('\n== failed obligations of %s ==\n' % r.name)
                f.write('functions: %s\n' % ', '.join(r.funcs))
                for x in r.failed:
                    f.write(x + '\n')
                f.write('command: %s\n' % r.cmd)
            if not (nat and nat.violations):
                f.write('\nno failing input found natively (%s)\n'
                        % (nat.summary if nat else 'not searched'))
            for r in failed:
                f.write('\n== verifier output of %s ==\n%s\n' % (r.name, r.output[-20000:]))
                if r.trace:
                    f.write('\n== verifier counterexample of %s ==\n%s\n'
                            % (r.name, r.trace[-60000:]))
        violation = 'VIOLATION property=%s replay=%s' % (prop, path)
        if not (nat and nat.violations):
            violation += ' no-failing-input-found'

    obligations = sum(r.obligations for r in results)
    discharged = sum(r.discharged for r in results)
    funcs = sorted(set(f for r in results for f in r.funcs if r.status == 'proved'))
    cov = {
        'obligations': obligations,
        'discharged': discharged,
        'checker_cmd': 'check.py %s --tier %s (%s; see units)' % (prop, args.tier, meta.checker(results)),
        'trusted_base': meta.trusted(prop),
        'functions_under_contract': funcs,
        'units': [dict(name=r.name, status=r.status, obligations=r.obligations,
                       discharged=r.discharged, reachability_guards=r.covers,
                       wall_s=round(r.wall_s, 1), solver_s=round(r.solver_s, 1),
                       reason=r.reason, command=r.cmd) for r in results],
        'solver_s': round(sum(r.solver_s for r in results), 1),
        'back_end': meta.backends(results),
        'undecided_units': [r.name for r in undecided],
        'bounded': meta.bounded(prop),
    }
    if nat:
        cov['bounded_stand_in'] = nat.summary
        cov['evaluations'] = nat.evaluations
    if undecided:
        cov['explanation'] = ('units %s were not decided on this run; a bounded native '
                              'exploration stood in for them and nothing of them is '
                              'counted as proved' % ', '.join(r.name for r in undecided))
    ev = {
        'property': prop, 'tier': args.tier, 'seed': seed, 'level': 'proof',
        'coverage': cov, 'assumptions': meta.assumptions(prop),
        'wall_s': round(time.time() - t0, 1), 'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violation:
        for r in failed:
            print('unit %s failed: %s' % (r.name, r.failed[0]))
        print(violation)
        return 1
    for r in undecided:
        print('undecided (bounded stand-in used): %s: %s' % (r.name, r.reason))
    print('%s: %d of %d obligations discharged in %d units, %.0f s'
          % (prop, discharged, obligations, len(results), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit as e:
        raise
    sys.exit(rc)
