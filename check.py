#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: see MANIFEST.json
   check.py replay <spec> <driver> key=value...: judge one run again"""
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vf       # noqa: E402
import checks   # noqa: E402


def run_check(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = checks.CHECKS[pid]
    t0 = time.time()
    deadline = t0 + (700 if tier == 'quick' else 6 * 3600)
    env = vf.Env()
    res = vf.Result()
    models = []
    note = None
    try:
        rng = random.Random('%s/%d/%s' % (pid, seed, tier))
        for b in c['fn'](rng, tier != 'quick'):
            if isinstance(b, vf.Model):
                models.append(b.run(env))
                continue
            if callable(b):
                if time.time() > deadline:
                    continue
                r, b = b(env)
                models.append(r)
            vf.run_batch(b, env, res, deadline, c.get('known'))
            if res.violation:
                break
        if res.violation:
            note = vf.save_violation(pid, res.violation, env)
    finally:
        env.close()

    cov = {
        'states': res.states + sum(m['distinct'] for m in models),
        'transitions': res.lines + sum(m['generated'] for m in models),
        'traces_validated_against_impl': res.runs,
        'samples': res.samples or ['(none)'],
        'trace_lines_by_event': res.events,
        'what_the_runs_did': res.stats,
        'models': models,
        'runs_not_started_for_lack_of_time': res.skipped,
    }
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking', 'coverage': cov,
        'assumptions': c.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if res.violation else 0,
    }
    d = os.path.join(vf.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')

    for cmd, line in res.known[:1]:
        print('KNOWN-FINDING: property=%s torn checkpoint: E_ECC after power '
              'loss, in %d run(s), such as: %s' %
              (pid, len({k[0] for k in res.known}), cmd))
    print('%s: %d runs, %d events accepted by the specification, %.1f s' %
          (pid, res.runs, res.lines, time.time() - t0))
    if res.violation:
        v = res.violation
        print('%s rejects: %s' % (v['batch'].module,
                                  v['trace'][v['index']][:500].decode(
                                      errors='replace')))
        print('VIOLATION property=%s replay=%s' % (pid, note))
        return 1
    if res.skipped:
        print('%d runs skipped' % res.skipped)
    return 0


def replay(args):
    module, driver, rest = args[0], args[1], args[2:]
    env = vf.Env()
    try:
        stdin = None if sys.stdin.isatty() else sys.stdin.buffer.read()
        job = vf.Job(driver, dict(x.split('=', 1) for x in rest), stdin)
        res = vf.Result()
        vf.run_batch(vf.Batch(module, [job]), env, res, time.time() + 3600)
        if res.violation:
            v = res.violation
            print('rejected at line %d:' % (v['index'] + 1))
            for x in v['trace'][max(0, v['index'] - 3):v['index'] + 1]:
                print(x.decode(errors='replace')[:1500])
            return 1
        print('accepted: %d lines' % res.lines)
        return 0
    finally:
        env.close()


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == 'setup':
        env = vf.Env()
        try:
            for d in vf.DRIVERS:
                env.build(d)
        finally:
            env.close()
        print('all drivers build')
        return 0
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2:])
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    return run_check(sys.argv[1], tier)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
