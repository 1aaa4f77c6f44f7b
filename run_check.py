#!/usr/bin/env python3
"""Entry point of every registered check.

    run_check.py PID [quick|thorough]     run the monitors of one property
    run_check.py replay FILE              re-run the one execution a replay file names

Makes a private scratch copy of /repo's *current* working tree (plus the stand-in raw
files that the loaders would otherwise download), runs the instrumented workload of the
property on it in the project's interpreter, and decides from what the monitors saw:

    exit 0  every observed execution satisfied the property (KNOWN-FINDING lines possible)
    exit 1  `VIOLATION property=<id> replay=<path>`
    exit 2  inconclusive: the harness failed or a required monitor observed nothing
"""
import fnmatch
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import fixture  # noqa: E402

PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def known_findings(pid):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        data = json.load(f)
    return [k for k in data['findings'] if k['property'] == pid and k['status'] == 'open']


def main():
    only = None
    if sys.argv[1] == 'replay':
        with open(sys.argv[2]) as f:
            rep = json.load(f)
        pid, tier, seed = rep['property'], rep['tier'], rep['seed']
        only = rep['scenario'], rep['index']
    else:
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1'))

    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vdemod.')
    try:
        scratch = fixture.make(REPO, work)
        out = os.path.join(work, 'out.json')
        env = dict(os.environ)
        env.update(
            PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', MPLBACKEND='Agg',
            MPLCONFIGDIR=os.path.join(work, 'mpl'), OMP_NUM_THREADS='1',
            OPENBLAS_NUM_THREADS='1', HOME=work, PYTHONPATH=scratch + ':' + HERE,
            VERIF_SCRATCH=scratch, VERIF_WORK=work, LANG='C.UTF-8')
        cmd = [PY, '-W', 'ignore', '-m', 'vlib.worker', pid, tier, str(seed), out]
        if only:
            cmd += [only[0], str(only[1])]
        budget = 840 if tier == 'quick' or 'VERIF_BUDGET' not in os.environ else int(os.environ['VERIF_BUDGET'])
        try:
            rc = subprocess.run(cmd, env=env, cwd=scratch, timeout=budget).returncode
        except subprocess.TimeoutExpired:
            print('INCONCLUSIVE property=%s watchdog: %d s' % (pid, budget))
            return 2
        if rc or not os.path.exists(out):
            print('INCONCLUSIVE property=%s worker ended with %s' % (pid, rc))
            return 2
        with open(out) as f:
            res = json.load(f)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings(pid)
    fresh, seen_known = {}, {}
    for v in res['violations']:
        for k in known:
            if any(fnmatch.fnmatchcase(v['key'], pat) for pat in k['keys']):
                seen_known.setdefault(k['id'], [k, 0])[1] += 1
                break
        else:
            fresh.setdefault(v['key'], v)

    cov = res['coverage']
    cov['known_findings_observed'] = {i: n for i, (k, n) in seen_known.items()}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': res['level'],
        'coverage': cov, 'assumptions': res['assumptions'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)

    print('%s %s seed=%d: %d executions, %d distinct non-trivial, %d monitor events, %d checks, %.1f s'
          % (pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'],
             cov['monitor_events_total'], cov['oracle_checks'], ev['wall_s']))
    for i, (k, n) in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s [%s, seen %d times]' % (pid, k['what'], i, n))
    # a listed finding that is not observed is still listed on the unchanged tree
    for k in known:
        if k['id'] not in seen_known:
            print('KNOWN-FINDING: property=%s %s [%s, not reached in this run]' % (pid, k['what'], k['id']))
    if fresh:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for n, (key, v) in enumerate(sorted(fresh.items())):
            path = os.path.join(HERE, 'replays', '%s-%s-%d-%d.json' % (pid, tier, seed, n))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'seed': seed, 'scenario': v['scenario'],
                           'index': v['index'], 'key': key, 'detail': v['detail']}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s: %s' % (key, str(v['detail'])[:1500]))
            if n >= 9:
                break
        return 1
    if res['inconclusive']:
        for r in res['inconclusive'][:10]:
            print('INCONCLUSIVE property=%s %s' % (pid, r))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
