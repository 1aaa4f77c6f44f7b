"""Runs the scenarios of one property in a process pool and aggregates the monitors."""
import collections
import contextlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from vlib.core import Ctx, Stop, stable_seed, REGISTRY

CPU_LIMIT = 240      # s of CPU of one execution that normally takes seconds


class CpuLimit(BaseException):
    pass


def _cpu(*_):
    raise CpuLimit()


SCRATCH = os.environ['VERIF_SCRATCH']
PKG = os.path.join(SCRATCH, 'demod') + os.sep
_LINES = set()
_FUNCS = set()


def start_coverage():
    m = sys.monitoring
    tid = 3
    m.use_tool_id(tid, 'verif')

    def on_line(code, line):
        if code.co_filename.startswith(PKG):
            _LINES.add((code.co_filename[len(PKG):], line))
            _FUNCS.add(code.co_filename[len(PKG):] + ':' + code.co_qualname)
        return m.DISABLE
    m.register_callback(tid, m.events.LINE, on_line)
    m.set_events(tid, m.events.LINE)


def demod_site(tb):
    """Innermost frame of the code under test in a traceback, if any."""
    site = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(PKG):
            site = fr.filename[len(PKG):] + ':' + fr.name
    return site


UNREADABLE = (ValueError, IndexError, KeyError, TypeError, ZeroDivisionError, OverflowError)
SINK = open(os.devnull, 'w')


def run_one(job):
    pid, scen, index, tier, seed = job
    import numpy as np
    import random
    s = stable_seed(seed, pid, scen, index)
    np.random.seed(s % 2**32)
    random.seed(s)
    fn = REGISTRY[pid].scenarios[scen].fn
    ctx = Ctx(pid, scen, index, tier, s)
    _LINES.clear()
    _FUNCS.clear()
    signal.signal(signal.SIGPROF, _cpu)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    t0 = time.time()
    cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(SINK):
            fn(ctx)
    except Stop:
        pass
    except CpuLimit:
        ctx.violation('%s/no-progress' % scen,
                      'execution used %d s of CPU without finishing' % CPU_LIMIT)
    except Exception as e:
        site = demod_site(e.__traceback__)
        txt = traceback.format_exc()[-2500:]
        if site is not None:
            ctx.violation('%s/exception:%s@%s' % (scen, type(e).__name__, site), txt)
        elif isinstance(e, UNREADABLE) or (isinstance(e, AttributeError) and e.name == 'get' and e.obj is None):
            # the monitors always understand what the unchanged code returns, and every logger given is kept
            ctx.violation('%s/unreadable:%s' % (scen, type(e).__name__), txt)
        else:
            ctx.harness_errors.append('%s[%d]: %s' % (scen, index, txt))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        ctx.cleanup()
    r = ctx.result()
    r['lines'] = sorted(_LINES)
    r['funcs'] = sorted(_FUNCS)
    r['t'] = time.time() - t0
    return r


def main():
    pid, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    only = (sys.argv[5], int(sys.argv[6])) if len(sys.argv) > 5 else None
    try:
        importlib.import_module('checks.' + pid.lower())
    except Exception as e:
        site = demod_site(e.__traceback__)
        if site is None:
            raise
        # the modules under test no longer import: nothing the property promises is provided
        traceback.print_exc()
        res = dict(level='exploration', assumptions=[], inconclusive=[],
                   coverage=dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[],
                                 monitor_events_total=0, oracle_checks=0),
                   violations=[dict(key='import/exception:%s@%s' % (type(e).__name__, site),
                                    scenario='import', index=0, detail=traceback.format_exc()[-2500:])])
        json.dump(res, open(out, 'w'))
        return 0
    spec = REGISTRY[pid]
    jobs = []
    for name, sc in spec.scenarios.items():
        n = sc.quick if tier == 'quick' else sc.thorough
        if only and only[0] != name:
            continue
        for i in range(n):
            if only and only[1] != i:
                continue
            jobs.append((sc.weight, (pid, name, i, tier, seed)))
    jobs.sort(key=lambda j: -j[0])
    jobs = [j for _, j in jobs]
    start_coverage()
    nproc = 1 if only else min(int(os.environ.get('VERIF_JOBS', 8)), os.cpu_count() or 1)
    results = []
    if nproc == 1:
        results = [run_one(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(nproc, maxtasksperchild=50) as pool:
            for r in pool.imap_unordered(run_one, jobs):
                results.append(r)
    results.sort(key=lambda r: (r['scenario'], r['index']))

    events, per, states = collections.Counter(), {}, set()
    checks = 0
    lines, funcs, violations, incon, samples = set(), set(), [], [], []
    nontrivial = set()
    for r in results:
        for k, v in r['events'].items():
            events[k] += v
        checks += r['checks']
        states.update(r['states'])
        p = per.setdefault(r['scenario'], dict(executions=0, checks=0, seconds=0.))
        p['executions'] += 1
        p['checks'] += r['checks']
        p['seconds'] = round(p['seconds'] + r['t'], 2)
        lines.update(map(tuple, r['lines']))
        funcs.update(r['funcs'])
        violations += r['violations']
        incon += r['harness_errors']
        nontrivial.update(r['nontrivial'])
    seen_s = set()
    for r in results:
        if r['scenario'] not in seen_s and r['sample'] is not None:
            seen_s.add(r['scenario'])
            samples.append({'scenario': r['scenario'], 'index': r['index'], 'case': r['sample']})
    if not only:
        for name in spec.required:
            if not events.get(name):
                incon.append('required monitor event %r never observed' % name)
    byfile = collections.Counter(f for f, _ in lines)
    res = dict(
        level=spec.level, assumptions=spec.assumptions, inconclusive=incon,
        violations=violations,
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(nontrivial), rule=spec.rule,
            samples=samples[:12], monitor_events=dict(events), monitor_events_total=sum(events.values()),
            oracle_checks=checks, distinct_states_observed=len(states), per_scenario=per,
            lines_reached=dict(byfile), functions_reached=sorted(funcs)))
    json.dump(res, open(out, 'w'))
    return 0


if __name__ == '__main__':
    sys.exit(main())
