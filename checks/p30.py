"""P30 same seed and inputs give the same simulation; what belongs to the caller is not changed."""
import copy
import os
import subprocess
import sys

import numpy as np

from vlib.core import Spec
from checks.roster import RECIPES, Memo, digest, freeze, get, getters, observe, quiet, rng_state, run

NAMES = sorted(RECIPES)
S = Spec('P30', 'Every simulator with random inputs run again with the same numpy seed: with copies of the inputs, with the same input objects, with arrays refilled for each step, after other simulations, '
         'and in other processes with other hash seeds; non-trivial = distinct simulator and inputs.',
         required=['same_inputs', 'copied_inputs', 'refilled', 'after_others', 'inputs_checked', 'step_inputs_checked', 'data_checked', 'kept_data', 'hash_seeds', 'steps'] + ['sim_' + n for n in NAMES])


def trace(out):
    def each(sim, k):
        out.append((observe(sim, getters(sim)), rng_state()))
    return each


def plain(x):
    return {k: v for k, v in x.items() if k != 'data'}


class Refilled:
    """The same steps, given in arrays and dictionaries that the caller fills again for each step."""

    def __init__(self, inputs, steps):
        self.steps, self.kept, self.used = steps, {}, 0
        self.first = [v for v in plain(inputs).values() if isinstance(v, np.ndarray)]

    def fill(self, path, v):
        if isinstance(v, dict):
            kept = self.kept.setdefault((path, 'dict'), {})
            new = {k: self.fill(path + (k,), x) for k, x in v.items()}
            kept.clear()
            kept.update(new)
            return kept
        if not isinstance(v, np.ndarray):
            return v
        key = path, v.shape, v.dtype.str
        if key not in self.kept:
            like = [b for b in self.first if b.shape == v.shape and b.dtype == v.dtype]
            if like:
                self.kept[key] = like[0]
                self.first = [b for b in self.first if b is not like[0]]
            else:
                self.kept[key] = np.empty_like(v)
        else:
            self.used += 1
        self.kept[key][...] = v
        return self.kept[key]

    def __iter__(self):
        for a, kw in self.steps:
            yield tuple(self.fill((i,), x) for i, x in enumerate(a)), {k: self.fill((k,), x) for k, x in kw.items()}


@S.scenario(8 * len(NAMES), 120 * len(NAMES), weight=3)
def again(ctx):
    name = NAMES[ctx.index % len(NAMES)]
    seed, recipe_seed = ctx.randint(0, 2 ** 31), ctx.randint(0, 2 ** 31)
    r = get(name, recipe_seed)
    ctx.case(name=name, seed=seed, recipe_seed=recipe_seed)
    inputs, steps = r.inputs, r.steps
    spare, spare_steps = copy.deepcopy(inputs), copy.deepcopy(steps)
    before, before_steps = freeze(plain(inputs)), freeze(steps)
    first = []
    run(r, seed, inputs, each=trace(first), steps=steps)
    ctx.event('steps', len(steps))
    ctx.check(freeze(plain(inputs)) == before, 'inputs-changed', lambda: '%s: %s' % (name, {k: v for k, v in inputs.items() if freeze(v) != freeze(spare[k])}))
    ctx.event('inputs_checked')
    ctx.check(freeze(steps) == before_steps, 'step-inputs-changed', lambda: '%s' % [a for a, b in zip(steps, spare_steps) if freeze(a) != freeze(b)][:1])
    ctx.event('step_inputs_checked', bool(steps and (steps[0][0] or steps[0][1])))
    def compare(what, inp, st):
        out = []
        run(r, seed, inp, each=trace(out), steps=st)
        for k, (a, b) in enumerate(zip(first, out)):
            bad = sorted(n for n in a[0] if a[0][n] != b[0].get(n))
            if not ctx.check(not bad and a[1] == b[1], 'not-reproducible', lambda: '%s with %s: %s differ after %d steps' % (name, what, bad or 'random draws', k)):
                return
        ctx.eq(len(out), len(first), 'not-reproducible')
        ctx.event(what)

    compare('same_inputs', inputs, steps)
    other = get(ctx.choice(NAMES), ctx.randint(0, 2 ** 31))
    run(other, 1, other.inputs)
    compare('after_others', copy.deepcopy(spare), copy.deepcopy(spare_steps))
    mine = {**copy.deepcopy(plain(spare)), **({'data': inputs['data']} if 'data' in inputs else {})}
    refilled = Refilled(mine, copy.deepcopy(spare_steps))
    compare('refilled_inputs', mine, refilled)
    ctx.event('refilled', refilled.used)
    compare('copied_inputs', spare, spare_steps)
    if 'data' in inputs:
        # loaded data that is kept by the loader
        memo = Memo(copy.deepcopy(inputs['data']))
        shared = {**copy.deepcopy(plain(inputs)), 'data': memo}
        run(r, seed, shared, steps=copy.deepcopy(spare_steps))
        kept = {k: freeze(v[0]) for k, v in memo.kept.items()}
        pure = {k: freeze(quiet(lambda: getattr(memo.inner, f)(*a, **kw))) for k, (_, f, a, kw) in memo.kept.items()}
        bad = sorted(k for k in kept if kept[k] != pure[k])
        ctx.check(not bad, 'data-changed', lambda: '%s modifies what the dataset returned for %s' % (name, bad))
        ctx.event('data_checked', len(kept))
        compare('kept_data', shared, copy.deepcopy(spare_steps))
    ctx.event('sim_' + name)
    ctx.state(name, recipe_seed)


def digests(names, seed):
    """Digest of one run per simulator (also run in other processes)."""
    out = {}
    for i, name in enumerate(names):
        r = get(name, seed + i)
        t = []
        run(r, seed, r.inputs, each=trace(t))
        out[name] = digest(t)
    return out


@S.scenario(12, 120, weight=20)
def processes(ctx):
    """The hash seed of the interpreter (order of sets) does not matter."""
    names = [NAMES[(ctx.index * 5 + i) % len(NAMES)] for i in range(5)]
    seed = ctx.randint(0, 2 ** 30)
    ctx.case(names=names, seed=seed)
    want = digests(names, seed)
    for h in ('0', str(ctx.randint(1, 10 ** 6))):
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        p = subprocess.run([sys.executable, '-c', 'import sys, json, warnings; warnings.simplefilter("ignore"); out = sys.stdout; sys.stdout = sys.stderr; '
                            'from checks.p30 import digests; print(json.dumps(digests(json.loads(sys.argv[1]), int(sys.argv[2]))), file=out)',
                            __import__('json').dumps(names), str(seed)], env=env, capture_output=True, text=True, timeout=600)
        if p.returncode:
            raise RuntimeError('child failed: ' + p.stderr[-1500:])
        got = __import__('json').loads(p.stdout.strip().splitlines()[-1])
        for n in names:
            ctx.eq(got[n], want[n], 'hash-seed', '%s in another process' % n)
        ctx.event('hash_seeds', len(names))
    ctx.state(tuple(names), seed)
