"""P04 observing a simulation does not change it and shows its current state."""
import copy
import inspect

import numpy as np

from vlib.core import Spec
from checks.roster import RECIPES, get, getters, observe, quiet, rng_state, run
from demod.simulators.base_simulators import SimLogger, Simulator, cached_getter

NAMES = sorted(RECIPES)
S = Spec('P04', 'Twin runs of every simulator with the same seed: one with a logger and getters called at random, in any order and repeatedly, the other without; '
         'compared at random steps. Non-trivial = distinct simulator, inputs and observation.',
         required=['logged', 'observed', 'unobserved_compared', 'repeated', 'one_household', 'overridden'] + ['sim_' + n for n in NAMES])


def households(ctx, sim, name):
    """A getter asked for one household gives that household's value."""
    get_ = getattr(sim, name, None)
    try:
        if 'n_ieth_hh' not in inspect.signature(get_).parameters:
            return
        whole = np.asarray(get_())
        k = ctx.randint(0, len(whole) - 1)
    except (TypeError, ValueError, AttributeError, NotImplementedError):
        return
    if whole.dtype.kind in 'biuf':
        one = np.asarray(get_(k))
        ctx.check(one.shape == whole[k].shape and np.array_equal(one, whole[k], equal_nan=whole.dtype.kind == 'f'), 'household:' + name, lambda: '%s(%d) gives %r of %r' % (name, k, one, whole))
        ctx.event('one_household')


@S.scenario(10 * len(NAMES), 150 * len(NAMES), weight=3)
def twins(ctx):
    name = NAMES[ctx.index % len(NAMES)]
    seed, recipe_seed = ctx.randint(0, 2 ** 31), ctx.randint(0, 2 ** 31)
    r = get(name, recipe_seed)
    last = ctx.randint(0, len(r.steps))
    steps = r.steps[:last]
    ctx.case(name=name, seed=seed, recipe_seed=recipe_seed, steps=last)
    plain = run(r, seed, copy.deepcopy(r.inputs), steps=copy.deepcopy(steps))
    plain_rng = rng_state()
    names = getters(plain)
    want = observe(plain, names)
    usable = [n for n in names if want[n][0] != 'no']
    ctx.check(len(usable) > 0, 'no-getter', name)
    ctx.eq(rng_state() == plain_rng, True, 'getter-draws', 'getters of %s leave the random generator alone' % name)
    ctx.event('unobserved_compared')
    # the observed twin
    logged = [n for n in usable if n[0] != '.' and ctx.rng.random() < .5]
    # what can be logged is decided by the logger
    logger = quiet(lambda: SimLogger(*logged, aggregated=bool(ctx.rng.random() < .5))) if logged and ctx.rng.random() < .7 else None
    chance = ctx.choice([.1, .5, 1.])

    def each(sim, k):
        if ctx.rng.random() > chance:
            return
        some = [n for n in usable if ctx.rng.random() < .7]
        ctx.rng.shuffle(some)
        before = rng_state()
        one = observe(sim, some)
        two = observe(sim, list(reversed(some)))
        for n in some:
            ctx.check(one[n] == two[n], 'unstable:' + n, lambda: '%s: %s changes when read again after %d steps' % (name, n, k))
        ctx.check(rng_state() == before, 'getter-draws', lambda: '%s: reading draws random numbers' % name)
        for n in some:
            households(ctx, sim, n)
        ctx.event('observed', len(some))
        ctx.event('repeated', len(some))

    seen = run(r, seed, copy.deepcopy(r.inputs), each=each, logger=logger, steps=copy.deepcopy(steps))
    ctx.event('logged', logger is not None)
    ctx.check(rng_state() == plain_rng, 'observation-draws', lambda: '%s: another number of random draws with logger %s' % (name, logged if logger else None))
    order = list(names)
    ctx.rng.shuffle(order)
    got = observe(seen, order)
    for n in names:
        ctx.check(got[n] == want[n], 'differs:' + n, lambda: '%s: %s after %d steps differs when observed (logger: %s)' % (name, n, last, logged if logger else None))
    ctx.event('sim_' + name)
    ctx.state(name, recipe_seed, last)


def family(ctx):
    """A chain of classes of which each may override the cached getters of the one before, calling it or not."""
    n = ctx.randint(1, 4)
    names = ['get_' + x for x in 'abc'[:ctx.randint(1, 3)]]
    rules = []
    classes = [Simulator]
    for depth in range(ctx.randint(2, 4)):
        body = {}
        for name in names:
            if depth and ctx.rng.random() < .3:
                continue
            plus = float(ctx.randint(1, 1000))
            up = bool(depth and ctx.rng.random() < .7)

            def getter(self, parent=classes[-1], name=name, plus=plus, up=up, depth=depth):
                return (getattr(parent, name)(self) if up else np.arange(self.n_households) * 1.) + plus * (1 + self.current_time_step)
            getter.__name__, getter.__qualname__ = name, 'Level%d.%s' % (depth, name)      # as a class statement does
            body[name] = cached_getter(getter)
            rules.append((depth, name, plus, up))
        classes.append(type('Level%d' % depth, (classes[-1],), body))
    return n, names, rules, classes[1:]


def value(rules, n, depth, name, step):
    for d, nm, plus, up in reversed(rules):
        if nm == name and d <= depth:
            return (value(rules, n, d - 1, name, step) if up else np.arange(n) * 1.) + plus * (1 + step)
    raise KeyError(name)


@S.scenario(120, 2500)
def overridden(ctx):
    n, names, rules, classes = family(ctx)
    ctx.case(n=n, rules=rules)
    sims = [cls(n) for cls in classes for _ in range(2)]
    for s in sims:
        s.initialize_starting_state()
    for step in range(ctx.randint(1, 5)):
        for _ in range(ctx.randint(1, 12)):
            i = ctx.randint(0, len(sims) - 1)
            depth = ctx.randint(0, i // 2)
            name = ctx.choice(names)
            k = ctx.randint(0, n - 1) if ctx.rng.random() < .4 else None
            got = getattr(classes[depth], name)(sims[i], k) if k is not None else getattr(classes[depth], name)(sims[i])
            want = value(rules, n, depth, name, step)
            ctx.eq(got, want if k is None else want[k], 'overridden', 'step %d: %s of level %d asked of a level %d simulator' % (step, name, depth, i // 2))
            ctx.event('overridden')
            again = getattr(classes[depth], name)(sims[i])
            ctx.eq(again, want, 'overridden', 'second time')
        for s in sims:
            s.step()
    ctx.state(len(rules), n)
