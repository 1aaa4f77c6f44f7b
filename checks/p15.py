"""P15 activity driven appliances."""
import contextlib
import datetime as dt
import warnings

import numpy as np

from vlib.core import Spec
from vlib.stats import fixed_draws, ALPHA, binom, gof
from checks.appl import ACTS, ALGOS, ALWAYS, BASE_TYPES, ApplData, check_power
from checks.p13 import FullData, mix, resolve
from demod.simulators.appliance_simulators import ActivityApplianceSimulator, ProbabiliticActivityAppliancesSimulator

S = Spec('P15', 'Activity and probabilistic appliance simulators over random appliances (following activities or other appliances), '
         'real profiles that name their position, starting probabilities of zero, one or between, and random activity histories; '
         'non-trivial = distinct data and run.',
         required=['follows_activity', 'stays_on', 'stopped', 'profile_value', 'profile_restart', 'prob_start', 'prob_cut',
                   'after_activity', 'after_appliance', 'delay', 'prob_statistics', 'start_probability', 'kept_out', 'profile_choice'])


def history(ctx, acts, hh, steps, p=.15, most=3):
    cur = {a: ctx.rng.integers(0, most, hh) for a in acts}
    out = [cur]
    for _ in range(steps):
        cur = {a: np.where(ctx.rng.random(hh) < p, ctx.rng.integers(0, most, hh), v) for a, v in cur.items()}
        out.append(cur)
    return out


def feeder(ctx):
    """Activities as new dictionaries and arrays, or always the same ones, overwritten by the user."""
    live, how = {}, ctx.choice(['new', 'same_arrays', 'same_dict'])

    def give(acts):
        if how == 'same_arrays' and live:
            for a, v in acts.items():
                live[a][:] = v
        else:
            live.update(ctx.counts(acts))
        return live if how != 'new' else dict(live)
    ctx.event('overwritten_inputs', how != 'new')
    return give


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


@S.scenario(150, 3000, weight=4)
def activity(ctx):
    data = ApplData(ctx, probabilistic=ctx.choice([None, .3]))
    hh, steps = ctx.choice([(ctx.randint(1, 5), ctx.randint(5, 120))] * 10 + [(ctx.randint(260, 500), 6), (2, 400)])
    ctx.event('district', hh > 255)
    acts = [a for a in ACTS if ctx.rng.random() < .8]
    algo = ctx.choice(ALGOS)
    hist = history(ctx, acts, hh, steps)
    ctx.case(salt=data.salt, hh=hh, steps=steps, acts=acts, algo=algo, types=data.app['type'], related=data.app['related_activity'],
             off=data.app['inactive_switch_off'])
    keep = np.isin(data.app['related_activity'], acts + list(ALWAYS))
    if 'probabilistic' in data.app:
        keep &= ~data.app['probabilistic']
    ctx.event('kept_out', (~keep).sum())
    if not keep.any():
        return
    app = {k: v[keep] for k, v in data.app.items()}
    ids = np.flatnonzero(keep)
    n = len(ids)
    give = feeder(ctx)
    sim = quiet(lambda: ActivityApplianceSimulator(hh, give(hist[0]), data, real_profiles_algo=algo,
                                                   equipped_sampling_algo=ctx.choice(['all', 'basic'])))
    owned = np.asarray(sim.available_appliances, bool)
    ctx.eq(list(sim.appliances['name']), list(app['name']), 'simulated-appliances')
    always = np.isin(app['related_activity'], ALWAYS)
    perf = lambda acts_: np.array([acts_[a] > 0 if a in acts_ else np.zeros(hh, bool) for a in app['related_activity']]).T
    used = perf(hist[0]) | always[None, :]
    var = data.variable(algo)[keep]
    pos, prof = np.full((hh, n), -1), {}
    for k in range(steps + 1):
        started = used & False
        if k:
            sim.step(give(hist[k]))
            now, before = perf(hist[k]), perf(hist[k - 1])
            started = now & ~before
            stopped = ~now & before & app['inactive_switch_off'][None, :]
            ctx.event('stays_on', (~now & used & ~always).sum())
            ctx.event('stopped', (stopped & owned).sum())
            ctx.event('follows_activity', (started & owned).sum())
            used = (used | started) & ~stopped
        usage = np.asarray(sim.get_current_usage())
        ctx.eq(usage, used & owned, 'usage', 'step %d' % k)
        power = check_power(ctx, app, owned, var, sim, usage)
        for h, i in np.argwhere(usage & var[None, :]):
            dec = data.decoded(ids[i], power[h, i])
            if not ctx.check(dec is not None and prof.setdefault((h, i), dec[0]) == dec[0], 'profile',
                             lambda: 'household %d appliance %d: %s is %s' % (h, i, power[h, i], dec)):
                return
            ctx.event('profile_value')
            if started[h, i]:
                want = 0
            elif pos[h, i] >= 0:
                want = (pos[h, i] + 1) % dec[2]
                if want == 0:
                    ctx.event('profile_restart')
            else:
                want = dec[1]         # running since before the start, any position
            ctx.eq(dec[1], want, 'profile-position', 'household %d appliance %d step %d' % (h, i, k))
            pos[h, i] = dec[1]
        pos[~(usage & var[None, :])] = -1
        ctx.state(algo, tuple(np.packbits(usage.ravel())))


@S.scenario(30, 400, weight=3)
def profile_choice(ctx):
    """Every appliance of every household draws its own profile; the ones that run from the start are anywhere in it."""
    data = ApplData(ctx)
    for kind in data.profiles.values():
        for t, x in kind.items():
            first = next(iter(x.values()))
            if first[0] != 7.:
                m = ctx.randint(2, 4)
                kind[t] = {'p%d' % j: first[0] // 10**6 * 10**6 + 1. + 10**4 * j + np.arange(ctx.randint(2, 40)) for j in range(m)}
    hh = ctx.choice([120, 250])
    algo = ctx.choice(['uniform', 'uniform', 'only_always_on', 'only_switched_on'])
    var = data.variable(algo)
    ctx.case(salt=data.salt, hh=hh, algo=algo, types=data.app['type'], related=data.app['related_activity'],
             profiles={k: {t: [len(v) for v in x.values()] for t, x in d.items()} for k, d in data.profiles.items()})
    if not var.any():
        return
    off, on = {a: np.zeros(hh, int) for a in ACTS}, {a: np.ones(hh, int) for a in ACTS}
    sim = quiet(lambda: ActivityApplianceSimulator(hh, off, data, real_profiles_algo=algo, equipped_sampling_algo='all'))
    before = np.asarray(sim.get_current_power_consumptions()).copy()
    sim.step(on)
    after = np.asarray(sim.get_current_power_consumptions())
    chosen = {}
    for i in np.flatnonzero(var):
        always = data.app['related_activity'][i] in ALWAYS
        dec = [data.decoded(i, v) for v in (before if always else after)[:, i]]
        if not ctx.check(None not in dec, 'choice-profile', lambda: 'appliance %d' % i):
            return
        names = sorted({k for k, _, _ in dec} | set(data.profiles['full' if always else 'switchedON'][data.app['type'][i]]))
        c = chosen[i] = np.array([names.index(k) for k, _, _ in dec])
        pv = gof(np.bincount(c, minlength=len(names)), np.full(len(names), 1 / len(names)))
        ctx.check(pv > ALPHA, 'choice-uniform', lambda: '%s of %d profiles: p=%g' % (np.bincount(c), len(names), pv))
        same = binom((c[1:] == c[:-1]).sum(), hh - 1, 1 / len(names))
        ctx.check(same > ALPHA, 'choice-households', lambda: 'neighbouring households agree: p=%g' % same)
        if always:
            for k in names:
                pos = np.array([q for n, q, _ in dec if n == k])
                size = len(data.profiles['full'][data.app['type'][i]][k])
                if size < 10 or len(pos) < 20:
                    continue
                for lo, hi in ((0, .5), (.5, 1), (0, .25), (.75, 1)):
                    f = ((pos >= lo * size) & (pos < hi * size)).sum()
                    # one position more or less does not matter
                    q = [max(0., (np.ceil(hi * size) - np.ceil(lo * size) + d) / size) for d in (-2, 2)]
                    ctx.check(not (f < len(pos) * q[0] and binom(f, len(pos), q[0]) < ALPHA or
                                   f > len(pos) * q[1] and binom(f, len(pos), min(q[1], 1.)) < ALPHA), 'first-position',
                              lambda: '%d of %d in %s-%s of %d' % (f, len(pos), lo, hi, size))
        ctx.event('profile_choice', hh)
    for i in chosen:
        for j in chosen:
            if i < j and data.app['type'][i] == data.app['type'][j]:
                m = max(chosen[i].max(), chosen[j].max()) + 1
                pv = binom((chosen[i] == chosen[j]).sum(), hh, 1 / m)
                ctx.check(pv > ALPHA, 'choice-appliances', lambda: 'appliances %d and %d agree: p=%g' % (i, j, pv))


class ProbData(FullData):
    """One-valued starting probabilities, appliances following activities and other appliances."""

    def __init__(self, ctx, values, follow):
        super().__init__(ctx, probabilistic=1., always=False, water=False)
        a, rng = self.app, ctx.rng
        self.values, self.follow = values, follow
        self.app['probabilistic'] = rng.random(self.n) < .85
        roots = [t for t in sorted(set(a['type'])) if not t.endswith('dryer')]
        if follow and self.n > 1:
            for i in range(self.n):
                if a['type'][i].endswith('dryer') and roots:
                    a['previous_appliance_type'][i] = ctx.choice(roots)
                elif rng.random() < .3:
                    a['previous_activity'][i] = ctx.choice(ACTS)
            # a follower is not started by its own activity; what it follows ends by itself
            chained = np.isin(a['type'], a['previous_appliance_type'])
            a['inactive_switch_off'] &= ~chained
        self.targets = {t: float(ctx.choice(values)) for t in BASE_TYPES}
        self.targets.update({t + '_2': float(ctx.choice(values)) for t in BASE_TYPES})

    def load_yearly_target_switchons(self, subgroup={}):
        return dict(self.targets)

    def probability(self, acts_prob, starts, residents, keep):
        """Documented starting probability: target number of uses over the number of opportunities."""
        a = {k: v[keep] for k, v in self.app.items()}
        target = resolve(a['type'], self.targets, a['target_switchons'])
        out = np.zeros(len(target))
        for i in range(len(target)):
            if a['previous_appliance_type'][i] != 'nan':
                tot = sum(target[a['type'] == a['previous_appliance_type'][i]])
                out[i] = target[i] / tot if tot else np.nan
            elif a['previous_activity'][i] != 'nan':
                s = starts[a['previous_activity'][i]]
                out[i] = target[i] / (365.25 * residents * sum(k * p for k, p in enumerate(s)))
            elif a['related_activity'][i] in acts_prob:
                steps = 365.25 * 1440 * np.mean(acts_prob[a['related_activity'][i]])
                out[i] = target[i] / max(steps - a['mean_duration'][i] * target[i], 1.)
        return out


@S.scenario(150, 3000, weight=4)
def probabilistic(ctx):
    data = ProbData(ctx, [0., 1e9], ctx.rng.random() < .7)
    hh, steps = ctx.choice([(ctx.randint(1, 5), ctx.randint(5, 150))] * 10 + [(ctx.randint(260, 400), 12)])
    ctx.event('district', hh > 255)
    acts = [a for a in ACTS if ctx.rng.random() < .9]
    algo = ctx.choice(ALGOS)
    keep = np.isin(data.app['related_activity'], acts) & data.app['probabilistic']
    a = {k: v[keep] for k, v in data.app.items()}
    # followers of appliances that are not simulated, or without target, have no probability
    if not keep.any():
        return
    prob = data.probability(data.load_activity_probabilities(), data.load_daily_activity_starts(), 2.3, keep)
    if np.isnan(prob).any() or ((prob > 0) & (prob < 1)).any():
        return
    if not data.follow and ctx.rng.random() < .3:       # data without the optional columns
        del data.app['previous_activity'], data.app['previous_appliance_type']
        if ctx.rng.random() < .5 and data.app['probabilistic'].all():
            del data.app['probabilistic']
    hist = history(ctx, acts, hh, steps)
    ctx.case(salt=data.salt, hh=hh, steps=steps, acts=acts, algo=algo, types=a['type'], related=a['related_activity'],
             prob=prob, delay=a['after_cycle_delay'], dur=a['mean_duration'], off=a['inactive_switch_off'],
             after_act=a['previous_activity'], after_app=a['previous_appliance_type'])
    give = feeder(ctx)
    sim = quiet(lambda: ProbabiliticActivityAppliancesSimulator(
        hh, give(hist[0]), data, real_profiles_algo=algo, equipped_sampling_algo='all'))
    n = keep.sum()
    ids = np.flatnonzero(keep)
    ctx.eq(list(sim.appliances['name']), list(a['name']), 'simulated-appliances')
    left = np.zeros((hh, n))
    ready = np.asarray(sim.n_steps_till_refresh).copy()
    ctx.check(((ready >= 0) & (ready <= np.maximum(a['after_cycle_delay'] - 1, 0))).all(), 'first-delay')
    follower = (a['previous_activity'] != 'nan') | (a['previous_appliance_type'] != 'nan')
    var = data.variable(algo)[keep]
    prof, pos = {}, np.zeros((hh, n), int)
    peek = ctx.rng.random() < .5
    # also with the lowest and the highest draws there are
    hostile = ctx.choice([None, None, 0., 1. - 2. ** -53])
    ctx.event('hostile_draw', hostile is not None)
    for k in range(1, steps + 1):
        if peek:
            sim.get_current_usage(), sim.get_power_demand()
        with fixed_draws(hostile) if hostile is not None else contextlib.nullcontext():
            sim.step(give(hist[k]))
        was = left > 0
        left[was] -= 1
        ready[ready > 0] -= 1
        pos[was] += 1
        ended = was & (left <= 0)
        power = np.asarray(sim.get_current_power_consumptions())
        starts, cuts = {}, set()

        def start(h, i):
            if left[h, i] > 0 or ready[h, i] > 0:
                return
            if not prob[i] > 0:
                return
            if var[i]:
                dec = data.decoded(ids[i], power[h, i])
                if (h, i) not in prof and dec is not None and dec[1] == 0:
                    prof[h, i] = dec[0], dec[2]
                d = prof[h, i][1] if (h, i) in prof else -1
            else:
                d = a['mean_duration'][i]
            left[h, i], ready[h, i], pos[h, i] = d, int(d + a['after_cycle_delay'][i]), 0

        for i in np.flatnonzero(a['previous_appliance_type'] != 'nan'):
            for h in np.flatnonzero(ended[:, a['type'] == a['previous_appliance_type'][i]].any(axis=1)):
                ctx.event('after_appliance')
                start(h, i)
        # activities are independent of each other, in any order
        skip = set()
        for x in acts:
            now, before = hist[k][x] > 0, hist[k - 1][x] > 0
            for h in np.flatnonzero(~now & before):
                for i in np.flatnonzero((a['related_activity'] == x) & a['inactive_switch_off']):
                    if left[h, i] > 0:
                        ctx.event('prob_cut')
                    left[h, i], ready[h, i] = 0, a['after_cycle_delay'][i]
                for i in np.flatnonzero(a['previous_activity'] == x):
                    ctx.event('after_activity')
                    start(h, i)
            for h in np.flatnonzero(now):
                for i in np.flatnonzero((a['related_activity'] == x) & ~follower):
                    if left[h, i] <= 0 and ready[h, i] > 0:
                        ctx.event('delay')
                    if left[h, i] <= 0 and prob[i] > 0 and ready[h, i] <= 0:
                        ctx.event('prob_start')
                    start(h, i)
        if not ctx.check((left >= 0).all() or (left > -1).all(), 'profile-start', lambda: 'a started appliance does not show the first value of a profile'):
            return
        usage = np.asarray(sim.get_current_usage())
        if not ctx.eq(usage, left > 0, 'usage', 'step %d' % k):
            return
        check_power(ctx, a, np.ones((hh, n), bool), var, sim, usage)
        for h, i in np.argwhere(usage & var[None, :]):
            ctx.eq(data.decoded(ids[i], power[h, i]), (prof[h, i][0], int(pos[h, i]), prof[h, i][1]), 'profile-position', 'step %d' % k)
            ctx.event('profile_value')
        ctx.state('p', algo, tuple(np.packbits(usage.ravel())))


@S.scenario(60, 1000, weight=2)
def start_probabilities(ctx):
    """The probability of a start is the target number of uses over the opportunities."""
    data = ProbData(ctx, [0., 1., 30., 365., 4000.], ctx.rng.random() < .6)
    acts_p = {}
    starts = {}

    def per(sub):
        g = data.gen({k: v for k, v in sub.items()}, 'p')
        return ({x: g.random(144) * g.choice([.01, .3, 1.]) for x in ACTS},
                {x: g.dirichlet(np.ones(ctx.randint(2, 2) + 2)) for x in ACTS})
    data.load_activity_probabilities = lambda s={}: per(s)[0]
    data.load_daily_activity_starts = lambda s={}: per(s)[1]
    subs, sizes = mix(ctx)
    use_subs = ctx.rng.random() < .7
    hh = sum(sizes)
    keep = data.app['probabilistic']
    ctx.case(salt=data.salt, subs=subs, sizes=sizes, use_subs=use_subs, types=data.app['type'])
    if not keep.any():
        return
    init = {x: np.zeros(hh, int) for x in ACTS}
    with np.errstate(all='ignore'):
        sim = quiet(lambda: ProbabiliticActivityAppliancesSimulator(
            hh, init, data, equipped_sampling_algo='all', **(dict(subgroups_list=subs, n_households_list=sizes) if use_subs else {})))
    at = 0
    for s, m in (zip(subs, sizes) if use_subs else [({}, hh)]):
        p, st = per(s)
        want = data.probability(p, st, s.get('n_residents', 2.3), keep)
        known = ~np.isnan(want)
        got = np.asarray(sim.switch_on_probs)[at:at + m]
        # whoever follows an appliance that is not simulated has no opportunity
        a = {k: v[keep] for k, v in data.app.items()}
        known &= ~((a['previous_appliance_type'] != 'nan') & ~np.isin(a['previous_appliance_type'], a['type']))
        ctx.close(got[:, known], np.tile(want[known], (m, 1)), 'probability', '%s: %s' % (s, a['type'][known].tolist()))
        ctx.event('start_probability', known.sum())
        at += m


@S.scenario(20, 250, weight=5)
def start_frequency(ctx):
    """Starts per opportunity follow the stated probability."""
    data = ProbData(ctx, [30., 365., 4000., 20000.], False)
    data.app['after_cycle_delay'] = data.app['after_cycle_delay'] * 0
    data.app['probabilistic'][:] = True
    data.app['mean_duration'] = np.minimum(data.app['mean_duration'], 5.)
    hh, steps = ctx.randint(20, 60), 150
    hist = history(ctx, ACTS, hh, steps, .1)
    ctx.case(salt=data.salt, hh=hh, types=data.app['type'], targets=data.targets)
    sim = quiet(lambda: ProbabiliticActivityAppliancesSimulator(hh, hist[0], data, equipped_sampling_algo='all'))
    a = data.app
    prob = np.minimum(data.probability(data.load_activity_probabilities(), {}, 2.3, np.ones(data.n, bool)), 1.)
    tries, hits = np.zeros(data.n), np.zeros(data.n)
    on = np.asarray(sim.get_current_usage()).copy()
    run = np.zeros((hh, data.n))
    for k in range(1, steps + 1):
        sim.step(hist[k])
        now = np.asarray(sim.get_current_usage())
        run = np.where(on, run + 1, 0)
        free = ~on | (run >= np.ceil(a['mean_duration']))
        perf = np.array([hist[k][x] > 0 for x in a['related_activity']]).T
        can = free & perf & (a['mean_duration'] > 0)
        tries += can.sum(0)
        hits += (can & now).sum(0)
        ctx.check(not (now & ~perf & free).any(), 'start-without-activity')
        run = np.where(can & now, 0, run)
        on = now
    for i in range(data.n):
        ctx.check(binom(hits[i], tries[i], prob[i]) > ALPHA, 'frequency', lambda: '%s: %d of %d, p=%s' % (a['type'][i], hits[i], tries[i], prob[i]))
    ctx.event('prob_statistics', tries.sum())
