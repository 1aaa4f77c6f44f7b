"""P13 appliance ownership and power of every appliance simulator."""
import contextlib
import datetime as dt
import warnings

import numpy as np

from vlib.core import Spec
from vlib.stats import fixed_draws, ALPHA, binom
from checks.appl import ACTS, ALGOS, BASE_TYPES, MINUTE, ApplData, check_power
from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.base_simulators import SimLogger
from demod.simulators.appliance_simulators import (
    ActivityApplianceSimulator, OccupancyApplianceSimulator, ProbabiliticActivityAppliancesSimulator)

S = Spec('P13', 'Occupancy, activity and probabilistic appliance simulators over random appliances, shipped German and CREST '
         'appliances, ownership methods, household mixes, profile algorithms and inputs; non-trivial = distinct data and run.',
         required=['power', 'in_use', 'standby', 'profile_value', 'owned', 'not_owned', 'ownership_draw', 'log', 'empty_house', 'refused', 'district', 'other_key'])


def resolve(types, table, default):
    """Probability of each appliance: k-th appliance of the closest known type."""
    count, out = {}, []
    for i, t in enumerate(types):
        parts = t.split('_')
        known = ['_'.join(parts[k:]) for k in range(len(parts)) if '_'.join(parts[k:]) in table]
        if not known:
            out.append(default[i])
            continue
        k = count[known[0]] = count.get(known[0], 0) + 1
        out.append(table.get(known[0] if k == 1 else '%s_%d' % (known[0], k), 0.))
    return np.array(out)


def build(ctx, cls, data, subs, sizes, acts, **kw):
    hh = sum(sizes)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if cls is OccupancyApplianceSimulator:
            return cls([dict(s) for s in subs], list(sizes), data, **kw)
        return cls(hh, {k: v.copy() for k, v in acts.items()}, data, subgroups_list=[dict(s) for s in subs],
                   n_households_list=list(sizes), **kw)


SIMS = [OccupancyApplianceSimulator, ActivityApplianceSimulator, ProbabiliticActivityAppliancesSimulator]


class FullData(ApplData):
    """Also the data of the probabilistic simulator."""

    def load_yearly_target_switchons(self, subgroup={}):
        g = self.gen({}, 'target')
        return {t: float(g.choice([0., 1e3, 1e9])) for t in BASE_TYPES}

    def load_activity_probabilities(self, subgroup={}):
        return {a: np.full(144, .3) for a in ACTS}

    def load_daily_activity_starts(self, subgroup={}):
        return {a: np.array([.2, .5, .3]) for a in ACTS}


def mix(ctx, most=3):
    n_sub = ctx.randint(1, 3)
    subs = [dict(n_residents=k + 1) for k in range(n_sub)]
    if ctx.rng.random() < .4:       # that differ in something else
        key = ctx.choice(['household_type', 'geographic_region', 'household_revenue', 'year'])
        subs = [{'n_residents': ctx.randint(1, 2), key: k} for k in range(n_sub)]
        ctx.event('other_key')
    sizes = [ctx.randint(1, most) for _ in subs]
    if ctx.rng.random() < .25:      # a subgroup nobody belongs to
        sizes[ctx.randint(0, n_sub - 1)] = 0
        ctx.event('empty_subgroup')
    return subs, sizes if sum(sizes) else [1 for _ in subs]


def keep_mask(cls, data, acts):
    """Appliances simulated by the simulator."""
    app = data.app
    if cls is OccupancyApplianceSimulator:
        return np.ones(data.n, bool)
    m = np.isin(app['related_activity'], list(acts) + ['level', 'constant'])
    if 'probabilistic' in app:
        m &= app['probabilistic'] == (cls is ProbabiliticActivityAppliancesSimulator)
    return m


@S.scenario(150, 3000, weight=4)
def stand_in(ctx):
    cls = ctx.choice(SIMS)
    data = FullData(ctx, probabilistic=None if cls is OccupancyApplianceSimulator else ctx.choice([0., .5, 1.]))
    district = ctx.rng.random() < .08
    subs, sizes = mix(ctx, 250 if district else 3)
    ctx.event('district', district)
    hh = sum(sizes)
    types = np.repeat(np.arange(len(subs)), sizes)
    names = [a for a in ACTS if ctx.rng.random() < .85]
    acts = {a: ctx.rng.integers(0, 2, hh) for a in names}
    algo = ctx.choice(ALGOS)
    equip = ctx.choice(['all', 'basic', 'subgroup', 'set_defined'])
    mask = keep_mask(cls, data, acts)
    app = {k: v[mask] for k, v in data.app.items()}
    sets = [[str(x) for x in data.app['name'] if ctx.rng.random() < .5] for _ in subs]
    ctx.case(cls=cls.__name__, sizes=sizes, algo=algo, equip=equip, salt=data.salt, types=data.app['type'], acts=names, sets=sets)
    log = SimLogger('get_power_demand', 'get_current_power_consumptions', aggregated=False) if ctx.rng.random() < .5 else None
    start = dt.datetime(2014, 3, ctx.randint(1, 28), 4, ctx.randint(0, 30))
    if not mask.any():
        return
    # also with the lowest and the highest draws there are
    hostile = ctx.choice([None, None, 0., 1. - 2. ** -53])
    with contextlib.nullcontext() if hostile is None else fixed_draws(hostile):
        sim = build(ctx, cls, data, subs, sizes, acts, real_profiles_algo=algo, equipped_sampling_algo=equip,
                    equipped_set_defined=sets, logger=log, start_datetime=start)
    ctx.event('hostile_draw', hostile is not None)
    owned = np.asarray(sim.available_appliances)
    ctx.eq(owned.shape, (hh, mask.sum()), 'ownership-shape')
    if equip == 'all':
        ctx.check(owned.all(), 'owned-all')
    elif equip == 'basic':
        p = np.broadcast_to(app['equipped_prob'], owned.shape)
    elif equip == 'subgroup':
        p = np.array([resolve(app['type'], data.ownership(s), app['equipped_prob']) for s in subs])[types]
    else:
        ctx.eq(owned, np.array([np.isin(app['name'], sets[t]) for t in types]).reshape(owned.shape), 'owned-set')
    if equip in ('basic', 'subgroup'):
        ctx.check(not (owned & (p <= 0)).any(), 'owned-at-zero', lambda: str((owned * 1, p)))
        ctx.check(owned[p >= 1].all(), 'not-owned-at-one', lambda: str((owned * 1, p)))
    ctx.event('owned', owned.sum())
    ctx.event('not_owned', (~owned).sum())
    var = data.variable(algo)[mask]
    hist = []
    prof = {}
    steps = ctx.randint(3, 9) if district else ctx.choice([30, 60, 300]) if ctx.rng.random() < .2 else ctx.randint(3, 60)
    for k in range(steps + 1):
        if k:
            if cls is OccupancyApplianceSimulator:
                occ = ctx.rng.integers(0, 3, hh)
                sim.step(ctx.counts(occ, slot='occ'))
            else:
                acts = {a: np.where(ctx.rng.random(hh) < .2, ctx.rng.integers(0, 3, hh), v) for a, v in acts.items()}
                sim.step(ctx.counts(acts, slot='acts'))
        usage = np.asarray(sim.get_current_usage())
        power = check_power(ctx, app, owned, var, sim, usage)
        hist.append(power)
        ctx.event('standby', (~usage & owned & (app['standby_consumption'] > 0)).sum())
        ids = np.flatnonzero(mask)
        for h, i in np.argwhere(usage & var[None, :]):
            dec = data.decoded(ids[i], power[h, i])
            if ctx.check(dec is not None and prof.setdefault((h, i), dec[0]) == dec[0], 'profile-value',
                         lambda: 'household %d appliance %d: %s is %s' % (h, i, power[h, i], dec)):
                ctx.event('profile_value')
        if k and cls is OccupancyApplianceSimulator:
            cut = (occ == 0)[:, None] & app['inactive_switch_off'][None, :]
            ctx.check(not (usage & cut).any(), 'used-in-empty-house')
            ctx.event('empty_house', cut.sum())
        ctx.state(cls.__name__, algo, tuple(np.packbits(usage.ravel())))
        ctx.eq(sim.available_appliances, owned, 'ownership-constant')
    if log is not None:
        ctx.close(sim.logger.get('get_current_power_consumptions'), np.array(hist[:-1]), 'log')
        ctx.close(sim.logger.get('get_power_demand'), np.array(hist[:-1]).sum(-1), 'log-household')
        ctx.event('log')


@S.scenario(16, 200, weight=4)
def ownership_frequency(ctx):
    data = FullData(ctx, n=6)
    data.app['equipped_prob'] = np.round(ctx.rng.random(6), 2)
    g = {}
    for s in (1, 2):
        g[s] = {t: float(np.round(ctx.rng.random(), 2)) for t in BASE_TYPES}
        g[s].update({t + '_2': float(np.round(ctx.rng.random(), 2)) for t in BASE_TYPES})
    data.ownership = lambda sub: g[sub['n_residents']]
    equip = ctx.choice(['basic', 'subgroup'])
    sizes = [ctx.randint(400, 1500), ctx.randint(400, 1500)]
    ctx.case(equip=equip, sizes=sizes, types=data.app['type'], tables=g)
    sim = build(ctx, OccupancyApplianceSimulator, data, [{'n_residents': 1}, {'n_residents': 2}], sizes, {},
                equipped_sampling_algo=equip, start_datetime=dt.datetime(2014, 1, 1, 4))
    owned = np.asarray(sim.available_appliances)
    at = 0
    for s, n in zip((1, 2), sizes):
        p = data.app['equipped_prob'] if equip == 'basic' else resolve(data.app['type'], g[s], data.app['equipped_prob'])
        cnt = owned[at:at + n].sum(0)
        for i in range(6):
            ctx.check(binom(cnt[i], n, p[i]) > ALPHA, 'frequency', lambda: 'appliance %s: %d of %d, p=%s' % (data.app['type'][i], cnt[i], n, p[i]))
        # ownership of two appliances of probability inside (0, 1) is drawn independently
        mid = [i for i in range(6) if .2 < p[i] < .8]
        for i, j in zip(mid[:-1], mid[1:]):
            both = (owned[at:at + n, i] & owned[at:at + n, j]).sum()
            ctx.check(binom(both, n, p[i] * p[j]) > ALPHA, 'independent', lambda: '%d of %d, p=%s' % (both, n, p[i] * p[j]))
        at += n
        ctx.event('ownership_draw', n * 6)


@S.scenario(10, 150, weight=8)
def shipped(ctx):
    which = ctx.choice(['german', 'german', 'crest'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        data = GermanDataHerus(ctx.choice(['v0.1', 'vBottaccioli'])) if which == 'german' else Crest()
        app = data.load_appliance_dict()
    cls = ctx.choice(SIMS) if which == 'german' else OccupancyApplianceSimulator
    if cls is not OccupancyApplianceSimulator:
        data = GermanDataHerus('vBottaccioli')
        app = data.load_appliance_dict()
    if which == 'crest':
        subs, equip = [{'n_residents': ctx.randint(1, 5)}], ctx.choice(['basic', 'all'])
        algo = ctx.choice(['nothing', 'only_switched_on'])
    else:
        subs, equip = [{'n_residents': ctx.randint(1, 4)} for _ in range(ctx.randint(1, 2))], ctx.choice(['basic', 'subgroup', 'all'])
        algo = 'nothing'
        subs = [dict(zip(('household_type', 'n_residents'), ctx.choice([(1, 1), (2, 2), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4), (4, 5)])))
                for _ in subs]
        if cls is ProbabiliticActivityAppliancesSimulator:
            for s in subs:
                s['weekday'] = [1, 2, 3, 4, 5]
    sizes = [ctx.randint(1, 30) for _ in subs]
    hh = sum(sizes)
    start = dt.datetime(2014, ctx.randint(1, 12), ctx.randint(1, 28), ctx.randint(0, 23), ctx.randint(0, 59))
    ctx.case(which=which, cls=cls.__name__, subs=subs, sizes=sizes, equip=equip, algo=algo, start=str(start))
    acts = {a: ctx.rng.integers(0, 2, hh) for a in sorted(set(app['related_activity'].tolist()) - {'level', 'constant'})}
    sim = build(ctx, cls, data, subs, sizes, acts, real_profiles_algo=algo, equipped_sampling_algo=equip, start_datetime=start)
    mask = np.ones(app['number'], bool)
    if cls is not OccupancyApplianceSimulator:
        mask = app['probabilistic'] == (cls is ProbabiliticActivityAppliancesSimulator)
    app = {k: v[mask] for k, v in app.items() if k != 'number'}
    owned = np.asarray(sim.available_appliances)
    if equip == 'all':
        ctx.check(owned.all(), 'owned-all')
    prof = data.load_real_profiles_dict('switchedON') if algo != 'nothing' else {}
    var = np.isin(app['type'], list(prof)) & ~np.isin(app['related_activity'], ['level', 'constant'])
    ctx.event('not_owned', (~owned).sum())
    occ = ctx.rng.integers(0, 3, hh)
    for k in range(ctx.randint(200, 700)):
        if ctx.rng.random() < .1:
            occ = ctx.rng.integers(0, 3, hh)
            acts = {a: ctx.rng.integers(0, 2, hh) for a in acts}
        sim.step(occ if cls is OccupancyApplianceSimulator else {a: v.copy() for a, v in acts.items()})
        usage = np.asarray(sim.get_current_usage())
        power = check_power(ctx, app, owned, var, sim, usage)
        for h, i in np.argwhere(usage & var[None, :]):
            ctx.check(any((np.asarray(v) == power[h, i]).any() for v in prof[app['type'][i]].values()), 'profile-value',
                      lambda: '%s is in no %s profile' % (power[h, i], app['type'][i]))
            ctx.event('profile_value')
        if cls is OccupancyApplianceSimulator:
            ctx.check(not usage[np.ix_(occ == 0, app['inactive_switch_off'])].any(), 'used-in-empty-house')
        ctx.check((power >= 0).all(), 'negative-power')
        ctx.finite(power, 'finite-power')


@S.scenario(20, 100)
def refused(ctx):
    data = FullData(ctx, n=3, probabilistic=.5)
    ctx.case(salt=data.salt)
    mk = lambda **k: OccupancyApplianceSimulator([{'n_residents': 1}], [2], data, start_datetime=dt.datetime(2014, 1, 1, 4), **k)
    ctx.raises(ValueError, lambda: mk(equipped_sampling_algo='x'), 'ownership-algo')
    ctx.raises(NotImplementedError, lambda: mk(equipped_sampling_algo='correlated'), 'ownership-correlated')
    ctx.raises(ValueError, lambda: mk(real_profiles_algo='x'), 'profile-algo')
    ctx.raises(ValueError, lambda: mk(step_size=dt.timedelta(minutes=10)), 'step-size')
    def none(profiles_type='full'):
        raise NotImplementedError(profiles_type)
    keep, data.load_real_profiles_dict = data.load_real_profiles_dict, none
    for algo in ('uniform', 'only_always_on', 'only_switched_on'):
        ctx.raises(NotImplementedError, lambda: mk(real_profiles_algo=algo), 'no-profiles', algo)
    mk(real_profiles_algo='nothing')
    data.load_real_profiles_dict = keep
    acts = {a: np.zeros(3, int) for a in ACTS}
    mk = lambda **k: ActivityApplianceSimulator(3, acts, data, **k)
    ctx.raises(AttributeError, lambda: mk(subgroups_list=[{'n_residents': 1}]), 'only-subgroups')
    ctx.raises(AttributeError, lambda: mk(n_households_list=[3]), 'only-numbers')
    ctx.raises(ValueError, lambda: mk(n_households_list=[2], subgroups_list=[{'n_residents': 1}]), 'numbers-do-not-add-up')
    good = OccupancyApplianceSimulator([{'n_residents': 1}], [2], data, start_datetime=dt.datetime(2014, 1, 1, 4))
    ctx.raises(AssertionError, lambda: good.step(np.zeros(3, int)), 'occupancy-length')
    data.load_activity_probability_profiles = lambda s: {'nope': np.zeros((144, 7))}
    ctx.raises(ValueError, lambda: OccupancyApplianceSimulator([{'n_residents': 1}], [2], data, start_datetime=dt.datetime(2014, 1, 1, 4)),
               'missing-activity')
    ctx.event('refused')
