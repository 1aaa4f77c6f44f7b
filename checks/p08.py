"""P08 household occupancy accounting of the activity simulators."""
import datetime as dt
import os
import warnings

import numpy as np

from vlib.core import Spec
from vlib.stats import rand_pdf
from checks.p07 import IndividualData, random_start
from checks.p09 import SemiData
from demod.simulators.base_simulators import SimLogger
from demod.simulators.activity_simulators import (
    MarkovChain1rstOrder, SemiMarkovSimulator, SubgroupsIndividualsActivitySimulator)
from demod.simulators.crest_simulators import Crest4StatesModel, CrestOccupancySimulator
from demod.simulators.sparse_simulators import SparseTransitStatesSimulator, SubgroupsActivitySimulator
from demod.utils.subgroup_handling import subgroup_string

S = Spec('P08', 'Activity simulators over random household mixes, data (shipped time-use data and random stand-ins), starts and run '
         'lengths; the household accounting is recomputed at every step from the persons\' states; non-trivial = distinct mix and run.',
         required=['household_step', 'individuals', 'crest', 'sparse', 'semi', 'away', 'asleep', 'district'])

ACTIVE, DORMANT = 147., 84.


class RandomIndividuals(IndividualData):
    """Stochastic matrices, so that the persons of a subgroup differ."""

    def load_tpm(self, subgroup):
        g = self.gen(subgroup)
        n = len(self.labels)
        tpm = g.dirichlet(np.full(n, .4), (144, n))
        return tpm, self.labels.copy(), g.dirichlet(np.ones(n))

    def load_tpm_with_duration(self, subgroup):
        tpm, lab, p0 = self.load_tpm(subgroup)
        g = self.gen(subgroup)
        n = len(lab)
        return tpm, g.dirichlet(np.full(6, .5), (144, n, n) if self.base else (144, n)), lab, p0, g.dirichlet(np.ones(6), n)


TYPES = [{'n_residents': 1}, {'n_residents': 1, 'household_type': 1}, {'n_residents': 2, 'household_type': 2},
         {'n_residents': 2, 'household_type': 3}, {'n_residents': 4, 'household_type': 3}, {'n_residents': 3, 'household_type': 4},
         {'n_residents': 5, 'household_type': 4}, {'n_residents': 3}, {'n_residents': 2, 'household_type': 2, 'income': 'low'}]


def n_persons(sub):
    return sub['n_residents']


@S.scenario(110, 1800, weight=5)
def individuals(ctx):
    semi = bool(ctx.rng.random() < .4)
    shipped = bool(ctx.rng.random() < .25)
    opts = {}
    if shipped:
        from demod.datasets.GermanTOU.loader import GTOU
        data = GTOU('DemodActivities_0')
        pool = [t for t in TYPES if 'household_type' in t and 'income' not in t and t['household_type'] > 1] + [{'n_residents': 1}]
        labels = None
    else:
        labels = ['away', 'sleeping', 'cook', 'tv', 'x'][:ctx.randint(2, 5)]
        labels = [labels[i] for i in ctx.rng.permutation(len(labels))]
        data = RandomIndividuals(ctx, labels, bool(ctx.rng.random() < .5), ctx.choice([dt.time(4), dt.time(0)]))
        opts = ctx.choice([{}, {'use_week_ends_days': True}, {'use_quarters': True}])
        pool = TYPES
    if shipped:
        pool = [{'n_residents': 2, 'household_type': 2}, {'n_residents': 3, 'household_type': 4},
                {'n_residents': 3, 'household_type': 3}] if semi or ctx.rng.random() < .7 else \
            [{'n_residents': 2, 'household_type': 2}, {'n_residents': 4, 'household_type': 4}]
    k = ctx.randint(1, min(4, len(pool)))
    subs = [dict(pool[i]) for i in ctx.rng.choice(len(pool), k, replace=False)]
    n_hh = [ctx.randint(1, 6) for _ in subs]
    start = random_start(ctx)
    if shipped:
        start = start.replace(hour=ctx.choice([4, 5]))
    steps = ctx.choice([20, 60, 160])
    if ctx.rng.random() < .12:      # a district
        n_hh, steps = [ctx.randint(80, 400) for _ in subs], ctx.choice([6, 20])
        ctx.event('district')
    ctx.case(semi=semi, shipped=shipped, labels=labels, subs=subs, n_hh=n_hh, start=str(start), steps=steps, opts=opts)
    keep = repr((subs, n_hh))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        log = SimLogger('get_occupancy', 'get_active_occupancy', 'get_activity_states', aggregated=False) if ctx.rng.random() < .4 else None
        sim = SubgroupsIndividualsActivitySimulator(subs, n_hh, subsimulator=SemiMarkovSimulator if semi else MarkovChain1rstOrder,
                                                    data=data, start_datetime=start, logger=log, **opts)
    ctx.eq(repr((subs, n_hh)), keep, 'inputs-untouched')
    res = np.concatenate([[s['n_residents']] * n for s, n in zip(subs, n_hh)])
    ctx.eq(sim.n_residents, res, 'n-residents')
    ctx.eq(sum(s.n_households for s in sim.simulators), int(res.sum()), 'persons-total')
    ctx.eq(sim.n_households, sum(n_hh), 'n-households')
    ctx.eq(np.bincount(sim.hh_of_persons, minlength=len(res)), res, 'persons-per-household')
    hist = []
    for i in range(steps + 1):
        labs = list(sim.activity_labels)
        per = {a: np.asarray(sim.get_n_doing_activity(a)) for a in labs}
        tot = sum(per.values())
        ctx.event('household_step', len(res))
        ctx.event('individuals')
        if semi:
            ctx.event('semi')
        if not ctx.eq(tot, res, 'activities-add-up', 'step %d' % i):
            return
        # recount from the state of every person
        persons = np.concatenate([np.asarray(s.state_labels)[s.current_states] for s in sim.simulators])
        for a in labs:
            ctx.eq(per[a], np.bincount(sim.hh_of_persons[persons == a], minlength=len(res)), 'activity-count', a)
        away, asleep = per['away'], per['sleeping']
        ctx.event('away', away.sum())
        ctx.event('asleep', asleep.sum())
        order = ctx.randint(0, 2)
        if order == 0:
            occ, act = sim.get_occupancy(), sim.get_active_occupancy()
        else:
            act, occ = sim.get_active_occupancy(), sim.get_occupancy()
        ctx.eq(occ, res - away, 'occupancy', 'step %d' % i)
        ctx.eq(act, res - away - asleep, 'active-occupancy', 'step %d' % i)
        st = sim.get_activity_states()
        ctx.eq(sorted(st), sorted(labs + ['active_occupancy']), 'states-keys')
        for a in labs:
            ctx.eq(st[a], per[a], 'states-dict', a)
        ctx.eq(st['active_occupancy'], act, 'states-dict', 'active_occupancy')
        two = [ctx.choice(labs), ctx.choice(labs)]
        got = sim.get_n_doing_activity(two)
        ctx.check(len(got) == 2 and all(np.array_equal(g, per[a]) for g, a in zip(got, two)), 'activity-list')
        ctx.eq(sim.get_performing_activity(two[0]), per[two[0]], 'performing')
        hist.append((np.array(occ), np.array(act)))
        ctx.state(tuple(away[:4]), tuple(asleep[:4]))
        if i < steps:
            sim.step()
    if log is not None:
        ctx.eq(sim.logger.get('get_occupancy'), np.array([h[0] for h in hist[:-1]]), 'log-occupancy')
        ctx.eq(sim.logger.get('get_active_occupancy'), np.array([h[1] for h in hist[:-1]]), 'log-active')


def accounting(ctx, sim, res, i):
    """Common envelope; the order of the getters is random, since some are cached."""
    vals = {}
    for name in [['get_occupancy', 'get_active_occupancy', 'get_thermal_gains'][j] for j in ctx.rng.permutation(3)]:
        vals[name] = np.asarray(getattr(sim, name)())
    occ, act, heat = (vals[n] for n in ('get_occupancy', 'get_active_occupancy', 'get_thermal_gains'))
    ctx.event('household_step', len(res))
    ok = ctx.check(occ.shape == act.shape == heat.shape == (len(res),), 'shapes', lambda: '%s %s %s' % (occ.shape, act.shape, heat.shape))
    if not ok:
        return None
    occ, act = occ.astype(int), act.astype(int)
    ctx.check(((occ >= 0) & (occ <= res)).all(), 'occupancy-range', lambda: 'step %d %s of %s' % (i, occ, res))
    ctx.check(((act >= 0) & (act <= occ)).all(), 'active-range', lambda: 'step %d %s of %s' % (i, act, occ))
    ctx.close(heat, ACTIVE * act + DORMANT * (occ - act), 'thermal-gains', 'step %d occ %s act %s' % (i, occ, act))
    ctx.event('away', (res - occ).sum())
    ctx.event('asleep', (occ - act).sum())
    ctx.state(tuple(occ[:5]), tuple(act[:5]))
    return occ, act


@S.scenario(50, 700, weight=4)
def crest(ctx):
    from demod.datasets.CREST.loader import Crest
    start = random_start(ctx)
    n, steps = ctx.randint(1, 60), ctx.choice([20, 60, 150])
    if ctx.rng.random() < .1:
        n, steps = ctx.randint(260, 1500), 20
        ctx.event('district')
    single = bool(ctx.rng.random() < .35)
    r = ctx.randint(1, 5)
    ctx.case(start=str(start), n=n, steps=steps, single=single, r=r)
    log = SimLogger('get_occupancy', 'get_active_occupancy', 'get_thermal_gains', aggregated=False)
    if single:
        sim = CrestOccupancySimulator(n, r, ctx.choice(['d', 'e']), data=Crest(), logger=log)
        res = np.full(n, r)
    else:
        sim = Crest4StatesModel(n, data=Crest(), start_datetime=start, logger=log)
        res = np.asarray(sim.n_residents)
        ctx.check(len(res) == n and ((res >= 1) & (res <= 5)).all(), 'residents')
        for k in range(1, 6):
            ctx.eq(sim.get_mask_subgroup({'n_residents': k}), res == k, 'mask-subgroup')
    hist = []
    for i in range(steps + 1):
        got = accounting(ctx, sim, res, i)
        if got is None:
            return
        labs = sim.state_labels[sim.current_states] if single else sim.get_states_labeled()
        ctx.eq(got[0], labs // 10, 'occupancy')
        ctx.eq(got[1], np.minimum(labs // 10, labs % 10), 'active')
        hist.append(got)
        ctx.event('crest')
        if i < steps:
            sim.step()
    ctx.eq(sim.logger.get('get_occupancy'), np.array([h[0] for h in hist[:-1]]), 'log-occupancy')
    ctx.eq(sim.logger.get('get_active_occupancy'), np.array([h[1] for h in hist[:-1]]), 'log-active')


@S.scenario(50, 700, weight=4)
def sparse(ctx):
    from demod.datasets.GermanTOU.loader import GTOU
    data = GTOU('Sparse9States')
    have = set(os.listdir(data.parsed_path_activity))
    pool = [{'n_residents': r, 'household_type': h} for r in range(1, 6) for h in range(1, 5)] + [{'n_residents': 2}]
    pool = [b for b in pool if all(subgroup_string({**b, **d}) + '.npz' in have for d in
                                   [{}, {'quarter': None, 'weekday': [6, 7]}, {'quarter': None, 'weekday': [1, 2, 3, 4, 5]}])]
    k = ctx.randint(1, 3)
    subs = [dict(ctx.choice(pool)) for _ in range(k)]
    n_hh = [ctx.choice([0, 1, 2, 9]) for _ in subs]
    if sum(n_hh) == 0:
        n_hh[0] = 3
    aware = bool(ctx.rng.random() < .6)
    start = random_start(ctx)
    steps = ctx.choice([20, 60, 200])
    if ctx.rng.random() < .1:
        n_hh, steps = [ctx.randint(100, 500) for _ in subs], 20
        ctx.event('district')
    ctx.case(subs=subs, n_hh=n_hh, aware=aware, start=str(start), steps=steps)
    kw = {'start_datetime': start} if aware else {}
    log = SimLogger('get_occupancy', 'get_active_occupancy', 'get_thermal_gains', aggregated=False)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if ctx.rng.random() < .7:
            sim = SubgroupsActivitySimulator(subs, n_hh, data=data, logger=log, **kw)
            res = np.concatenate([[s['n_residents']] * n for s, n in zip(subs, n_hh)]).astype(int)
            parts = sim.simulators
        else:
            n_hh = [n_hh[0] or 2]
            sim = SparseTransitStatesSimulator(n_hh[0], subs[0], data=data, logger=log, **kw)
            res = np.full(n_hh[0], subs[0]['n_residents'])
            parts = [sim]
        hist = []
        for i in range(steps + 1):
            got = accounting(ctx, sim, res, i)
            if got is None:
                return
            labs = np.concatenate([p.state_labels[p.current_states] for p in parts]).astype(np.int64)
            digit = {a: np.concatenate([p.state_labels[p.current_states].astype(np.int64) // 7 ** list(p.activity_labels).index(a) % 7
                                        for p in parts]) for a in ('HWH', 'HOH', 'active')}
            ctx.eq(got[0], res - digit['HWH'] - digit['HOH'], 'occupancy')
            ctx.eq(got[1], np.minimum(got[0], digit['active']), 'active')
            for a in digit:
                ctx.eq(np.asarray(sim.get_n_doing_activity(a)).astype(int), digit[a], 'doing', a)
            g = sim.get_n_doing_activity(['HWH', 'active'])
            ctx.check(np.array_equal(np.asarray(g[0], int), digit['HWH']) and np.array_equal(np.asarray(g[1], int), digit['active']), 'doing-list')
            hist.append(got)
            ctx.event('sparse')
            if i < steps:
                sim.step()
        ctx.eq(np.asarray(sim.logger.get('get_occupancy')).astype(int), np.array([h[0] for h in hist[:-1]]), 'log-occupancy')
        ctx.eq(np.asarray(sim.logger.get('get_active_occupancy')).astype(int), np.array([h[1] for h in hist[:-1]]), 'log-active')
        ctx.raises(ValueError, lambda: parts[0].get_n_doing_state('no such activity'), 'unknown-activity')
        ctx.raises(TypeError, lambda: sim.get_n_doing_state(1.5), 'state-type')
