"""P16 hot water use of the appliances."""
import datetime as dt
import warnings

import numpy as np
from scipy import stats

from vlib.core import Spec
from vlib.stats import ALPHA, gof
from checks.appl import ACTS, MINUTE, ApplData
from checks.p13 import FullData, build, mix, SIMS, keep_mask
from checks.p15 import ProbData
from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.appliance_simulators import OccupancyApplianceSimulator, ProbabiliticActivityAppliancesSimulator

S = Spec('P16', 'Water fixtures with random flows and mean volumes in every appliance simulator, random uses; volumes of completed '
         'uses are collected from the observed flows; non-trivial = distinct data and run.',
         required=['flow', 'use_volume', 'partial_minute', 'heat', 'duration_draw', 'dry'])

W_PER_LPM = 4200. / 60.        # J/kg/K times kg/s of one litre per minute


def check_heat(ctx, sim, water):
    ctx.close(sim.get_dhw_heating_demand(), water.sum(axis=1) * W_PER_LPM, 'heat-demand')
    ctx.check((water >= 0).all(), 'negative-flow')
    ctx.event('heat', (water > 0).sum())


@S.scenario(60, 1000, weight=4)
def volumes(ctx):
    """Every use of the occupancy simulator delivers a whole number of litres drawn around the mean."""
    data = ApplData(ctx, dt.time(4), n=ctx.randint(1, 5))
    a, n = data.app, data.n
    wet = ctx.rng.random(n) < .7
    wet[0] = True
    a['related_activity'] = np.array([ctx.choice(ACTS) for _ in range(n)])
    data.profiles = {'switchedON': {}, 'full': {}}
    a['uses_water'] = wet
    a['mean_water_consumption'] = np.where(wet, np.round(ctx.rng.uniform(.5, 14, n), 3), 0)
    lam = np.where(wet, np.round(ctx.rng.choice([.3, 2., 8., 40.]) * ctx.rng.uniform(.5, 2, n), 2), 0)
    a['poisson_sampling_lambda_liters'] = lam
    a['after_cycle_delay'] = np.array([ctx.randint(2, 4) for _ in range(n)])
    a['inactive_switch_off'][:] = False
    a['switch_on_prob_crest'] = ctx.rng.choice([.2, .6, 1.], n)
    data.act_pdf = lambda sub: {x: np.ones((144, 7)) for x in ACTS}
    hh, steps = ctx.randint(20, 60), ctx.randint(100, 250)
    ctx.case(lam=lam, flow=a['mean_water_consumption'], hh=hh, steps=steps, p=a['switch_on_prob_crest'])
    sim = OccupancyApplianceSimulator([{'n_residents': 2}], [hh], data, start_datetime=dt.datetime(2014, 1, 6, 4, 0), equipped_sampling_algo='all')
    flow = a['mean_water_consumption']
    vol = np.zeros((hh, n))
    done = [[] for _ in range(n)]
    for k in range(steps):
        sim.step(np.ones(hh, int))
        water = np.asarray(sim.get_current_water_consumptions())
        usage = np.asarray(sim.get_current_usage())
        ctx.check((water[:, ~wet] == 0).all(), 'dry-appliance')
        ctx.check(((water > 0) == (usage & wet)).all(), 'flow-only-in-use')
        ctx.check((water <= flow + 1e-9).all(), 'above-nominal-flow')
        ctx.event('dry', (~usage).sum())
        ctx.event('flow', (water > 0).sum())
        ctx.event('partial_minute', ((water > 0) & (water < flow - 1e-9)).sum())
        check_heat(ctx, sim, water)
        for h, i in np.argwhere((vol > 0) & ~usage & wet):
            done[i].append(vol[h, i])
            vol[h, i] = 0
        vol += water
    for i in np.flatnonzero(wet):
        v = np.array(done[i])
        if not len(v):
            continue
        ctx.event('use_volume', len(v))
        ctx.check(np.abs(v - np.round(v)).max() < 1e-6, 'whole-litres', lambda: str(v[:10]))
        # uses longer than the run are not completed: condition on short enough draws
        cap = min(flow[i] * 12, 400)
        v = np.round(v).astype(int)
        # only the draws that certainly fit; the first of each household
        if stats.poisson.sf(cap, lam[i]) < 1e-4 and len(v) > 60:
            top = int(stats.poisson.ppf(1 - 1e-7, lam[i])) + 1
            p = stats.poisson.pmf(np.arange(top + 1), lam[i])
            p[0] = 0.                      # empty uses are not visible
            cnt = np.bincount(np.minimum(v, top), minlength=top + 1)
            p[top] = stats.poisson.sf(top - 1, lam[i])
            ctx.check(gof(cnt, p) > ALPHA, 'volume-distribution', lambda: 'mean %s, expected %s' % (v.mean(), lam[i] / (1 - np.exp(-lam[i]))))


@S.scenario(40, 600, weight=4)
def duration_of_uses(ctx):
    """The probabilistic simulator keeps the fixtures open for the time of the drawn volume."""
    data = ProbData(ctx, [1e9], False)
    n = data.n
    a = data.app
    data.profiles = {'switchedON': {}, 'full': {}}
    a['probabilistic'][:] = True
    wet = ctx.rng.random(n) < .7
    wet[0] = True
    a['related_activity'] = np.array([ctx.choice(ACTS) for _ in range(n)])
    a['uses_water'] = wet
    a['mean_water_consumption'] = np.where(wet, np.round(ctx.rng.uniform(.5, 14, n), 3), 0)
    a['poisson_sampling_lambda_liters'] = lam = np.where(wet, np.round(ctx.rng.uniform(3, 40, n), 2), 0)
    a['after_cycle_delay'] = np.array([ctx.randint(2, 4) for _ in range(n)])
    a['inactive_switch_off'][:] = False
    hh, steps = ctx.randint(30, 80), ctx.randint(80, 160)
    flow = a['mean_water_consumption']
    ctx.case(lam=lam, flow=flow, hh=hh, steps=steps)
    acts = {x: np.ones(hh, int) for x in ACTS}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sim = ProbabiliticActivityAppliancesSimulator(hh, acts, data, equipped_sampling_algo='all')
    run = np.zeros((hh, n), int)
    done = [[] for _ in range(n)]
    for k in range(steps):
        sim.step(acts)
        usage = np.asarray(sim.get_current_usage())
        water = np.asarray(sim.get_current_water_consumptions())
        ctx.close(water, usage * flow, 'flow')
        ctx.event('flow', (water > 0).sum())
        check_heat(ctx, sim, water)
        for h, i in np.argwhere((run > 0) & ~usage):
            done[i].append(run[h, i])
            run[h, i] = 0
        run += usage
    for i in np.flatnonzero(wet):
        v = np.array(done[i], int)
        top = int(np.ceil(stats.poisson.ppf(1 - 1e-7, lam[i]) / flow[i])) + 1
        if len(v) < 60 or top > steps / 8:
            continue
        p = np.zeros(top + 1)
        for vol in range(1, int(top * flow[i]) + 1):
            p[min(int(np.ceil(vol / flow[i] - 1e-12)), top)] += stats.poisson.pmf(vol, lam[i])
        ctx.check(gof(np.bincount(np.minimum(v, top), minlength=top + 1), p) > ALPHA, 'duration-distribution',
                  lambda: 'mean %s minutes for %s litres at %s' % (v.mean(), lam[i], flow[i]))
        ctx.event('duration_draw', len(v))


@S.scenario(40, 700, weight=3)
def every_simulator(ctx):
    cls = ctx.choice(SIMS)
    data = FullData(ctx, probabilistic=None if cls is OccupancyApplianceSimulator else ctx.choice([0., 1., .5]))
    subs, sizes = mix(ctx)
    hh = sum(sizes)
    acts = {a: ctx.rng.integers(0, 2, hh) for a in ACTS}
    mask = keep_mask(cls, data, acts)
    ctx.case(cls=cls.__name__, salt=data.salt, sizes=sizes)
    if not mask.any():
        return
    sim = build(ctx, cls, data, subs, sizes, acts, equipped_sampling_algo=ctx.choice(['all', 'basic']),
                start_datetime=dt.datetime(2014, 5, 5, 4))
    flow = data.app['mean_water_consumption'][mask]
    owned = np.asarray(sim.available_appliances)
    for k in range(ctx.randint(5, 80)):
        if k:
            if cls is OccupancyApplianceSimulator:
                sim.step(ctx.counts(ctx.rng.integers(0, 3, hh), slot='occ'))
            else:
                acts = {a: np.where(ctx.rng.random(hh) < .2, ctx.rng.integers(0, 3, hh), v) for a, v in acts.items()}
                sim.step(ctx.counts(acts, slot='acts'))
        usage, water = np.asarray(sim.get_current_usage()), np.asarray(sim.get_current_water_consumptions())
        full = usage * flow
        if cls is OccupancyApplianceSimulator:
            ctx.check(((water > 0) == (full > 0)).all() and (water <= full + 1e-9).all(), 'flow', lambda: str((water, full)))
        else:
            ctx.close(water, full, 'flow')
        ctx.check((water[~owned] == 0).all(), 'unowned-fixture')
        check_heat(ctx, sim, water)
        ctx.state(cls.__name__, tuple(np.packbits((water > 0).ravel())))


@S.scenario(6, 80, weight=6)
def shipped(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        crest = ctx.rng.random() < .5
        data = Crest() if crest else GermanDataHerus('v0.1')
        a = data.load_appliance_dict()
    hh = ctx.randint(20, 60)
    sub = {'n_residents': ctx.randint(1, 4)} if crest else dict(zip(('household_type', 'n_residents'), ctx.choice([(1, 1), (2, 2), (3, 4), (4, 3)])))
    ctx.case(crest=crest, hh=hh, sub=sub)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sim = OccupancyApplianceSimulator([sub], [hh], data, start_datetime=dt.datetime(2014, 1, 6, 6 if crest else 7),
                                          equipped_sampling_algo='all')
    wet = a['uses_water'].astype(bool)
    flow = a['mean_water_consumption']
    vol = np.zeros((hh, len(flow)))
    known = np.zeros((hh, len(flow)), bool)
    for k in range(400):
        sim.step(np.full(hh, 2))
        water, usage = np.asarray(sim.get_current_water_consumptions()), np.asarray(sim.get_current_usage())
        check_heat(ctx, sim, water)
        ctx.check((water[:, ~wet] == 0).all() and (water <= flow + 1e-9).all(), 'flow')
        end = known & ~usage & (vol > 0)
        # two uses may follow each other without a break: whole litres in any case
        ctx.check((np.abs(vol[end] - np.round(vol[end])) < 1e-6).all(), 'whole-litres', lambda: str(vol[end][:8]))
        ctx.event('use_volume', end.sum())
        known |= ~usage
        vol = np.where(usage, vol + water, 0.)
        ctx.event('flow', (water > 0).sum())
