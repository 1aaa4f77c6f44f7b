"""P14 appliance cycles of the occupancy driven simulator."""
import contextlib
import datetime as dt

import numpy as np

from vlib.core import Spec
from vlib.stats import fixed_draws
from checks.appl import ALGOS, ALWAYS, MINUTE, ApplData, check_power
from checks.p07 import day_key, diary_day, random_start
from demod.simulators.appliance_simulators import OccupancyApplianceSimulator

S = Spec('P14', 'Occupancy-driven appliance simulators over random appliances, real profiles whose values name type, profile and '
         'position, and activity profiles of zeros and ones (so that every start is predictable); random starts with warm-up, day '
         'changes and occupancies; non-trivial = distinct data and run.',
         required=['cycle', 'profile_cycle', 'water_event', 'cut_short', 'delay', 'warmup_step', 'weekday_change', 'short_event'])


def recording(rec):
    class Recording(OccupancyApplianceSimulator):
        def step(self, active_occupancy):
            if not rec:
                rec.append(snapshot(self))
            super().step(active_occupancy)
            rec.append(snapshot(self))
    return Recording


def snapshot(sim):
    return dict(time=sim.current_time, left=np.array(sim.n_steps_left, float), refresh=np.array(sim.n_steps_till_refresh),
                usage=np.array(sim.get_current_usage()), power=np.array(sim.get_current_power_consumptions()),
                water=np.array(sim.get_current_water_consumptions()))


@S.scenario(120, 2500, weight=6)
def predictable(ctx):
    refresh = ctx.choice([dt.time(4), dt.time(4), dt.time(0)])
    data = ApplData(ctx, refresh)
    app, n = data.app, data.n
    start = random_start(ctx).replace(second=0, microsecond=0)
    long = ctx.rng.random() < .15
    if ctx.rng.random() < .5:      # near the refresh time
        start = dt.datetime.combine(start.date(), refresh) + ctx.randint(-40, 40) * MINUTE
        if ctx.rng.random() < .5:  # just before the type of day changes
            while start.isoweekday() not in (1, 6):
                start += dt.timedelta(days=1)
            start -= ctx.randint(0, 60) * MINUTE
    steps = ctx.randint(1500, 3200) if long else ctx.randint(30, 400)
    n_sub = ctx.randint(1, 3)
    subs = [dict(n_residents=ctx.randint(1, 4), **({'household_type': ctx.randint(1, 4)} if ctx.rng.random() < .3 else {}))
            for _ in range(n_sub)]
    if ctx.rng.random() < .3:
        subs = [dict(s, geographic_region=k) for k, s in enumerate(subs)]
    sizes = [ctx.many(4, .03) for _ in range(n_sub)]
    hh = sum(sizes)
    types = np.repeat(np.arange(n_sub), sizes)
    algo, equip = ctx.choice(ALGOS), ctx.choice(['all', 'all', 'basic', 'subgroup'])
    occ0 = None if ctx.rng.random() < .4 else ctx.rng.integers(0, 3, hh)
    ctx.case(refresh=str(refresh), start=str(start), steps=steps, subs=subs, sizes=sizes, algo=algo, equip=equip, salt=data.salt,
             types=app['type'], acts=app['related_activity'], dur=app['mean_duration'], delay=app['after_cycle_delay'])
    rec = []
    # also with the lowest and the highest draws there are
    hostile = ctx.choice([None, None, None, 0., 1. - 2. ** -53])
    draws = (lambda: contextlib.nullcontext()) if hostile is None else (lambda: fixed_draws(hostile))
    ctx.event('hostile_draw', hostile is not None)
    with draws():
        sim = recording(rec)([dict(s) for s in subs], sizes, data, start_datetime=start, real_profiles_algo=algo,
                             equipped_sampling_algo=equip, initial_active_occupancy=occ0)
    ctx.eq(sim.current_time, start, 'start-time')
    n_warm = max(len(rec) - 1, 0)
    occs = [np.ones(hh, int) if occ0 is None else occ0] * n_warm
    ctx.event('warmup_step', n_warm)
    ctx.eq(n_warm, int((start - dt.datetime.combine(diary_day(start, refresh), refresh)) / MINUTE), 'warm-up-steps')
    occ = ctx.rng.integers(0, 4, hh)
    for _ in range(steps):
        if ctx.rng.random() < .1:
            occ = ctx.rng.integers(0, 4, hh) * ctx.rng.integers(0, 2, hh)
        with draws():
            sim.step(ctx.counts(occ, slot='occ'))
        occs.append(occ)
    owned = np.asarray(sim.available_appliances, bool)
    replay(ctx, data, rec, occs, subs, types, owned, algo, refresh)
    # data asked for the right days
    want = set()
    for r in rec[:-1]:
        for s in subs:
            k = dict(s)
            k.update(day_key(diary_day(r['time'], refresh), {'use_week_ends_days': True}))
            want.add(tuple(sorted(map(str, k.items()))))
    if len({w for w in want}) > len({tuple(sorted(map(str, s.items()))) for s in subs}):
        ctx.event('weekday_change')


def replay(ctx, data, rec, occs, subs, types, owned, algo, refresh):
    """Predict every use from the rules and compare with what was observed."""
    app, n = data.app, data.n
    hh = len(types)
    var = data.variable(algo)
    delay = app['after_cycle_delay']
    left, ready = rec[0]['left'].copy(), rec[0]['refresh'].copy()
    ctx.check((left == 0).all(), 'all-off-at-first')
    ctx.check(((ready >= 0) & (ready <= np.maximum(delay - 1, 0))).all(), 'first-delay', lambda: str(ready))
    pos = np.zeros((hh, n), int)
    length = np.zeros((hh, n), int)
    prof = {}
    volume = np.zeros((hh, n))
    pdfs = {}
    off = ~app['inactive_switch_off']
    for k, (a, b, occ) in enumerate(zip(rec[:-1], rec[1:], occs)):
        t = a['time']
        ctx.eq(b['time'], t + MINUTE, 'clock')
        day = diary_day(t, refresh)
        slot = int((t - dt.datetime.combine(day, refresh)) / (10 * MINUTE)) % 144
        key = (day.isoweekday() <= 5)
        if key not in pdfs:
            pdfs[key] = []
            for s in subs:
                k_ = dict(s)
                k_.update(day_key(day, {'use_week_ends_days': True}))
                p = data.act_pdf(k_)
                pdfs[key].append(np.array([p[x] for x in app['related_activity']]))
        p = np.array([pdfs[key][types[h]][:, slot, occ[h]] for h in range(hh)]) * app['switch_on_prob_crest']
        # running cycles advance, then free appliances start
        was_on = left > 0
        left[left > 0] -= 1
        ready[ready > 0] -= 1
        pos[was_on] += 1
        start = owned & (left <= 0) & (ready <= 0) & (p > 0)
        for h, i in np.argwhere(start):
            if app['uses_water'][i]:
                d = b['left'][h, i]
                if not off[i] and occ[h] == 0:
                    d = 0.
                else:
                    v = d * app['mean_water_consumption'][i]
                    ctx.check(d >= 0 and abs(v - round(v)) < 1e-6, 'water-volume', lambda: 'volume %s' % v)
                    ctx.event('water_event')
                    if 0 < d < 1:
                        ctx.event('short_event')
            elif var[i]:
                if (h, i) in prof:
                    d = prof[h, i][1]
                elif not off[i] and occ[h] == 0:
                    d = 1           # cut at once, length unknown and unused
                else:
                    dec = data.decoded(i, b['power'][h, i])
                    if not ctx.check(dec is not None and dec[1] == 0, 'profile-start',
                                     lambda: 'appliance %s shows %s (%s)' % (i, b['power'][h, i], dec)):
                        return
                    prof[h, i] = (dec[0], dec[2])
                    d = dec[2]
                ctx.event('profile_cycle')
            else:
                d = app['mean_duration'][i]
                ctx.event('cycle')
                if 0 < d < 1:
                    ctx.event('short_event')
            left[h, i] = d
            ready[h, i] = d + delay[i]
            pos[h, i] = 0
        cut = (occ == 0)[:, None] & app['inactive_switch_off'][None, :]
        ctx.event('cut_short', ((left > 0) & cut).sum())
        left[cut] = 0
        ready = np.where(cut, np.minimum(ready, delay[None, :]), ready)
        on = left > 0
        ctx.event('delay', (~on & (ready > 0)).sum())
        if not ctx.eq(b['usage'], on, 'usage', 'at %s step %d (started %s)' % (b['time'], k, np.argwhere(start)[:4].tolist())):
            return
        # consumption
        want = np.where(on, app['mean_elec_consumption'], app['standby_consumption']) * owned
        for h, i in np.argwhere(on & var[None, :]):
            dec = data.decoded(i, b['power'][h, i])
            ctx.eq(dec, (prof[h, i][0], int(pos[h, i]), prof[h, i][1]), 'profile-value', 'appliance %d household %d at %s' % (i, h, b['time']))
            want[h, i] = b['power'][h, i]
        ctx.close(b['power'], want, 'power', 'at %s' % b['time'])
        ctx.close(b['water'], np.minimum(np.where(on, left, 0.), 1.) * app['mean_water_consumption'], 'water', 'at %s' % b['time'])
        ctx.state(tuple(np.packbits(on.ravel())), slot)
