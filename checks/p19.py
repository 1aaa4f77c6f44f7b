"""P19 thermostats, heating controls and set points."""
import datetime as dt
import warnings

import numpy as np

from vlib.core import Spec
from vlib.stats import ALPHA, binom, gof
from checks.heat import TH, HeatData, controls, thermostat_next
from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.base_simulators import SimLogger
from demod.simulators.heating_simulators import SystemControls, Thermostats, VariableThermostatTemperatureSimulator

S = Spec('P19', 'Thermostats with random deadbands, set points that change, temperature walks that touch the switching points; control '
         'truth tables; set point patterns over days of random presence; non-trivial = distinct data and history.',
         required=['switch_on', 'switch_off', 'held', 'refilled', 'boundary', 'new_target', 'controls', 'external_cylinder', 'set_points', 'log',
                   'leaving', 'arriving', 'bed', 'wake', 'comfort', 'on_off', 'daily_pattern', 'daily_hours', 'first_day', 'hole', 'comfort_values', 'patterns', 'refused'])


@S.scenario(200, 4000)
def thermostats(ctx):
    d = HeatData(ctx)
    hh, steps = ctx.many(8), ctx.randint(5, 80)
    start = None
    if ctx.rng.random() < .6:
        start = dict(cylinder=ctx.rng.integers(30, 70, hh).astype(float), interior=ctx.rng.integers(10, 26, hh).astype(float),
                     emitter=ctx.rng.integers(20, 70, hh).astype(float))
    log = SimLogger('get_thermostat_states', 'get_target_temperatures', aggregated=False) if ctx.rng.random() < .5 else None
    ctx.case(hh=hh, steps=steps, th=d.th, start=start)
    sim = Thermostats(hh, initial_temperatures=start, data=d, **({'logger': log} if log is not None else {}))
    target = {k: np.array(v, float) for k, v in sim.get_target_temperatures().items()}
    ctx.check(np.isin(target['space_heating'], d.th['home_temperatures_values'][d.home_pdf > 0]).all(), 'home-set-point')
    ctx.check(np.isin(target['dhw'], d.th['water_temperatures_values'][d.water_pdf > 0]).all(), 'water-set-point')
    ctx.eq(target['emitter'], np.full(hh, d.th['emitter_setpoints']), 'emitter-set-point')
    temps = start or dict(cylinder=target['dhw'], interior=target['space_heating'], emitter=target['emitter'])
    on = {k: temps[n] < target[g] for k, n, g in TH}
    db = d.th['deadband']
    hist = []
    t = {k: np.array(v, float) for k, v in temps.items()}
    for k in range(steps + 1):
        if k:
            new = None
            if ctx.rng.random() < .1:
                ctx.event('new_target')
                before = dict(target)
                arr = target['space_heating'] + ctx.rng.integers(-3, 4, hh)
                target['space_heating'] = arr
                new = arr.copy()
                if ctx.rng.random() < .5:
                    new = {'space_heating': arr.copy()}
                    if ctx.rng.random() < .5:
                        target['dhw'] = target['dhw'] + ctx.rng.integers(-3, 4, hh)
                        new['dhw'] = target['dhw'].copy()
                    if ctx.rng.random() < .3:
                        target['emitter'] = target['emitter'] + ctx.rng.integers(-3, 4, hh)
                        new['emitter'] = target['emitter'].copy()
                    new = {k2: new[k2] for k2 in ctx.rng.permutation(list(new))}
                if ctx.rng.random() < .5:        # not a number: as it was
                    for k2, v in (new.items() if isinstance(new, dict) else [('space_heating', new)]):
                        hole = ctx.rng.random(hh) < .5
                        v[hole] = np.nan
                        target[k2] = np.where(hole, before[k2], target[k2])
                        ctx.event('hole', hole.sum())
            for name, node, g in TH:
                step = ctx.rng.choice([-1., -.5, 0., .5, 1., 3., -3.], hh)
                t[node] = t[node] + step
                jump = ctx.rng.random(hh) < .3       # land on a switching point
                t[node] = np.where(jump, target[g] + ctx.rng.choice([-1, 1], hh) * db[name], t[node])
                ctx.event('boundary', jump.sum())
            given = {k2: v.copy() for k2, v in t.items()}
            sim.step(given, new) if new is not None or ctx.rng.random() < .5 else sim.step(temperatures=given)
            for node in given:
                ctx.eq(given[node], t[node], 'temperatures-changed')
                given[node][:] = -99.
            for v in new.values() if isinstance(new, dict) else [] if new is None else [new]:
                v[:] = -99.
            prev = on
            on = {name: thermostat_next(on[name], t[node], target[g], db[name]) for name, node, g in TH}
            for name in on:
                ctx.event('switch_on', (on[name] & ~prev[name]).sum())
                ctx.event('switch_off', (~on[name] & prev[name]).sum())
                ctx.event('held', (on[name] == prev[name]).sum())
        got = sim.get_thermostat_states()
        for name in on:
            ctx.eq(np.asarray(got[name]), on[name], 'state-' + name)
        for g, v in target.items():
            ctx.eq(np.asarray(sim.get_target_temperatures()[g], float), v, 'target-' + g)
        hist.append({k2: v.copy() for k2, v in on.items()})
        ctx.state(tuple(np.packbits(np.concatenate([on[x] for x in sorted(on)]))))
    if log is not None:
        got = sim.logger.get('get_thermostat_states')
        for name in on:
            ctx.eq(np.array(got[name]), np.array([h[name] for h in hist])[:len(got[name])], 'log')
        ctx.eq(len(got[name]), steps, 'log-length')
        ctx.event('log')


@S.scenario(60, 600)
def set_points(ctx):
    """Set points follow the distributions."""
    if ctx.rng.random() < .6:
        d = HeatData(ctx)
        home, water = d.home_pdf, d.water_pdf
        th = d.th
    else:
        d = ctx.choice([GermanDataHerus, Crest])()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            th = d.load_thermostat_dict()
        home, water = np.diff(np.r_[0, th['home_temperatures_cdf']]), np.diff(np.r_[0, th['water_temperatures_cdf']])
    hh = 3000
    ctx.case(data=type(d).__name__, home=home, water=water)
    tt = Thermostats(hh, data=d).get_target_temperatures()
    for key, p, vals in (('space_heating', home, th['home_temperatures_values']), ('dhw', water, th['water_temperatures_values'])):
        counts = (np.asarray(tt[key])[:, None] == np.asarray(vals)[None, :]).sum(0)
        ctx.eq(int(counts.sum()), hh, 'values-' + key)
        ctx.check(gof(counts, p) > ALPHA, 'frequency-' + key, lambda: '%s for %s' % (counts, p))
        ctx.event('set_points')
    ctx.state(tuple(np.round(home, 3)))


@S.scenario(200, 3000)
def system_controls(ctx):
    hh, steps = ctx.many(30), ctx.randint(1, 20)
    combi = None if ctx.rng.random() < .2 else ctx.rng.random(hh) < .5
    if combi is not None and ctx.rng.random() < .3:
        combi = combi.astype(int)
    ctx.case(hh=hh, steps=steps, combi=combi)
    log = SimLogger('get_controls', aggregated=False) if ctx.rng.random() < .5 else None
    given = None if combi is None else combi.copy()
    sim = SystemControls(hh, **({} if combi is None else dict(is_combi_boiler=given)), **({'logger': log} if log is not None else {}))
    for v in sim.get_controls().values():
        ctx.eq(np.asarray(v), np.zeros(hh, bool), 'off-at-start')
    if given is not None:
        given[:] = 1 - given
    hist = [{k: np.zeros(hh, bool) for k in ('heater_on', 'heat_water_on', 'space_heating_on')}]
    for k in range(steps):
        dhw = np.where(ctx.rng.random(hh) < .5, 0., ctx.rng.uniform(0, 500, hh))
        st = {n: ctx.rng.random(hh) < .5 for n in ('hot_water', 'space_heating', 'emitter')}
        ext = None if ctx.rng.random() < .5 else ctx.rng.random(hh) < .5
        keep = {n: v.copy() for n, v in st.items()}
        sim.step(dhw.copy(), st, ext) if ext is not None else sim.step(dhw.copy(), st)
        want = controls(dhw, keep, np.zeros(hh, bool) if combi is None else combi, False if ext is None else ext)
        for n, v in want.items():
            ctx.eq(np.asarray(sim.get_controls()[n]).astype(bool), v, n)
        for n in st:
            ctx.eq(st[n], keep[n], 'inputs-changed')
        ctx.event('controls')
        ctx.event('external_cylinder', 0 if ext is None else ext.sum())
        ctx.state(tuple(want['heater_on']), tuple(want['heat_water_on']))
        hist.append(want)
    if log is not None:
        got = sim.logger.get('get_controls')
        for n in want:
            ctx.eq(np.array(got[n]).astype(bool), np.array([h[n] for h in hist])[:len(got[n])], 'log')
            ctx.eq(len(got[n]), steps, 'log-length')


PATTERNS = {'Cool Conservers': (17, 1.5, .1), 'Hot and Cold Fluctuators': (20, 2, .1), 'On-Demand Sizzlers': (23, 2, .1)}
FIXED = {'Steady and Savvy': (18.5, 1), 'Toasty Cruisers': (21, 1)}
ALL = ['Cool Conservers', 'Steady and Savvy', 'Hot and Cold Fluctuators', 'On-Demand Sizzlers', 'On-off Switchers', 'Toasty Cruisers']
T0 = dt.datetime(2021, 3, 5, 0, 0)


def presence(ctx, hh, steps, moves=.1):
    occ, act = ctx.rng.integers(0, 4, hh), None
    act = np.minimum(occ, ctx.rng.integers(0, 4, hh))
    out = [(occ, act)]
    for _ in range(steps):
        occ = np.where(ctx.rng.random(hh) < moves, ctx.rng.integers(0, 4, hh) * (ctx.rng.random(hh) < .6), occ)
        act = np.where(ctx.rng.random(hh) < moves, ctx.rng.integers(0, 4, hh) * (ctx.rng.random(hh) < .6), act)
        act = np.minimum(act, occ)
        out.append((occ, act))
    return out


@S.scenario(120, 2000)
def presence_patterns(ctx):
    """Set points that follow the presence of the occupants."""
    name = ctx.choice(list(PATTERNS) + ['On-off Switchers'])
    hh, steps = ctx.many(20), ctx.randint(20, 200)
    hist = presence(ctx, hh, steps)
    start = T0 + dt.timedelta(minutes=10 * ctx.randint(0, 1000))
    log = SimLogger('get_thermostat_temperatures', aggregated=False) if ctx.rng.random() < .4 else None
    ctx.case(name=name, hh=hh, steps=steps, start=start)
    # the caller may refill its arrays
    refill = ctx.rng.random() < .5
    oc, ac = hist[0][0].copy(), hist[0][1].copy()
    sim = VariableThermostatTemperatureSimulator(hh, oc, ac, start, pattern_attribution_method=name,
                                                 **({'logger': log} if log is not None else {}))
    mean = 20. if name == 'On-off Switchers' else PATTERNS[name][0]
    t = np.asarray(sim.get_thermostat_temperatures(), float)
    ctx.eq(t, np.full(hh, float(mean)), 'start')
    comfort = chances = 0
    seen = [t]
    for k in range(1, steps + 1):
        (po, pa), (o, a) = hist[k - 1], hist[k]
        if refill:
            oc[:], ac[:] = o, a
            ctx.event('refilled')
        else:
            oc, ac = o.copy(), a.copy()
        sim.step(oc, ac) if refill else sim.step(ctx.counts(oc), ctx.counts(ac))
        ctx.check((oc == o).all() and (ac == a).all(), 'inputs-changed')
        new = np.asarray(sim.get_thermostat_temperatures(), float)
        seen.append(new.copy())
        if name == 'On-off Switchers':
            ctx.eq(new, np.where(o > 0, 20., 16.), 'on-off')
            ctx.event('on_off', hh)
        else:
            _, dev, p = PATTERNS[name]
            leave, arrive = (o == 0) & (po > 0), (o > 0) & (po == 0)
            bed = (a == 0) & (pa > 0) & ~leave & ~arrive
            wake = (a > 0) & (pa == 0) & ~leave & ~arrive
            base = np.select([leave, arrive | wake, bed], [16., mean + dev, float(mean)], t)
            for n, m in (('leaving', leave), ('arriving', arrive), ('bed', bed), ('wake', wake)):
                ctx.event(n, m.sum())
            same = np.isclose(new, base)
            ctx.check((same | (a > 0)).all(), 'follows-presence', lambda: '%s: %s -> %s want %s (occupants %s active %s)' % (
                name, t, new, base, o, a))
            vals = mean + np.arange(int(2 * dev) + 1) / 2.
            ok = np.isclose(new[:, None], vals[None, :]).any(1)
            ctx.check((same | ok).all(), 'comfort-value')
            moved = ~same
            comfort += moved.sum()
            chances += (a > 0).sum()
            ctx.event('comfort', moved.sum())
        t = new
        ctx.state(name, tuple(new))
    if name in PATTERNS:
        # at most the rate of comfort changes
        p, dev = PATTERNS[name][2], PATTERNS[name][1]
        from scipy import stats
        ctx.check(stats.binom.sf(comfort - 1, chances, p) > ALPHA, 'comfort-rate', lambda: '%d of %d' % (comfort, chances))
        if chances:
            ctx.check(stats.binom.cdf(comfort, chances, p * (1 - 1. / (int(2 * dev) + 1))) > ALPHA, 'comfort-rare',
                      lambda: '%d of %d' % (comfort, chances))
    if log is not None:
        ctx.eq(sim.logger.get('get_thermostat_temperatures'), np.array(seen[:-1]), 'log')


@S.scenario(40, 600, weight=2)
def daily_patterns(ctx):
    """Set points at fixed hours: same times each day, within the ranges, whoever is there."""
    name = ctx.choice(list(FIXED))
    mean, dev = FIXED[name]
    hh, days = ctx.many(12), ctx.randint(3, 4)
    steps = days * 144
    start = T0 + dt.timedelta(minutes=10 * ctx.randint(0, 1000))
    ctx.case(name=name, hh=hh, days=days, start=start)
    hist = presence(ctx, hh, steps)
    sim = VariableThermostatTemperatureSimulator(hh, hist[0][0], hist[0][1], start, pattern_attribution_method=name)
    t = [np.asarray(sim.get_thermostat_temperatures(), float)]
    ctx.eq(t[0], np.full(hh, float(mean)), 'start')
    for o, a in hist[1:]:
        sim.step(ctx.counts(o, slot='o'), ctx.counts(a, slot='a'))
        t.append(np.asarray(sim.get_thermostat_temperatures(), float))
    t = np.array(t)
    hi, lo = mean + dev, mean - dev
    ctx.check(np.isin(np.round(t, 6), np.round([hi, mean, lo], 6)).all(), 'values')
    ctx.close(t[288:], t[144:-144], 'same-every-day')
    for h in range(hh):     # the first day joins the others at the first of its hours
        first = np.flatnonzero(t[289:433, h] != t[288:432, h])
        if len(first):
            k = first[0] + 1
            ctx.close(t[k:-288, h], t[k + 288:, h], 'first-day')
            ctx.event('first_day')
    minute = np.array([((start + dt.timedelta(minutes=10 * k)).hour * 60 + (start + dt.timedelta(minutes=10 * k)).minute) for k in range(len(t))])
    for h in range(hh):
        for k in range(1, len(t)):
            if t[k, h] != t[k - 1, h]:
                m, v = minute[k], t[k, h]
                ctx.event('daily_pattern')
                if v == lo:
                    ctx.check(6 * 60 + 30 <= m <= 9 * 60 + 50 + 220, 'leaving-hour', 'at %d' % m)
                elif v == mean:
                    ctx.check(m >= 20 * 60 or m <= 50, 'bed-hour', 'at %d' % m)
                else:
                    ctx.check(6 * 60 <= m <= 9 * 60 + 50 + 220 + 430, 'high-hour', 'at %d' % m)
        day = t[145:289, h]
        ctx.check((day == hi).any(), 'wakes-up')
        ctx.state(name, tuple(day))


def tail(ctx, values, allowed, p, what):
    counts = (np.asarray(values)[:, None] == np.asarray(allowed)[None, :]).sum(0)
    ctx.eq(int(counts.sum()), len(values), 'range-' + what, str(sorted(set(values))))
    ctx.check(gof(counts, p) > 1e-11, 'frequency-' + what, lambda: '%s of %s for %s' % (counts, allowed, p))


@S.scenario(10, 120, weight=3)
def daily_hours(ctx):
    """Hours of the fixed patterns over many households."""
    name = ctx.choice(list(FIXED))
    mean, dev = FIXED[name]
    hh = 1500
    ctx.case(name=name)
    sim = VariableThermostatTemperatureSimulator(hh, np.ones(hh, int), np.ones(hh, int), T0 - dt.timedelta(minutes=10), pattern_attribution_method=name)
    occ = np.ones(hh, int)
    t = []
    for _ in range(8 + 2 * 144):
        sim.step(occ, occ)
        t.append(np.asarray(sim.get_thermostat_temperatures(), float).copy())
    t = np.array(t)[150:295]        # a day from one o'clock
    hi, lo = mean + dev, mean - dev
    wake, leave, wait, away, bed = [], [], [], [], []
    leaving = 0
    for h in range(hh):
        v = t[:, h]
        ch = [(10 * k + 60, v[k]) for k in range(1, len(v)) if v[k] != v[k - 1]]
        kinds = [round(x, 6) for _, x in ch]
        if v[0] != mean:
            continue        # back after the bed time
        if kinds[:2] == [hi, lo]:
            leaving += 1
            wake.append(ch[0][0])
            wait.append(ch[1][0] - ch[0][0])
            if len(ch) > 2 and kinds[2] == hi:
                away.append(ch[2][0] - ch[1][0])
                if kinds[3:] == [mean]:
                    bed.append(ch[3][0])
        elif kinds == [hi, mean]:
            wake.append(ch[0][0])
            bed.append(ch[1][0])
    wake, bed = np.array(wake), np.array(bed)
    ctx.check(len(wake) > .95 * hh, 'wakes', lambda: '%d of %d' % (len(wake), hh))
    tail(ctx, wake // 60, range(6, 10), np.full(4, .25), 'wake-hour')
    tail(ctx, wake % 60, range(0, 60, 10), [.5] + [.1] * 5, 'wake-minute')
    ctx.check(binom(leaving, len(wake), .5) > 1e-11, 'leaving', lambda: '%d leave of %d' % (leaving, len(wake)))
    tail(ctx, wait, range(30, 230, 10), np.full(20, .05), 'before-leaving')
    tail(ctx, away, range(240, 440, 10), np.full(20, .05), 'away')
    late = bed[bed >= 21 * 60]
    ctx.check(len(late) > .5 * hh, 'goes-to-bed', lambda: str(len(late)))
    tail(ctx, late // 60 % 24, [21, 22, 23, 0], np.full(4, .25), 'bed-hour')
    tail(ctx, late % 60, range(0, 60, 10), [.5] + [.1] * 5, 'bed-minute')
    ctx.event('daily_hours', len(wake))
    ctx.state(ctx.index)


@S.scenario(10, 120)
def comfort_values(ctx):
    """Comfort changes take every value of the range equally."""
    name = ctx.choice(list(PATTERNS))
    mean, dev, p = PATTERNS[name]
    hh = 6000
    ctx.case(name=name)
    occ = np.full(hh, 2)
    sim = VariableThermostatTemperatureSimulator(hh, occ, occ, T0, pattern_attribution_method=name)
    sim.step(occ, occ)
    t = np.asarray(sim.get_thermostat_temperatures(), float)
    n = int(2 * dev) + 1
    tail(ctx, t, [mean + k / 2. for k in range(n)], [1 - p + p / n] + [p / n] * (n - 1), 'comfort')
    ctx.event('comfort_values', hh)
    ctx.state(ctx.index)


@S.scenario(20, 200)
def shares(ctx):
    hh = 3000
    method = ctx.choice(['living lab', 'random', None])
    ctx.case(method=method)
    kw = {} if method is None else dict(pattern_attribution_method=method)
    sim = VariableThermostatTemperatureSimulator(hh, np.ones(hh, int), np.zeros(hh, int), T0, **kw)
    t = np.asarray(sim.get_thermostat_temperatures(), float)
    p = np.full(6, 1 / 6.) if method == 'random' else np.array([.06, .24, .17, .12, .28, .13])
    means = [17., 18.5, 20., 23., 20., 21.]
    vals = sorted(set(means))
    counts = [(t == v).sum() for v in vals]
    ctx.check(gof(counts, [sum(q for q, m in zip(p, means) if m == v) for v in vals]) > ALPHA, 'shares', lambda: str(counts))
    ctx.event('patterns')
    ctx.state(method)


@S.scenario(20, 100)
def refused(ctx):
    hh = ctx.randint(1, 5)
    ctx.case(hh=hh)
    d = HeatData(ctx)
    ctx.raises(ValueError, lambda: VariableThermostatTemperatureSimulator(
        hh, np.ones(hh), np.ones(hh), T0, pattern_attribution_method='Hot'), 'pattern')
    sim = Thermostats(hh, data=d)
    t = dict(cylinder=np.full(hh, 50.), interior=np.full(hh, 20.), emitter=np.full(hh, 50.))
    ctx.raises(TypeError, lambda: sim.step(t, ctx.choice(['20', [20.] * hh])), 'target')
    ctx.event('refused')
    ctx.state(hh)
