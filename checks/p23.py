"""P23 LoadSimulator: composition of the household simulators."""
import datetime as dt
import inspect
import warnings

import numpy as np

from vlib.core import Spec
from vlib.stats import rand_pdf
from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.base_simulators import SimLogger
from demod.simulators.load_simulators import LoadSimulator

S = Spec('P23', 'Both shipped datasets, 1 to 300 households, starts at any minute, with and without climate and heating, external climate and heat inputs given or '
         'not at each step; every step of every component recorded; non-trivial = distinct configuration.',
         required=['power', 'activity_step', 'component_step', 'wiring', 'external_climate', 'partial_external', 'external_heat', 'no_heating', 'no_climate', 'refused',
                   'german', 'crest', 'single_household', 'midnight', 'incomplete', 'heat_demand', 'activity_clock', 'time_of_day', 'inactive_off', 'data_used', 'log', 'population', 'initial_temperature'])
MIN = dt.timedelta(minutes=1)


class Taps:
    """Records each step of the components, with its arguments by name."""

    def __init__(self, load, names):
        self.calls = {n: [] for n in names}
        for n in names:
            self.tap(n, getattr(load, n))

    def tap(self, name, sim):
        inner = sim.step
        sig = inspect.signature(inner)
        calls = self.calls[name]

        def step(*args, **kw):
            try:
                bound = dict(sig.bind(*args, **kw).arguments)
            except TypeError:
                bound = {}
            for k in list(bound):
                if sig.parameters[k].kind is inspect.Parameter.VAR_KEYWORD:
                    bound.update(bound.pop(k))
                elif sig.parameters[k].kind is inspect.Parameter.VAR_POSITIONAL:
                    bound.update({'arg%d' % i: v for i, v in enumerate(bound.pop(k))})
            calls.append({k: np.array(v, copy=True) if isinstance(v, np.ndarray) else v for k, v in bound.items()})
            return inner(*args, **kw)

        sim.step = step

    def clear(self):
        for c in self.calls.values():
            del c[:]


def recording(cls, used):
    """A loader that notes which data are asked to it."""
    class Noted(cls):
        def __getattribute__(self, name):
            if name.startswith('load_'):
                used.add(name)
            return super().__getattribute__(name)
    Noted.__name__ = cls.__name__
    return Noted()


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is b
    return np.shape(a) == np.shape(b) and bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-12, atol=1e-12, equal_nan=True))


def build(ctx, used=None):
    german = ctx.rng.random() < .5
    cls = GermanDataHerus if german else Crest
    n = int(ctx.choice([1, 1, 2, 3, 5, 7, 12, 30, 90, 300]))
    climate, heating = bool(ctx.rng.random() < .6), bool(ctx.rng.random() < .7)
    start = dt.datetime(2014, 1, 1) + dt.timedelta(days=ctx.randint(0, 364))
    start += dt.timedelta(minutes=int(ctx.choice([0, 240, 1435, 239, ctx.randint(0, 1439), 10 * ctx.randint(0, 143)])))
    kw = dict(include_climate=climate, include_heating=heating)
    if climate and heating and ctx.rng.random() < .3:
        kw = {}
    if not climate:
        kw['initial_outside_temperature'] = float(ctx.rng.uniform(-10, 30))
    data = recording(cls, used) if used is not None else cls()
    ctx.event('german' if german else 'crest')
    ctx.event('single_household', n == 1)
    return german, n, climate, heating, start, kw, data


def make(n, start, data, kw):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return LoadSimulator(n, start_datetime=start, data=data, **kw)


def externals(ctx, n, climate, heating, mode):
    """Inputs of one step, those of the climate first."""
    ext = {}
    t, i = float(ctx.rng.uniform(-15, 35)), float(max(0, ctx.rng.uniform(-300, 900)))
    if not climate or mode == 'both' or mode == 'temperature':
        ext['external_outside_temperature'] = t
    if not climate or mode == 'both' or mode == 'irradiance':
        ext['external_irradiance'] = i
    if heating and ctx.rng.random() < .25:
        some = lambda lo, hi: np.where(ctx.rng.random(n) < .6, ctx.rng.uniform(lo, hi, n), np.nan)
        r = ctx.choice(['target', 'targets', 'outputs', 'dict', 'dhw', 'sh', 'cylinder'])
        if r == 'target':
            ext['external_target_temperature'] = {'space_heating': float(ctx.rng.uniform(15, 23))}
        elif r == 'targets':
            ext['external_target_temperature'] = {'space_heating': some(15, 23)}
        elif r == 'outputs':
            ext['external_heat_outputs'] = some(0, 9000)
        elif r == 'dict':
            ext['external_heat_outputs'] = {'dhw': some(0, 9000), 'space_heating': some(0, 9000)}
        elif r == 'dhw':
            ext['external_dhw_outputs'] = some(0, 9000)
        elif r == 'sh':
            ext['external_sh_outputs'] = some(0, 9000)
        else:
            ext['external_cylinder_temperature'] = some(30, 60)
        ctx.event('external_heat')
    return ext


@S.scenario(90, 1200, weight=3)
def composition(ctx):
    used = set()
    german, n, climate, heating, start, kw, data = build(ctx, used)
    long_run = ctx.index % 9 == 0
    steps = ctx.randint(700, 1500) if long_run else ctx.randint(5, 130)
    log = SimLogger('get_power_demand', 'current_time', aggregated=False) if ctx.rng.random() < .4 else None
    ctx.case(data='german' if german else 'crest', n=n, start=start, steps=steps, kw=kw, log=log is not None)
    load = make(n, start, data, dict(kw, **({'logger': log} if log is not None else {})))
    need = [{'load_population_subgroups'}, {'load_sparse_tpm', 'load_tpm', 'load_tpm_with_duration'}, {'load_appliance_dict'}, {'load_crest_lighting'}, {'load_bulbs', 'load_bulbs_config'}]
    need += [{'load_heating_system_dict'}, {'load_thermostat_dict'}, {'load_buildings_dict'}] if heating else []
    need += [{'load_historical_climate_data', 'load_temperatures_arma'}] if climate else []
    for names in need:
        ctx.check(bool(names & used), 'data-used', lambda: 'none of %s was loaded from the dataset given, only %s' % (sorted(names), sorted(used)))
    ctx.event('data_used')
    names = ['activity_simulator', 'appliance_simulator', 'light_sim'] + ['climate'] * climate + ['heating'] * heating
    for s in names:
        if s != 'climate':
            ctx.eq(int(getattr(load, s).n_households), n, 'households', s)
    if heating:
        # the buildings start halfway between the outside and their set points
        out = load.climate.get_outside_temperature() if climate else kw.get('initial_outside_temperature', 5.)
        goal = load.heating.get_target_temperatures()['space_heating']
        ctx.close(load.get_temperatures()['building'], (float(np.ravel(out)[0]) + np.asarray(goal)) / 2, 'initial-temperature', rtol=1e-9)
        ctx.event('initial_temperature')
    taps = Taps(load, names)
    powers, act_steps = [], []
    ctx.event('no_heating', not heating)
    ctx.event('no_climate', not climate)

    def judge(k):
        now = start + k * MIN
        ctx.eq(load.current_time, now, 'clock')
        ctx.eq(load.appliance_simulator.current_time, now, 'clock-of-appliances', 'step %d' % k)
        if climate:
            ctx.eq(load.climate.current_time, now, 'clock-of-climate', 'step %d' % k)
        act = load.activity_simulator
        clocks = {s.current_time for s in [act, *getattr(act, 'simulators', [])] if hasattr(s, 'current_time')}
        ctx.event('activity_clock', len(clocks))
        ctx.check(all(abs(c - now) <= 10 * MIN for c in clocks), 'clock-of-activity', lambda: 'at %s the activity is at %s' % (now, clocks))
        # what is switched off without active occupants is off there, from the start
        idle = np.asarray(act.get_active_occupancy()) == 0
        off = np.asarray(load.appliance_simulator.appliances['inactive_switch_off']).astype(bool)
        on = np.asarray(load.appliance_simulator.get_current_usage()) > 0
        ctx.check(not on[np.ix_(idle, off)].any(), 'inactive-off', lambda: 'step %d: %d appliances on without active occupants' % (k, on[np.ix_(idle, off)].sum()))
        ctx.event('inactive_off', idle.sum() * off.sum())
        want = np.asarray(load.appliance_simulator.get_power_demand(), float) + load.light_sim.get_power_demand()
        if heating:
            want = want + load.heating.get_power_demand()
        got = np.asarray(load.get_power_demand(), float)
        ctx.eq(got.shape, (n,), 'power-shape')
        ctx.close(got, want, 'power', 'step %d' % k, rtol=1e-9, atol=1e-9)
        ctx.finite(got, 'power-finite')
        ctx.check(bool((got >= 0).all()), 'power-negative', lambda: str(got.min()))
        ctx.event('power')
        if heating and k % 7 == 0:
            for g in ('get_total_heat_demand', 'get_dhw_heat_demand', 'get_sh_heat_demand'):
                ctx.close(getattr(load, g)(), getattr(load.heating, g)(), 'heat-demand', g)
            ctx.check(same(load.get_temperatures(), load.heating.get_temperatures()), 'temperatures')
            ctx.event('heat_demand')
        powers.append(got.copy())

    judge(0)
    mode = ctx.choice(['none', 'none', 'both', 'temperature', 'irradiance', 'mixed'])
    for k in range(1, steps + 1):
        taps.clear()
        m = ctx.choice(['none', 'both', 'temperature', 'irradiance']) if mode == 'mixed' else mode
        ext = externals(ctx, n, climate, heating, m)
        keep = {a: {b: np.copy(c) for b, c in v.items()} if isinstance(v, dict) else np.copy(v) for a, v in ext.items()}
        load.step(**ext)
        ctx.check(all(same(ext[a], keep[a]) for a in ext), 'inputs-changed', lambda: str([a for a in ext if not same(ext[a], keep[a])]))
        for s in names:
            if s != 'activity_simulator':
                ctx.eq(len(taps.calls[s]), 1, 'one-step-each', '%s at step %d' % (s, k))
                ctx.event('component_step')
        if taps.calls['activity_simulator']:
            ctx.eq(len(taps.calls['activity_simulator']), 1, 'activity-once')
            act_steps.append(k)
            ctx.event('activity_step')
        temp = ext.get('external_outside_temperature')
        sun = ext.get('external_irradiance')
        ctx.event('external_climate', temp is not None and sun is not None)
        ctx.event('partial_external', (temp is None) != (sun is None))
        temp = load.climate.get_outside_temperature() if temp is None else temp
        sun = load.climate.get_irradiance() if sun is None else sun
        active = load.activity_simulator.get_active_occupancy()
        expected = {'appliance_simulator': [active], 'light_sim': [active, sun]}
        for s, vals in expected.items():
            got = list(taps.calls[s][0].values())
            ctx.check(len(got) == len(vals) and all(same(a, b) for a, b in zip(got, vals)), 'wiring-%s' % s, lambda: 'step %d got %s want %s' % (k, got, vals))
        if heating:
            got = taps.calls['heating'][0]
            want = dict(outside_temperature=temp, irradiance=sun, dhw_heating_demand=load.appliance_simulator.get_dhw_heating_demand(),
                        occupancy_thermal_gains=load.activity_simulator.get_thermal_gains(), lighting_thermal_gains=load.light_sim.get_thermal_gains(),
                        appliances_thermal_gains=load.appliance_simulator.get_thermal_gains())
            for a in ('external_target_temperature', 'external_heat_outputs', 'external_dhw_outputs', 'external_sh_outputs', 'external_cylinder_temperature'):
                want[a] = keep.get(a)
            for a, v in want.items():
                ctx.check(same(got.get(a), v), 'wiring-heating', lambda: 'step %d: %s was %s, not %s' % (k, a, got.get(a), v))
        ctx.event('wiring')
        now = start + k * MIN
        ctx.event('midnight', now.hour + now.minute == 0)
        judge(k)
    # the activity moves every ten minutes
    ctx.check(all(b - a == 10 for a, b in zip(act_steps, act_steps[1:])) and len(act_steps) in (steps // 10, -(-steps // 10)) and (not act_steps or act_steps[0] <= 10), 'activity-cadence',
              lambda: 'activity stepped at steps %s of %d' % (act_steps[:8], steps))
    if log is not None:
        ctx.close(load.logger.get('get_power_demand'), np.array(powers[:-1]), 'log')
        ctx.event('log')
    ctx.state(german, n, start, tuple(sorted(kw.items())))


@S.scenario(16, 160, weight=3)
def population(ctx):
    """The households are the same ones in every component: numbers of each group, residents, appliances."""
    cls = ctx.choice([GermanDataHerus, Crest])
    subs, pdf, total = cls().load_population_subgroups()
    subs = [dict(s) for s in subs]
    m, n, steps = len(subs), ctx.randint(20, 160), ctx.randint(20, 60)
    pdf = rand_pdf(ctx.rng, m)
    types = sorted(set(map(str, cls().load_appliance_dict()['type'])))
    bits = 0
    while 2 ** bits <= m:
        bits += 1

    class Peopled(cls):
        def load_population_subgroups(self, *a, **k):
            return [dict(s) for s in subs], list(pdf), total

        def load_appliance_ownership_dict(self, subgroup={}):
            # the number of the group in binary on the first appliances
            code = subs.index({k: subgroup[k] for k in subs[0]}) + 1
            return {t: float(code >> types.index(t) & 1) if types.index(t) < bits else .5 for t in types}

    ctx.case(data=cls.__name__, n=n, pdf=pdf, steps=steps)
    day = dt.datetime(2014, 1, 1) + dt.timedelta(days=ctx.randint(0, 364), hours=ctx.randint(8, 20))
    heating = bool(ctx.rng.random() < .3)
    load = make(n, day, Peopled(), dict(include_climate=False, include_heating=heating))
    sim = load.appliance_simulator
    owned, kinds = np.asarray(sim.available_appliances), [str(t) for t in sim.appliances['type']]
    code = np.zeros(n, int)
    for b in range(bits):
        cols = [i for i, t in enumerate(kinds) if t == types[b]]
        code += owned[:, cols[0]].astype(int) << b
    ctx.check(bool(((code >= 1) & (code <= m)).all()), 'group', lambda: str(code))
    if ((code < 1) | (code > m)).any():
        return
    counts = np.bincount(code - 1, minlength=m)
    ctx.check(bool((np.abs(counts - pdf * n) <= 2 + 1e-6).all()), 'group-sizes', lambda: '%s for %s' % (counts, pdf * n))
    residents = np.array([s['n_residents'] for s in subs])[code - 1]
    for k in range(steps):
        active = np.asarray(load.activity_simulator.get_active_occupancy())
        ctx.check(bool((active <= residents).all()), 'residents', lambda: 'step %d: active %s of %s residents' % (k, active, residents))
        load.step(external_outside_temperature=5., external_irradiance=0.)
        ctx.event('population', n)
    ctx.state(cls.__name__, n, tuple(counts))


@S.scenario(8, 60, weight=4)
def time_of_day(ctx):
    """The activity of a simulation started at night is the one of the night."""
    cls = ctx.choice([GermanDataHerus, Crest])
    day = dt.datetime(2014, 1, 1) + dt.timedelta(days=ctx.randint(0, 364))
    n, steps = 250, 20
    ctx.case(data=cls.__name__, day=day)
    got = {}
    for hour in ctx.rng.permutation([3, 12, 19]):
        load = make(n, day.replace(hour=int(hour), minute=ctx.randint(0, 20)), cls(), dict(include_climate=False, include_heating=False))
        vals = [load.activity_simulator.get_active_occupancy().mean()]
        for _ in range(steps):
            load.step(external_outside_temperature=5., external_irradiance=0.)
            vals.append(load.activity_simulator.get_active_occupancy().mean())
        got[int(hour)] = vals
        ctx.event('time_of_day')
    ctx.check(max(got[3]) < .5 * min(min(got[12]), min(got[19])), 'time-of-day', lambda: 'active occupants by hour: %s' % got)
    ctx.state(cls.__name__, day)


def without(cls, *names):
    """A dataset that does not offer these data."""
    class Bare(cls):
        pass
    for name in names:
        def load(self, *args, name=name, **kw):
            raise NotImplementedError(name)
        setattr(Bare, name, load)
    Bare.__name__ = cls.__name__
    return Bare()


@S.scenario(24, 200, weight=2)
def incomplete_dataset(ctx):
    """A component that the dataset cannot drive is replaced by one it can, or the simulator is refused."""
    cls = ctx.choice([GermanDataHerus, Crest])
    n, heating = ctx.randint(1, 8), bool(ctx.randint(0, 1))
    start = dt.datetime(2014, 5, ctx.randint(1, 28), ctx.randint(0, 23), ctx.randint(0, 59))
    part = ctx.choice(['activity', 'climate', 'both', 'none'])
    ctx.case(data=cls.__name__, n=n, start=start, part=part, heating=heating)
    gone = {'activity': ['load_sparse_tpm', 'load_tpm'], 'climate': ['load_historical_climate_data', 'load_clearness_tpm', 'load_temperatures_arma', 'load_geographic_data']}
    names = [x for k, v in gone.items() for x in v if part in (k, 'both')]
    kw = dict(include_heating=heating, include_climate=part != 'activity')
    if part != 'none':
        ctx.raises(NotImplementedError, lambda: make(n, start, without(cls, *names), kw), 'incomplete', part)
        ctx.event('incomplete')
    if part == 'climate':       # the others do not need it
        load = make(n, start, without(cls, *names), dict(kw, include_climate=False))
        load.step(external_outside_temperature=4., external_irradiance=0.)
        ctx.eq(np.shape(load.get_power_demand()), (n,), 'without-climate')
    ctx.state(n, start, part, cls.__name__)


@S.scenario(40, 400, weight=2)
def refused(ctx):
    """Without climate the external one is required; a refused step changes nothing."""
    german, n, _, heating, start, _, data = build(ctx)
    ctx.case(data='german' if german else 'crest', n=n, start=start, heating=heating)
    load = make(n, start, data, dict(include_climate=False, include_heating=heating))
    taps = Taps(load, ['activity_simulator', 'appliance_simulator', 'light_sim'] + ['heating'] * heating)
    full = dict(external_outside_temperature=3., external_irradiance=0.)
    for _ in range(ctx.randint(0, 12)):
        load.step(**full)
    for missing in ({}, dict(external_outside_temperature=3.), dict(external_irradiance=10.), dict(external_irradiance=0.), dict(external_outside_temperature=0.)):
        taps.clear()
        before = load.current_time, np.copy(load.get_power_demand())
        ctx.raises(ValueError, lambda: load.step(**missing), 'missing-climate', str(missing))
        ctx.check(not any(taps.calls.values()), 'refused-step', lambda: 'a refused step moved %s' % [s for s, c in taps.calls.items() if c])
        ctx.eq(load.current_time, before[0], 'refused-step')
        ctx.close(load.get_power_demand(), before[1], 'refused-step')
        ctx.event('refused')
        # zero is a value
        load.step(external_outside_temperature=0., external_irradiance=0.)
        ctx.eq(load.current_time, before[0] + MIN, 'zero-climate')
    ctx.state(n, start, heating)
