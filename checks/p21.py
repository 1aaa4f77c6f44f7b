"""P21 building energy balance and the demand that reaches the set points."""
import datetime as dt
import warnings

import numpy as np

from vlib.core import Spec
from vlib.stats import ALPHA, gof
from checks.heat import HeatData, building_next, demand, params
from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.base_simulators import SimLogger
from demod.simulators.heating_simulators import BuildingThermalDynamics, HeatDemand, HeatingSystem

S = Spec('P21', 'Random and shipped buildings with random weather, gains, water use and heat, any step size; heat demand of both methods '
         'and the closed loop in which the demand is delivered; non-trivial = distinct building and history.',
         required=['balance', 'many_targets', 'no_targets', 'stored_heat', 'equilibrium', 'demand', 'room_demand', 'reached', 'initial', 'shipped', 'log',
                   'equipment', 'refused', 'fallback'])

STEPS = [1, 10, 60, 300, 600, .5, 90.25, 900, 1800]


def quiet(f):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f()


def make(ctx, d, hh, dtm, targets, outside, **kw):
    hs = HeatingSystem(hh, data=d)
    sim = quiet(lambda: BuildingThermalDynamics(hh, hs, outside, data=d, **({} if dtm is None else dict(step_size=dt.timedelta(seconds=dtm))),
                                                **({} if targets is None else dict(target_temperatures=targets.copy())), **kw))
    return hs, sim


def temps(sim):
    return {k: np.array(v, float) for k, v in sim.get_temperatures().items()}


BLD = dict(building_area='floor_area', C_i='int_capacitance', C_b='ext_capacitance', C_em='emitters_capacitance', H_em='emitters_transfer_coef', H_bi='build_int_transfer_coef',
           H_ob='out_build_transfer_coef', H_v='ventilation_transfer_coef', irradiance_multiplier='irradiance_multiplier', emitters_nominal_temperature='emitters_target_temperature')
SYS = dict(max_Phi_h_dhw='heat_output_dhw', max_Phi_h_space='heat_output_sh', h_loss='cyl_loss', C_cyl='cyl_volume', dblP_pump='pump_power', dblP_standby='standby_power',
           dblFuelFlowRate='fuel_flow_rate', flow_rate_to_W='flow_rate_to_W', is_combi_boiler='is_combi')


def closest(names, table, sim):
    """The type with which each household shares the most parameters."""
    hit = 0
    for k, name in names.items():
        if hasattr(sim, k):
            hit = hit + (np.asarray(getattr(sim, k))[:, None] == np.asarray(table[name]) * (4200. if k == 'C_cyl' else 1))
    return hit.argmax(1)


def bld_types(d, sim):
    return closest(BLD, d.bld, sim)


class Shipped:
    def __init__(self, d):
        self.sys = {k: np.asarray(v) for k, v in d.load_heating_system_dict().items() if np.ndim(v)}
        self.bld = {k: np.asarray(v) for k, v in d.load_buildings_dict().items() if np.ndim(v)}
        self.th = d.load_thermostat_dict()

    load_heating_system_dict = HeatData.load_heating_system_dict
    load_buildings_dict = HeatData.load_buildings_dict
    load_thermostat_dict = HeatData.load_thermostat_dict


def data_of(ctx):
    if ctx.rng.random() < .75:
        return HeatData(ctx, stable=ctx.rng.random() < .5)
    cls = ctx.choice([GermanDataHerus, Crest])
    d = quiet(lambda: Shipped(cls()))
    ctx.event('shipped')
    for t in (d.sys, d.bld):
        if ctx.rng.random() < .7:
            n = len(t['equipped_prob'])
            t['equipped_prob'] = np.eye(n)[ctx.rng.integers(n)]
    return d


def sys_types(d, hs):
    return closest(SYS, d.sys, hs)


def weather(ctx, hh):
    r = ctx.rng
    return dict(outside=float(r.uniform(-50, 45)), irradiance=float(r.choice([0., r.uniform(0, 1000)])),
                h_dhw=np.where(r.random(hh) < .5, 0., r.uniform(0, 400, hh)),
                occ=r.integers(0, 5, hh) * 80., light=r.uniform(0, 300, hh), app=r.uniform(0, 2500, hh))


def do_step(sim, w, out):
    sim.step(outside_temperature=w['outside'], irradiance=w['irradiance'], dhw_heating_demand=w['h_dhw'].copy(),
             occupancy_thermal_gains=w['occ'].copy(), lighting_thermal_gains=w['light'].copy(), appliances_thermal_gains=w['app'].copy(),
             heat_outputs={k: v.copy() for k, v in out.items()})


@S.scenario(200, 4000)
def balance(ctx):
    d = data_of(ctx)
    hh, steps = ctx.many(8), ctx.randint(1, 30)
    dtm = ctx.choice(STEPS[:7] + [None])
    targets = None if ctx.rng.random() < .2 else ctx.rng.uniform(14, 25, hh)
    outside = float(ctx.rng.uniform(-15, 30) if ctx.rng.random() < .7 else ctx.rng.uniform(-80, 50))
    log = SimLogger('get_temperatures', aggregated=False) if ctx.rng.random() < .4 else None
    ctx.case(hh=hh, steps=steps, dt=dtm, targets=targets, outside=outside, bld=d.bld)
    hs, sim = make(ctx, d, hh, dtm, targets, outside, **({'logger': log} if log is not None else {}))
    p = params(d, sys_types(d, hs), bld_types(d, sim))
    sec = dtm or 60
    t = temps(sim)
    if targets is not None:
        ctx.check((abs(t['interior'] - targets) <= 1 + 1e-9).all(), 'initial-interior')
        ctx.close(t['building'], (targets + outside) / 2, 'initial-building')
        warm = t['interior'] >= targets
        ctx.close(t['emitter'], np.where(warm, t['interior'], p['emitters_target_temperature']), 'initial-emitter')
    ctx.check(((t['cylinder'] >= 50) & (t['cylinder'] <= 52)).all(), 'initial-cylinder')
    ctx.eq(float(t['cold_water']), 10., 'initial-cold')
    ctx.event('initial')
    hist = [t]
    for k in range(steps):
        w = weather(ctx, hh)
        out = dict(dhw=ctx.rng.uniform(0, 4000, hh) * (ctx.rng.random(hh) < .5), space_heating=ctx.rng.uniform(0, 8000, hh) * (ctx.rng.random(hh) < .5))
        out['total'] = out['dhw'] + out['space_heating']
        gains = w['occ'] + w['light'] + w['app']
        do_step(sim, w, out)
        new = temps(sim)
        want = building_next(p, t, sec, w['outside'], w['irradiance'], w['h_dhw'], gains, out)
        for n in ('building', 'interior', 'emitter', 'cylinder', 'cold_water'):
            ctx.close(new[n], want[n], 'node-' + n, rtol=1e-9, atol=1e-7)
        # whatever enters the house is stored in it
        stored = sum(c * (new[n] - t[n]) for n, c in (('building', p['ext_capacitance']), ('interior', p['int_capacitance']),
                                                      ('emitter', p['emitters_capacitance']), ('cylinder', p['c_cyl'])))
        inflow = sec * (p['out_build_transfer_coef'] * (w['outside'] - t['building']) + p['ventilation_transfer_coef'] * (w['outside'] - t['interior'])
                        + w['irradiance'] * p['irradiance_multiplier'] + gains + out['dhw'] + out['space_heating']
                        + w['h_dhw'] * (t['cold_water'] - t['cylinder']))
        ctx.close(stored, inflow, 'stored-heat', rtol=1e-6, atol=1.)
        ctx.event('balance', hh)
        ctx.event('stored_heat', hh)
        ctx.state(tuple(np.round(new['interior'], 2)))
        t = new
        hist.append(t)
        if not all(np.isfinite(v).all() and np.abs(v).max() < 1e4 for v in t.values()):
            break       # explicit scheme outside its range of stability
    if log is not None:
        got = sim.logger.get('get_temperatures')
        for n in ('building', 'interior', 'emitter', 'cylinder'):
            ctx.close(np.array(got[n]), np.array([h[n] for h in hist[:-1]]), 'log')
        ctx.event('log')


@S.scenario(60, 500)
def equilibrium(ctx):
    """Nothing moves when everything is at the outside temperature."""
    d = data_of(ctx)
    hh, sec = ctx.many(5), ctx.choice(STEPS)
    x = float(ctx.rng.uniform(-10, 30))
    ctx.case(hh=hh, dt=sec, x=x)
    hs, sim = make(ctx, d, hh, sec, np.full(hh, 20.), x)
    for n in ('building', 'interior', 'emitter', 'cylinder'):
        sim.temperatures[n] = np.full(hh, x)
    w = dict(outside=x, irradiance=0., h_dhw=np.zeros(hh), occ=np.zeros(hh), light=np.zeros(hh), app=np.zeros(hh))
    z = dict(dhw=np.zeros(hh), space_heating=np.zeros(hh), total=np.zeros(hh))
    for _ in range(5):
        do_step(sim, w, z)
    for n in ('building', 'interior', 'emitter', 'cylinder'):
        ctx.close(sim.get_temperatures()[n], np.full(hh, x), 'moved', atol=1e-6)
    ctx.event('equilibrium')
    ctx.state(round(x))


@S.scenario(250, 4000)
def demands(ctx):
    d = data_of(ctx)
    hh, sec = ctx.many(8), ctx.choice(STEPS + [None, 86400, 90000])
    algo = ctx.choice(['heat_max_emmiters', 'room_estimation', None])
    db = None if ctx.rng.random() < .3 else dict(space_heating=float(ctx.rng.integers(0, 3)), hot_water=float(ctx.rng.integers(0, 6)), emitter=float(ctx.rng.integers(0, 6)))
    ctx.case(hh=hh, dt=sec, algo=algo, db=db, bld=d.bld)
    hs, b = make(ctx, d, hh, sec, np.full(hh, 20.), 5.)
    log = SimLogger('get_heat_demand', aggregated=False) if ctx.rng.random() < .4 else None
    kw = {k: v for k, v in (('step_size', None if sec is None else dt.timedelta(seconds=sec)), ('heatdemand_algo', algo),
                            ('deadbands', db and dict(db)), ('logger', log)) if v is not None}
    sim = HeatDemand(hh, hs, b, **kw)
    for v in sim.get_heat_demand().values():
        ctx.eq(np.asarray(v), np.zeros(hh), 'initial')
    p = params(d, sys_types(d, hs), bld_types(d, b))
    db = db or dict(space_heating=1, hot_water=5, emitter=5)
    hist = [dict(dhw=np.zeros(hh), space_heating=np.zeros(hh))]
    for k in range(ctx.randint(1, 6)):
        r = ctx.rng
        t = dict(building=r.uniform(-5, 25, hh), interior=r.uniform(10, 26, hh), emitter=r.uniform(15, 60, hh), cylinder=r.uniform(30, 65, hh), cold_water=10.)
        target = dict(dhw=r.uniform(40, 62, hh), space_heating=r.uniform(14, 26, hh), emitter=r.uniform(40, 60, hh))
        h_dhw = np.where(r.random(hh) < .5, 0., r.uniform(0, 400, hh))
        outside = float(r.uniform(-15, 30))
        want = demand(p, t, target, sec or 60, db, h_dhw, outside, algo or 'heat_max_emmiters')
        t2, g2 = {x: np.array(v) for x, v in t.items()}, {x: v.copy() for x, v in target.items()}
        sim.step(t2, g2, h_dhw.copy(), outside)
        got = sim.get_heat_demand()
        for x in want:
            ctx.close(np.asarray(got[x]), want[x], 'demand-' + x, rtol=1e-8, atol=1e-5)
        for x in target:
            ctx.eq(g2[x], target[x], 'inputs-changed')
        for x in t:
            ctx.eq(t2[x], np.asarray(t[x]), 'inputs-changed')
        hist.append(want)
        ctx.event('room_demand' if algo == 'room_estimation' else 'demand', hh)
        ctx.state(algo, tuple(np.round(want['dhw'])))
    if log is not None:
        got = sim.logger.get('get_heat_demand')
        for x in want:
            ctx.close(np.array(got[x]), np.array([h[x] for h in hist[:-1]]), 'log', rtol=1e-8, atol=1e-5)


@S.scenario(150, 2500)
def delivered(ctx):
    """Delivering exactly the demand brings emitters and cylinder to set point plus deadband in one step of any size."""
    d = data_of(ctx)
    hh, sec = ctx.many(6), ctx.choice(STEPS)
    ctx.case(hh=hh, dt=sec, bld=d.bld)
    hs, b = make(ctx, d, hh, sec, ctx.rng.uniform(15, 25, hh), float(ctx.rng.uniform(-10, 20)))
    db = dict(space_heating=float(ctx.rng.integers(0, 3)), hot_water=float(ctx.rng.integers(0, 6)), emitter=float(ctx.rng.integers(0, 6)))
    sim = HeatDemand(hh, hs, b, step_size=dt.timedelta(seconds=sec), deadbands=db)
    for k in range(5):
        target = dict(dhw=ctx.rng.uniform(40, 62, hh), space_heating=ctx.rng.uniform(14, 26, hh), emitter=ctx.rng.uniform(40, 60, hh))
        w = weather(ctx, hh)
        sim.step(b.get_temperatures(), target, w['h_dhw'], w['outside'])
        out = {x: np.array(v) for x, v in sim.get_heat_demand().items()}
        out['total'] = sum(out.values())
        do_step(b, w, out)
        t = temps(b)
        ctx.close(t['emitter'], target['emitter'] + db['emitter'], 'emitter', rtol=1e-8)
        ctx.close(t['cylinder'], target['dhw'] + db['hot_water'], 'cylinder', rtol=1e-8)
        ctx.event('reached', hh)
        ctx.state(tuple(np.round(t['interior'], 1)))
        if not np.isfinite(t['interior']).all() or np.abs(t['interior']).max() > 1e3:
            break


@S.scenario(40, 400)
def equipment(ctx):
    d = HeatData(ctx)
    hh = 2000
    ctx.case(p=d.bld['equipped_prob'])
    hs, sim = make(ctx, d, hh, 60, np.full(hh, 20.), 5.)
    c = np.bincount(bld_types(d, sim), minlength=d.n_bld)
    ctx.check(gof(c, d.bld['equipped_prob']) > ALPHA, 'frequency', lambda: str(c))
    ctx.event('equipment')
    ctx.state(tuple(c > 0))


@S.scenario(20, 100)
def refused(ctx):
    d = HeatData(ctx)
    hh = ctx.randint(1, 5)
    ctx.case(hh=hh)
    hs, b = make(ctx, d, hh, 60, np.full(hh, 20.), 5.)
    t = b.get_temperatures()
    target = dict(dhw=np.full(hh, 50.), space_heating=np.full(hh, 20.), emitter=np.full(hh, 50.))
    ctx.raises(ValueError, lambda: HeatDemand(hh, hs, b, heatdemand_algo='best').step(t, target, np.zeros(hh), 5.), 'algo')
    d.bld['equipped_prob'] = d.bld['equipped_prob'] * .5
    ctx.raises(Exception, lambda: make(ctx, d, hh, 60, np.full(hh, 20.), 5.), 'equipment')
    ctx.event('refused')
    # without outside temperature the room method falls back, with a warning
    one = HeatDemand(hh, hs, b, heatdemand_algo='room_estimation')
    two = HeatDemand(hh, hs, b)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        one.step(t, target, np.zeros(hh))
    ctx.check(any(issubclass(x.category, UserWarning) for x in rec), 'fallback-warning')
    two.step(t, target, np.zeros(hh))
    for x in ('dhw', 'space_heating'):
        ctx.close(one.get_heat_demand()[x], two.get_heat_demand()[x], 'fallback')
    ctx.event('fallback')
    ctx.state(hh)


@S.scenario(8, 60)
def beginnings(ctx):
    """Where many houses begin, with targets and without."""
    d = data_of(ctx)
    hh, outside = 3000, float(ctx.rng.uniform(-15, 30))
    targets = None if ctx.index % 2 else ctx.rng.uniform(14, 25, hh)
    ctx.case(hh=hh, targets=targets is not None, outside=outside)
    hs, sim = make(ctx, d, hh, None, targets, outside)
    p = params(d, sys_types(d, hs), bld_types(d, sim))
    t = temps(sim)
    aim = 2 * t['building'] - outside
    if targets is None:
        # the default targets, from N(20, 2) as the warning tells: five standard errors
        ctx.check(abs(aim.mean() - 20) < 10 / hh ** .5, 'default-targets', 'mean %r' % aim.mean())
        ctx.check(abs(aim.std() - 2) < 10 / (2 * hh) ** .5, 'default-targets', 'deviation %r' % aim.std())
        ctx.event('no_targets')
    else:
        ctx.close(aim, targets, 'initial-building', atol=1e-9)
        ctx.event('many_targets')
    off = t['interior'] - aim
    ctx.check(-1 - 1e-9 <= off.min() < -.98 and .98 < off.max() <= 1 + 1e-9, 'initial-interior', '%r to %r' % (off.min(), off.max()))
    ctx.check(abs(off.mean()) < 5 * 3 ** -.5 / hh ** .5, 'initial-interior', 'mean %r' % off.mean())
    ctx.close(t['emitter'], np.where(t['interior'] >= aim, t['interior'], p['emitters_target_temperature']), 'initial-emitter')
    cyl = t['cylinder']
    ctx.check(50 <= cyl.min() < 50.02 and 51.98 < cyl.max() <= 52, 'initial-cylinder', '%r to %r' % (cyl.min(), cyl.max()))
    ctx.state('beginnings', ctx.index)
