"""P20 heating system: capacities, priority of hot water, fuel and power."""
import warnings

import numpy as np

from vlib.core import Spec
from vlib.stats import ALPHA, gof
from checks.p21 import SYS, closest
from checks.heat import HeatData, outputs, powers
from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.base_simulators import SimLogger
from demod.simulators.heating_simulators import HeatingSystem

S = Spec('P20', 'Heating systems with random capacities (also without hot water or space heating), fuels and rates, and the shipped '
         'ones forced one by one; random controls and demands below, at and above the capacities, negative and zero; '
         'non-trivial = distinct data and history.',
         required=['output', 'capped', 'hot_water_first', 'off', 'fuel_gas', 'fuel_electric', 'no_capacity', 'initial_demand', 'log',
                   'shipped', 'equipment', 'refused'])


def rand_controls(ctx, hh, coherent):
    w, s = ctx.rng.random(hh) < .5, ctx.rng.random(hh) < .6
    return dict(heater_on=(w | s) if coherent else ctx.rng.random(hh) < .7, heat_water_on=w, space_heating_on=s)


def rand_demand(ctx, hh, max_sh, max_dhw):
    out = {}
    for k, m in (('dhw', max_dhw), ('space_heating', max_sh)):
        kind = ctx.rng.integers(0, 6, hh)
        out[k] = np.select([kind == 0, kind == 1, kind == 2, kind == 3], [np.zeros(hh), -ctx.rng.uniform(0, 5000, hh), m, m - out.get('dhw', 0.)],
                           m * ctx.rng.uniform(0, 1.8, hh))
    return out


def drive(ctx, sim, data, types, steps, prefix='', log=None):
    d = {k: np.asarray(v)[types] for k, v in data.sys.items()}
    hh = len(types)
    ms, md = d['heat_output_sh'].astype(float), d['heat_output_dhw'].astype(float)
    hist = []
    ctl = dict(heater_on=np.zeros(hh, bool), heat_water_on=np.zeros(hh, bool), space_heating_on=np.zeros(hh, bool))
    out = outputs(ctl, None, ms, md)
    for k in range(steps + 1):
        if k:
            ctl, dem = rand_controls(ctx, hh, ctx.rng.random() < .7), rand_demand(ctx, hh, ms, md)
            out = outputs(ctl, dem, ms, md)
            c2, d2 = {x: v.copy() for x, v in ctl.items()}, {x: v.copy() for x, v in dem.items()}
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                sim.step(heating_controls=c2, target_heat_demand=d2)
            for x in ctl:
                ctx.eq(c2[x], ctl[x], 'inputs-changed')
            for x in dem:
                ctx.eq(d2[x], dem[x], 'inputs-changed')
        judge(ctx, sim, data, types, ctl, out, ms, md, prefix)
        hist.append((out, powers(data, types, ctl, out)))
    if log is not None:
        got = sim.logger.get('get_heat_outputs')
        for x in out:
            ctx.close(np.array(got[x]), np.array([h[0][x] for h in hist])[:steps], 'log')
        ctx.close(sim.logger.get('get_power_demand'), np.array([h[1]['power'] for h in hist])[:steps], 'log')
        ctx.event('log')


def judge(ctx, sim, data, types, ctl, out, ms, md, prefix=''):
    got = {k: np.asarray(v, float) for k, v in sim.get_heat_outputs().items()}
    for x in ('dhw', 'space_heating', 'total'):
        ctx.close(got[x], out[x], prefix + 'output-' + x)
    ctx.check((got['total'] <= np.maximum(ms, md) * (1 + 1e-9) + 1e-6).all(), prefix + 'over-capacity')
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        pump, power, fuel, energy = (np.asarray(sim.get_pumps_power_consumptions(), float), np.asarray(sim.get_power_demand(), float),
                                     sim.get_fuel_consumptions(), np.asarray(sim.get_energy_consumption(), float))
    w = powers(data, types, ctl, out)
    ctx.close(pump, w['pump'], prefix + 'pump')
    ctx.close(power, w['power'], prefix + 'power')
    kinds = np.asarray(data.sys['fuel_type'])[types]
    ctx.eq(sorted(fuel), sorted(set(kinds)), prefix + 'fuels')
    for f, key in (('Mainsgas', 'flow'), ('Electricity', 'electricity')):
        if f in fuel:
            ctx.close(np.asarray(fuel[f], float), w[key], prefix + 'fuel-' + f, rtol=1e-6, atol=1e-12)
    ctx.close(energy, w['power'] + w['gas'], prefix + 'energy')
    ctx.event('output', len(types))
    ctx.event('off', (~ctl['heater_on']).sum())
    ctx.event('capped', ((out['total'] >= np.maximum(ms, md)) & (out['total'] > 0)).sum())
    ctx.event('hot_water_first', ((out['dhw'] > 0) & ctl['space_heating_on']).sum())
    ctx.event('no_capacity', ((ms == 0) | (md == 0)).sum())
    ctx.event('fuel_gas', (w['gas'] > 0).sum())
    ctx.event('fuel_electric', (w['electricity'] > 0).sum())
    ctx.state(tuple(np.round(out['total'])))


@S.scenario(250, 5000)
def systems(ctx):
    d = HeatData(ctx)
    hh, steps = ctx.many(12), ctx.randint(1, 12)
    ctx.case(sys=d.sys, hh=hh, steps=steps)
    log = SimLogger('get_heat_outputs', 'get_power_demand', aggregated=False) if ctx.rng.random() < .4 else None
    sim = HeatingSystem(hh, data=d, **({'logger': log} if log is not None else {}))
    types = closest(SYS, d.sys, sim)
    ctx.check((d.sys['equipped_prob'][types] > 0).all(), 'equipped')
    ctx.eq(np.asarray(sim.is_combi_boiler).astype(bool), np.asarray(d.sys['is_combi'])[types].astype(bool), 'combi')
    drive(ctx, sim, d, types, steps, log=log)


@S.scenario(80, 1000)
def initial_demand(ctx):
    """Started with a demand, the system serves it at once."""
    d = HeatData(ctx)
    hh = ctx.many(10)
    k = ctx.randint(0, d.n_sys - 1)
    d.sys['equipped_prob'] = np.eye(d.n_sys)[k]
    types = np.full(hh, k)
    ms, md = d.sys['heat_output_sh'][types], d.sys['heat_output_dhw'][types]
    ctl, dem = rand_controls(ctx, hh, True), rand_demand(ctx, hh, ms, md)
    if ctx.rng.random() < .2:
        ctl = None
    ctx.case(sys=d.sys, hh=hh, ctl=ctl, dem=dem)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        sim = HeatingSystem(hh, data=d, initial_heat_demand={x: v.copy() for x, v in dem.items()},
                            **({} if ctl is None else dict(initial_controls={x: v.copy() for x, v in ctl.items()})))
    off = {x: np.zeros(hh, bool) for x in ('heater_on', 'heat_water_on', 'space_heating_on')}
    ctl = ctl or off
    judge(ctx, sim, d, types, ctl, outputs(ctl, dem, ms, md), ms, md)
    ctx.event('initial_demand')
    # started with controls alone: no heat yet, the pumps run
    sim = HeatingSystem(hh, data=d, initial_controls={x: v.copy() for x, v in ctl.items()})
    judge(ctx, sim, d, types, ctl, outputs(off, None, ms, md), ms, md, 'controls-')


class Forced:
    def __init__(self, d, k):
        self.sys = d.load_heating_system_dict()
        self.sys = {x: np.asarray(v) for x, v in self.sys.items() if np.ndim(v)}
        self.sys['equipped_prob'] = np.eye(len(self.sys['name']))[k]

    def load_heating_system_dict(self, *a, **k):
        return {x: np.array(v) for x, v in self.sys.items()}


@S.scenario(50, 600)
def shipped(ctx):
    """Each shipped system in turn."""
    cls = ctx.choice([GermanDataHerus, Crest])
    k = ctx.index % (6 if cls is GermanDataHerus else 3)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = Forced(cls(), k)
    hh, steps = ctx.many(10), ctx.randint(2, 15)
    ctx.case(data=cls.__name__, system=str(d.sys['name'][k]), hh=hh, steps=steps)
    sim = HeatingSystem(hh, data=d)
    drive(ctx, sim, d, np.full(hh, k), steps)
    ctx.event('shipped')


@S.scenario(40, 500)
def equipment(ctx):
    d = HeatData(ctx)
    hh = 2000
    ctx.case(p=d.sys['equipped_prob'])
    sim = HeatingSystem(hh, data=d)
    c = np.bincount(closest(SYS, d.sys, sim), minlength=d.n_sys)
    ctx.check(gof(c, d.sys['equipped_prob']) > ALPHA, 'frequency', lambda: str(c))
    ctx.event('equipment')
    ctx.state(tuple(c > 0))


@S.scenario(20, 100)
def refused(ctx):
    d = HeatData(ctx)
    hh = ctx.randint(1, 5)
    ctx.case(hh=hh)
    d.sys['equipped_prob'] = d.sys['equipped_prob'] * .5
    ctx.raises(Exception, lambda: HeatingSystem(hh, data=d), 'equipment')
    d = HeatData(ctx)
    d.sys['fuel_type'] = np.array(['Wood'] * d.n_sys)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        ctx.raises(ValueError, lambda: HeatingSystem(hh, data=d).get_fuel_consumptions(), 'fuel')
    ctx.event('refused')
    ctx.state(hh)
