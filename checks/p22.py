"""P22 the five heating modules together, and external components."""
import datetime as dt
import warnings

import numpy as np

from vlib.core import Spec
from checks.heat import TH, HeatData, building_next, controls, demand, outputs, params, powers, thermostat_next
from checks.p21 import Shipped, bld_types, quiet, sys_types, weather
from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.base_simulators import SimLogger
from demod.simulators.heating_simulators import FiveModulesHeatingSimulator, HeatingSystem

S = Spec('P22', 'Complete heating simulators of random and shipped parameters, any step size, random weather, gains and water; external '
         'set points, heat outputs (array, dictionary, per use) and cylinders given for some households and steps (NaN elsewhere); '
         'non-trivial = distinct data and history.',
         required=['internal', 'target_array', 'target_dict', 'target_single', 'heat_array', 'heat_dict', 'heat_whole', 'whole_degrees', 'dhw_array', 'sh_array', 'override_order', 'cylinder',
                   'cylinder_ends', 'nan_keeps', 'split', 'split_priority', 'external_power', 'step_size', 'log', 'other_system', 'shipped'])

NODES = ('building', 'interior', 'emitter', 'cylinder')


def some(ctx, values):
    """The values for some households, NaN for the others."""
    m = ctx.rng.random(len(values)) < ctx.choice([.2, .6, 1.])
    ctx.event('nan_keeps', (~m).sum())
    return np.where(m, values, np.nan)


def merge(base, ext):
    return base if ext is None else np.where(np.isnan(ext), base, ext)


class Model:
    """The composition described in the documentation, from the parameters of the data."""

    def __init__(self, d, sim, hh, sec, algo):
        self.d, self.hh, self.sec, self.algo = d, hh, sec, algo
        self.st, self.bt = sys_types(d, sim.heatingsystem), bld_types(d, sim.building_sim)
        self.p = params(d, self.st, self.bt)
        self.combi = np.asarray(d.sys['is_combi'])[self.st].astype(bool)
        self.ms, self.md = (np.asarray(d.sys[k], float)[self.st] for k in ('heat_output_sh', 'heat_output_dhw'))
        self.t = {k: np.array(v, float) for k, v in sim.get_temperatures().items()}
        self.target = {k: np.array(v, float) for k, v in sim.get_target_temperatures().items()}
        self.on = {k: np.array(v, bool) for k, v in sim.get_thermostat_states().items()}

    def decide(self, sim, w, ext_target, cyl):
        """Set points, thermostats, controls, demand and internal outputs of the step."""
        if isinstance(ext_target, dict):
            for k, v in ext_target.items():
                self.target[k] = merge(self.target[k], v)
        elif ext_target is not None:
            self.target['space_heating'] = merge(self.target['space_heating'], ext_target)
        self.t['cylinder'] = merge(self.t['cylinder'], cyl)
        self.ext_cyl = np.zeros(self.hh, bool) if cyl is None else ~np.isnan(cyl)
        db = self.d.th['deadband']
        for k, n, g in TH:
            # exactly at a switching point (where the heating aims) rounding decides
            tie = (abs(abs(self.t[n] - self.target[g]) - db[k]) < 1e-6)
            self.on[k] = np.where(tie, np.asarray(sim.get_thermostat_states()[k]).astype(bool),
                                  thermostat_next(self.on[k], self.t[n], self.target[g], db[k]))
        self.ctl = controls(w['h_dhw'], self.on, self.combi, self.ext_cyl)
        self.dem = demand(self.p, self.t, self.target, self.sec, db, w['h_dhw'], w['outside'], self.algo)
        self.own = outputs(self.ctl, self.dem, self.ms, self.md)
        self.before = {k: np.array(v) for k, v in self.t.items()}

    def sync(self, sim):
        """Go on from the observed temperatures, which have just been compared."""
        self.t = {k: np.array(v, float) for k, v in sim.get_temperatures().items()}

    def move(self, w, out):
        self.t = building_next(self.p, self.t, self.sec, w['outside'], w['irradiance'], w['h_dhw'], w['occ'] + w['light'] + w['app'], out)

    def cylinder_demand(self, t, w):
        return w['h_dhw'] * (self.target['dhw'] - t['cold_water']) + self.p['cyl_loss'] * (t['cylinder'] - t['interior'])


def start(ctx, external):
    if ctx.rng.random() < .8:
        d = HeatData(ctx, stable=ctx.rng.random() < .7)
    else:
        cls = ctx.choice([GermanDataHerus, Crest])
        d = quiet(lambda: Shipped(cls()))
        for t in (d.sys, d.bld):
            n = len(t['equipped_prob'])
            t['equipped_prob'] = np.eye(n)[ctx.rng.integers(n)]
        ctx.event('shipped')
    hh, steps = ctx.many(7), ctx.randint(2, 25)
    sec = ctx.choice([None, 10, 60, 60, 120, 300, 600])
    algo = ctx.choice([None, 'heat_max_emmiters', 'room_estimation'])
    outside = float(ctx.rng.uniform(-10, 25))
    log = SimLogger('get_room_temperature', 'get_power_demand', 'get_controls', aggregated=False) if ctx.rng.random() < .3 else None
    ctx.case(hh=hh, steps=steps, sec=sec, algo=algo, outside=outside, external=external, sys=d.sys, bld=d.bld)
    kw = {k: v for k, v in (('step_size', sec and dt.timedelta(seconds=sec)), ('heatdemand_algo', algo), ('logger', log)) if v is not None}
    sim = quiet(lambda: FiveModulesHeatingSimulator(hh, outside, data=d, **kw))
    if sec not in (None, 60):
        ctx.event('step_size')
    return d, sim, Model(d, sim, hh, sec or 60, algo or 'heat_max_emmiters'), hh, steps, log


def step(sim, w, **ext):
    quiet(lambda: sim.step(outside_temperature=w['outside'], irradiance=w['irradiance'], dhw_heating_demand=w['h_dhw'].copy(),
                           occupancy_thermal_gains=w['occ'].copy(), lighting_thermal_gains=w['light'].copy(),
                           appliances_thermal_gains=w['app'].copy(), **ext))


def judge(ctx, sim, m, w, out, external):
    tol = dict(rtol=1e-7, atol=1e-5)
    for k in m.target:
        ctx.close(np.asarray(sim.get_target_temperatures()[k], float), m.target[k], 'target-' + k)
    for k, v in m.on.items():
        ctx.eq(np.asarray(sim.get_thermostat_states()[k]).astype(bool), v, 'thermostat-' + k)
    for k, v in m.ctl.items():
        ctx.eq(np.asarray(sim.get_controls()[k]).astype(bool), v, 'control-' + k)
    got = sim.get_heat_outputs()
    for k in ('dhw', 'space_heating'):
        ctx.close(np.asarray(got[k], float), out[k], 'output-' + k, **tol)
    ctx.close(np.asarray(got['total'], float), out['dhw'] + out['space_heating'], 'output-total', **tol)
    for n in NODES:
        ctx.close(np.asarray(sim.get_temperatures()[n], float), m.t[n], 'temperature-' + n, **tol)
    ctx.close(np.asarray(sim.get_room_temperature(), float), m.t['interior'], 'room', **tol)
    ctx.close(np.asarray(sim.get_sh_heat_demand(), float), m.dem['space_heating'] * m.ctl['space_heating_on'], 'sh-demand', **tol)
    hot = np.asarray(sim.get_dhw_heat_demand(), float)
    want = m.dem['dhw'] * m.ctl['heat_water_on']
    ctx.close(hot[~m.ext_cyl], want[~m.ext_cyl], 'dhw-demand', **tol)
    if m.ext_cyl.any():
        a, b = (m.cylinder_demand(t, w) * m.ctl['heat_water_on'] for t in (m.before, m.t))
        lo, hi = np.minimum(a, b), np.maximum(a, b)
        ok = (hot >= lo - 1e-5 - 1e-7 * abs(lo)) & (hot <= hi + 1e-5 + 1e-7 * abs(hi))
        ctx.check(ok[m.ext_cyl].all(), 'dhw-demand-cylinder', lambda: 'got %s between %s and %s' % (hot, lo, hi))
    ctx.close(np.asarray(sim.get_total_heat_demand(), float),
              m.ctl['heater_on'] * (hot + m.dem['space_heating'] * m.ctl['space_heating_on']), 'total-demand', **tol)
    pw = powers(m.d, m.st, m.ctl, m.own)['power']
    power = np.asarray(quiet(sim.get_power_demand), float)
    ctx.close(power, np.where(external, 0., pw), 'power', **tol)
    ctx.event('external_power', external.sum())
    ctx.close(np.asarray(quiet(sim.get_energy_consumption), float)[external], np.zeros(external.sum()), 'external-energy')
    ctx.state(tuple(np.round(m.t['interior'], 2)))
    m.sync(sim)
    return power


def sane(m):
    return all(np.isfinite(v).all() and np.abs(v).max() < 2000 for v in m.t.values())


@S.scenario(150, 3000)
def internal(ctx):
    d, sim, m, hh, steps, log = start(ctx, False)
    room, power = [m.t['interior'].copy()], []
    for _ in range(steps):
        w = weather(ctx, hh)
        step(sim, w)
        m.decide(sim, w, None, None)
        m.move(w, m.own)
        power.append(judge(ctx, sim, m, w, m.own, np.zeros(hh, bool)))
        room.append(m.t['interior'].copy())
        ctx.event('internal', hh)
        if not sane(m):
            break
    if log is not None:
        ctx.close(sim.logger.get('get_room_temperature'), np.array(room[:-1]), 'log', rtol=1e-7, atol=1e-5)
        ctx.close(sim.logger.get('get_power_demand')[1:], np.array(power[:-1]).reshape(-1, hh), 'log', rtol=1e-7, atol=1e-5)
        ctx.event('log')


@S.scenario(400, 6000)
def external(ctx):
    """External components given for some households at some steps."""
    d, sim, m, hh, steps, log = start(ctx, True)
    p = {k: ctx.rng.random() * .8 for k in ('target', 'heat', 'dhw', 'sh', 'cyl')}
    for k in p:
        if ctx.rng.random() < .35:
            p[k] = 0.
    had_cyl = np.zeros(hh, bool)
    off = {k: np.zeros(hh, bool) for k in ('heater_on', 'heat_water_on', 'space_heating_on')}
    last = off, {k: np.zeros(hh) for k in ('dhw', 'space_heating')}
    for _ in range(steps):
        w = weather(ctx, hh)
        ext = {}
        target = heat = None
        if ctx.rng.random() < p['target']:
            target = some(ctx, ctx.rng.uniform(14, 26, hh))
            if ctx.rng.random() < .4:
                target = {'space_heating': target}
                if ctx.rng.random() < .5:
                    target['dhw'] = some(ctx, ctx.rng.uniform(42, 60, hh))
                if ctx.rng.random() < .3:
                    target['space_heating'] = ctx.choice([float, np.float64])(ctx.rng.uniform(14, 26))      # the same for all
                    ctx.event('target_single')
                ctx.event('target_dict')
            else:
                ctx.event('target_array')
            ext['external_target_temperature'] = target
        if ctx.rng.random() < p['heat']:
            if ctx.rng.random() < .5:
                heat = some(ctx, ctx.rng.uniform(0, 9000, hh))
                ctx.event('heat_array')
            else:
                heat = {k: some(ctx, ctx.rng.uniform(0, 5000, hh)) for k in ('dhw', 'space_heating') if ctx.rng.random() < .8}
                if ctx.rng.random() < .3:      # whole watts
                    heat = {k: ctx.rng.integers(0, 5000, hh) for k in heat}
                    ctx.event('heat_whole')
                ctx.event('heat_dict')
            ext['external_heat_outputs'] = heat
        for k, name, ev in (('dhw', 'external_dhw_outputs', 'dhw_array'), ('sh', 'external_sh_outputs', 'sh_array')):
            if ctx.rng.random() < p[k]:
                ext[name] = some(ctx, ctx.rng.uniform(0, 5000, hh))
                ctx.event(ev)
        cyl = None
        if ctx.rng.random() < p['cyl']:
            cyl = some(ctx, ctx.rng.uniform(20, 65, hh))
            ext['external_cylinder_temperature'] = cyl
            ctx.event('cylinder')
        now = np.zeros(hh, bool) if cyl is None else ~np.isnan(cyl)
        ctx.event('cylinder_ends', (had_cyl & ~now).sum())
        had_cyl = now
        keep = {k: ({x: np.array(y) for x, y in v.items()} if isinstance(v, dict) else v.copy()) for k, v in ext.items()}
        step(sim, w, **ext)
        wanted = keep.get('external_target_temperature')
        if isinstance(wanted, dict):
            wanted = {x: np.broadcast_to(y, (hh,)) for x, y in wanted.items()}
        m.decide(sim, w, wanted, keep.get('external_cylinder_temperature'))
        for k, v in keep.items():
            if isinstance(v, dict):
                ctx.eq(sorted(ext[k]), sorted(v), 'inputs-changed', k)
                for x in v:
                    ctx.check(np.array_equal(ext[k][x], v[x], equal_nan=True), 'inputs-changed', k)
            else:
                ctx.check(np.array_equal(ext[k], v, equal_nan=True), 'inputs-changed', k)
        # expected heat of each household
        out = {k: m.own[k].copy() for k in ('dhw', 'space_heating')}
        external = np.zeros(hh, bool)
        free = {k: np.zeros(hh, bool) for k in out}
        if isinstance(heat, dict):
            for k, v in heat.items():
                out[k] = merge(out[k], v)
                external |= ~np.isnan(v)
        elif heat is not None:
            given = ~np.isnan(heat)
            external |= given
            got = {k: np.asarray(sim.get_heat_outputs()[k], float) for k in out}
            over = {k: ext.get(n) for k, n in (('dhw', 'external_dhw_outputs'), ('space_heating', 'external_sh_outputs'))}
            # hot water first, then space heating, the rest to the cylinder; requests of this step or of the one before
            ok = []
            for ctl, dem in (last, (m.ctl, m.dem)):
                req = np.clip(dem['dhw'], 0, heat)
                dhw = np.where(ctl['heater_on'] & ctl['heat_water_on'], req, 0)
                sh = np.where(ctl['heater_on'] & ctl['space_heating_on'], np.clip(dem['space_heating'], 0, heat - dhw), 0)
                whole = given & np.isnan(merge(np.full(hh, np.nan), ext.get('external_sh_outputs')))
                ok.append(np.allclose(got['space_heating'][whole], sh[whole], rtol=1e-6, atol=1e-3))
                ctx.event('split_priority', (whole & (dhw > 0) & (sh > 0) & (dhw + sh >= heat * (1 - 1e-9))).sum())
            ctx.check(any(ok), 'split-priority', lambda: 'space heating %s of %s' % (got['space_heating'], heat))
            for i in np.flatnonzero(given):
                fixed = [k for k in out if over[k] is not None and not np.isnan(over[k][i])]
                if not fixed:
                    # hot water and space heating share the heat given
                    ctx.close(got['dhw'][i] + got['space_heating'][i], heat[i], 'split-total', rtol=1e-9, atol=1e-6)
                    ctx.event('split')
                else:
                    ctx.event('override_order')
                for k in out:
                    if k not in fixed:
                        ctx.check(-1e-6 <= got[k][i] <= heat[i] + 1e-6, 'split-part', lambda: '%s %s of %s' % (k, got[k][i], heat[i]))
                        free[k][i] = True
            for k in out:
                out[k] = np.where(free[k], got[k], out[k])
        for k, n in (('dhw', 'external_dhw_outputs'), ('space_heating', 'external_sh_outputs')):
            if n in ext:
                out[k] = merge(out[k], ext[n])
                external |= ~np.isnan(ext[n])
        m.move(w, out)
        judge(ctx, sim, m, w, out, external)
        last = m.ctl, m.dem
        if not sane(m):
            break


@S.scenario(40, 500)
def other_system(ctx):
    """An external heating system replaces boiler type, cylinder and losses."""
    d, sim, m, hh, steps, _ = start(ctx, True)
    e = HeatData(ctx)
    other = HeatingSystem(hh, data=e)
    sim.set_external_heating_system(other)
    ctx.eq(np.asarray(quiet(sim.get_power_demand)).shape, (hh,), 'shape')
    st = sys_types(e, other)
    m.combi = np.asarray(e.sys['is_combi'])[st].astype(bool)
    m.p['cyl_loss'], m.p['c_cyl'] = e.sys['cyl_loss'][st], e.sys['cyl_volume'][st] * 4200.
    for _ in range(steps):
        w = weather(ctx, hh)
        heat = dict(dhw=ctx.rng.uniform(0, 4000, hh), space_heating=ctx.rng.uniform(0, 4000, hh))
        step(sim, w, external_heat_outputs=heat)
        m.decide(sim, w, None, None)
        m.move(w, heat)
        judge(ctx, sim, m, w, heat, np.ones(hh, bool))
        ctx.event('other_system')
        if not sane(m):
            break
