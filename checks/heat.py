"""Heating data with parameters that identify the type, shared by P19-P22."""
import numpy as np

from vlib.stats import rand_pdf

TH = (('hot_water', 'cylinder', 'dhw'), ('space_heating', 'interior', 'space_heating'), ('emitter', 'emitter', 'emitter'))


class HeatData:
    """Each type of system / building has a cylinder volume / floor area of its own."""

    def __init__(self, ctx, shipped_like=False, stable=False):
        r = ctx.rng
        n = self.n_sys = ctx.randint(1, 5)
        zero = (lambda: r.random(n) < .15) if not shipped_like else (lambda: np.zeros(n, bool))
        sh, dhw = r.uniform(1000, 25000, n), r.uniform(1000, 25000, n)
        sh[zero()] = 0.
        dhw[zero()] = 0.
        rate = r.uniform(.5, 4, n)
        self.sys = dict(
            equipped_prob=rand_pdf(r, n), name=np.array(['s%d' % i for i in range(n)]), is_combi=r.random(n) < .4,
            fuel_type=r.choice(['Mainsgas', 'Electricity'], n), fuel_flow_rate=rate, flow_rate_to_W=r.uniform(1000, 30000, n),
            heat_output_sh=sh, heat_output_dhw=dhw, standby_power=r.integers(0, 15, n).astype(float),
            pump_power=r.integers(15, 40, n).astype(float), cyl_volume=np.arange(n) * 10. + 5., cyl_loss=r.uniform(0, 3, n))
        if r.random() < .3:
            self.sys['is_combi'] = self.sys['is_combi'].astype(int)
        m = self.n_bld = ctx.randint(1, 5)
        k = 20. if stable else 1.
        self.bld = dict(
            equipped_prob=rand_pdf(r, m), name=np.array(['b%d' % i for i in range(m)]),
            out_build_transfer_coef=r.uniform(50, 500, m), build_int_transfer_coef=r.uniform(50, 500, m),
            ext_capacitance=r.uniform(8e6, 3e7, m) * k, int_capacitance=r.uniform(4e5, 2e6, m) * k,
            irradiance_multiplier=r.uniform(1, 6, m), floor_area=30. + np.arange(m), height=np.full(m, 2.5),
            ventilation_transfer_coef=r.uniform(5, 80, m), emitters_target_temperature=r.uniform(40, 60, m),
            emitters_transfer_coef=r.uniform(50, 300, m), emitters_capacitance=r.uniform(1e5, 4e5, m) * k)
        h, w = ctx.randint(1, 8), ctx.randint(1, 6)
        self.home_pdf, self.water_pdf = rand_pdf(r, h), rand_pdf(r, w)
        self.th = dict(home_temperatures_cdf=np.cumsum(self.home_pdf), home_temperatures_values=np.arange(h) + 14.,
                       water_temperatures_cdf=np.cumsum(self.water_pdf), water_temperatures_values=np.arange(w) * 3 + 42.,
                       emitter_setpoints=float(r.integers(40, 60)),
                       deadband=dict(space_heating=float(r.choice([0, .5, 1, 2])), hot_water=float(r.integers(0, 7)),
                                     emitter=float(r.integers(0, 7))))
        if ctx.rng.random() < .2:      # whole degrees
            for k in ('home_temperatures_values', 'water_temperatures_values', 'emitter_setpoints'):
                self.th[k] = np.asarray(self.th[k]).astype(int) if np.ndim(self.th[k]) else int(self.th[k])
            ctx.event('whole_degrees')

    def load_heating_system_dict(self, *a, **k):
        return {x: np.array(v) for x, v in self.sys.items()}

    def load_buildings_dict(self, *a, **k):
        return {x: np.array(v) for x, v in self.bld.items()}

    def load_thermostat_dict(self, *a, **k):
        return {x: dict(v) if isinstance(v, dict) else np.array(v) for x, v in self.th.items()}

    def brief(self):
        return dict(sys={k: v for k, v in self.sys.items() if k != 'name'}, bld={k: v for k, v in self.bld.items() if k != 'name'}, th=self.th)


def thermostat_next(on, t, target, db):
    """On until target + deadband is reached, then off until target - deadband."""
    return np.where(on, t < target + db, t <= target - db)


def controls(dhw, states, combi, external=False):
    water = np.where(np.asarray(combi, bool) | external, dhw > 0, states['hot_water'])
    space = states['space_heating'] & states['emitter']
    return dict(heater_on=water | space, heat_water_on=water, space_heating_on=space)


def outputs(ctl, demand, max_sh, max_dhw):
    """Hot water first, within the capacities."""
    n = len(max_sh)
    dhw, sh = np.zeros(n), np.zeros(n)
    for i in range(n):
        if not ctl['heater_on'][i]:
            continue
        left = max_sh[i]
        if ctl['heat_water_on'][i]:
            dhw[i] = min(max(demand['dhw'][i], 0.), max_dhw[i])
            left = max(max_sh[i] - dhw[i], 0.)
        if ctl['space_heating_on'][i]:
            sh[i] = min(max(demand['space_heating'][i], 0.), left)
    return dict(dhw=dhw, space_heating=sh, total=dhw + sh)


def load_fraction(out, max_sh, max_dhw):
    f = np.zeros(len(max_sh))
    f += np.divide(out['space_heating'], max_sh, out=np.zeros(len(f)), where=max_sh > 0)
    f += np.divide(out['dhw'], max_dhw, out=np.zeros(len(f)), where=max_dhw > 0)
    return f


def powers(data, types, ctl, out):
    d = {k: np.asarray(v)[types] for k, v in data.sys.items()}
    f = load_fraction(out, d['heat_output_sh'], d['heat_output_dhw']) * ctl['heater_on']
    pump = np.where(ctl['space_heating_on'], d['pump_power'], d['standby_power'])
    el, gas = d['fuel_type'] == 'Electricity', d['fuel_type'] == 'Mainsgas'
    elec = np.where(el, d['fuel_flow_rate'] * 1000. * f, 0.)
    return dict(pump=pump, electricity=elec, flow=np.where(gas, d['fuel_flow_rate'] / 3600. * f, 0.),
                gas=np.where(gas, d['flow_rate_to_W'] * f, 0.), power=pump + elec)


def building_next(p, t, dt, outside, irradiance, h_dhw, gains, out):
    """One explicit step of the four nodes from the flows between them (W)."""
    b, i, e, c, cw = t['building'], t['interior'], t['emitter'], t['cylinder'], t['cold_water']
    f_ob, f_bi = p['out_build_transfer_coef'] * (outside - b), p['build_int_transfer_coef'] * (b - i)
    f_v, f_em, f_cl = p['ventilation_transfer_coef'] * (outside - i), p['emitters_transfer_coef'] * (e - i), p['cyl_loss'] * (c - i)
    f_s = irradiance * p['irradiance_multiplier']
    return dict(building=b + dt / p['ext_capacitance'] * (f_ob - f_bi),
                interior=i + dt / p['int_capacitance'] * (f_bi + f_v + f_em + f_cl + f_s + gains),
                emitter=e + dt / p['emitters_capacitance'] * (out['space_heating'] - f_em),
                cylinder=c + dt / p['c_cyl'] * (out['dhw'] - f_cl + h_dhw * (cw - c)), cold_water=cw)


def params(data, st, bt):
    p = {k: np.asarray(v)[bt] for k, v in data.bld.items()}
    p['cyl_loss'] = data.sys['cyl_loss'][st]
    p['c_cyl'] = data.sys['cyl_volume'][st] * 4200.
    return p


def demand(p, t, target, dt, db, h_dhw, outside, algo):
    dhw = (p['c_cyl'] / dt * (target['dhw'] + db['hot_water'] - t['cylinder']) + h_dhw * (t['cylinder'] - t['cold_water'])
           + p['cyl_loss'] * (t['cylinder'] - t['interior']))
    if algo == 'heat_max_emmiters':
        sh = (p['emitters_capacitance'] / dt * (target['emitter'] + db['emitter'] - t['emitter'])
              + p['emitters_transfer_coef'] * (t['emitter'] - t['interior']))
    else:
        wall = 1 / (1 / p['build_int_transfer_coef'] + 1 / p['out_build_transfer_coef'])
        sh = (p['int_capacitance'] / dt * (target['space_heating'] + db['space_heating'] - t['interior'])
              - p['emitters_transfer_coef'] * (t['emitter'] - t['interior'])
              + (p['ventilation_transfer_coef'] + wall) * (t['interior'] - outside))
    return dict(dhw=dhw, space_heating=sh)


def start_temperatures(ctx, hh, targets=None):
    r = ctx.rng
    t = dict(building=r.uniform(-5, 25, hh), interior=r.uniform(10, 26, hh), emitter=r.uniform(15, 60, hh), cylinder=r.uniform(30, 65, hh))
    t['cold_water'] = 10.
    return t
