"""Stand-in appliance data and observers shared by the appliance checks (not a check itself)."""
import datetime as dt
import zlib

import numpy as np

ALWAYS = ('level', 'constant')
ACTS = ['cooking', 'Watching_TV', 'laundry', 'dishwashing', 'self_washing', 'Electronics']
BASE_TYPES = ['fridge', 'tv', 'hob', 'kettle', 'basin', 'washer', 'dryer', 'iron']
MINUTE = dt.timedelta(minutes=1)


def canon(subgroup):
    return repr(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in subgroup.items() if v is not None))


class ApplData:
    """Random appliances, real profiles that encode (type, profile, position), one-valued activity profiles."""

    def __init__(self, ctx, refresh=dt.time(4), probabilistic=None, water=True, follow=False, always=True, frac=True, n=None):
        rng = ctx.rng
        self.ctx, self.refresh_time, self.step_size = ctx, refresh, MINUTE
        self.salt = ctx.randint(0, 10**6)
        n = n or ctx.randint(1, 9)
        self.n = n
        types = [ctx.choice(BASE_TYPES) for _ in range(n)]
        # parented types
        types = [t if rng.random() < .7 else ctx.choice(['big', 'small_red']) + '_' + t for t in types]
        self.type_act = {t: ctx.choice(ACTS) for t in sorted(set(types))}
        for t in self.type_act:
            if always and rng.random() < .25:
                self.type_act[t] = ctx.choice(ALWAYS)
        # different activities for equal types, as long as the kind of use stays the same
        acts = [self.type_act[t] if self.type_act[t] in ALWAYS or rng.random() < .5 else ctx.choice(ACTS) for t in types]
        uses_water = np.array([water and a not in ALWAYS and rng.random() < .3 for a in acts])
        delay = np.array([0 if u and frac else ctx.choice([0, 0, 1, 3, 7, 20]) for u in uses_water])
        dur = np.array([float(ctx.choice([1, 1, 2, 3, 5, 12, 40])) for _ in range(n)])
        if frac:
            dur = np.where(delay == 0, dur + rng.choice([0., 0., .25, .65], n), dur)
            if rng.random() < .2:
                dur[ctx.randint(0, n - 1)] = 0.
        d = dict(
            name=np.array(['A%d' % i for i in range(n)]), type=np.array(types), related_activity=np.array(acts),
            equipped_prob=np.array([ctx.choice([0., 1., .3, .8]) for _ in range(n)]),
            inactive_switch_off=np.array([a not in ALWAYS and rng.random() < .5 for a in acts]),
            mean_elec_consumption=np.round(rng.uniform(0, 2000, n), 1),
            mean_water_consumption=np.where(uses_water, np.round(rng.uniform(1, 12, n), 2), 0.),
            uses_water=uses_water, mean_duration=dur, after_cycle_delay=delay,
            standby_consumption=rng.integers(0, 9, n),
            poisson_sampling_lambda_liters=np.where(uses_water, np.round(rng.uniform(.5, 60, n), 2), 0.),
            target_cycle_year=rng.uniform(1, 900, n), target_switchons=rng.uniform(1, 900, n),
            switch_on_prob_crest=np.array([ctx.choice([0., 1., 1., 1.]) for _ in range(n)]))
        if probabilistic is not None:
            d['probabilistic'] = np.array([bool(rng.random() < probabilistic) for _ in range(n)])
            d['previous_activity'] = np.array(['nan'] * n, dtype='U20')
            d['previous_appliance_type'] = np.array(['nan'] * n, dtype='U20')
        self.app = d
        self.profiles = {'switchedON': {}, 'full': {}}
        self.decode = {}
        for k, t in enumerate(sorted(set(types))):
            if rng.random() < .5 or uses_water[[x == t for x in types]].any():
                continue
            kind = 'full' if self.type_act[t] in ALWAYS else 'switchedON'
            self.profiles[kind][t] = {
                'p%d' % j: 1. + 10**6 * (k + 1) + 10**4 * j + np.arange(ctx.randint(2, 25) if ctx.rng.random() < .85 else ctx.randint(100, 700))
                for j in range(ctx.randint(1, 3))}
        # a type of the other kind must not be used
        if rng.random() < .5:
            for kind, other in (('full', 'switchedON'), ('switchedON', 'full')):
                for t in list(self.profiles[kind]):
                    if t not in self.profiles[other] and rng.random() < .5:
                        self.profiles[other][t] = {'wrong': np.full(3, 7.)}
        self.asked = []

    def gen(self, subgroup, *extra):
        return np.random.Generator(np.random.PCG64(zlib.crc32(repr((canon(subgroup), self.salt) + extra).encode())))

    # -- loaders -----------------------------------------------------------
    def load_appliance_dict(self):
        d = {k: v.copy() for k, v in self.app.items()}
        d['number'] = self.n
        return d

    def load_real_profiles_dict(self, kind='full'):
        return {t: {k: v.copy() for k, v in x.items()} for t, x in self.profiles[kind].items()}

    def ownership(self, subgroup):
        sub = {k: v for k, v in subgroup.items() if k not in ('weekday', 'quarter')}
        g = self.gen(sub, 'own')
        out = {}
        for t in BASE_TYPES:
            out[t] = float(g.choice([0., 1., 1.]))
            if g.random() < .5:
                out[t + '_2'] = float(g.choice([0., 1.]))
        return out

    def load_appliance_ownership_dict(self, subgroup={}):
        return self.ownership(subgroup)

    def act_pdf(self, subgroup):
        g = self.gen(subgroup, 'act')
        p_on = g.choice([.1, .5, .9])
        out = {a: (g.random((144, 7)) < p_on).astype(float) for a in ACTS + list(ALWAYS)}
        for a in ALWAYS:
            out[a][:] = 1.
        if g.random() < .7:
            for a in ACTS:
                out[a][:, 0] = 0.
        return out

    def load_activity_probability_profiles(self, subgroup):
        self.asked.append((canon(subgroup)))
        return self.act_pdf(subgroup)

    # -- oracles -----------------------------------------------------------
    def variable(self, algo):
        """Appliances whose consumption comes from a real profile."""
        on = np.isin(self.app['type'], list(self.profiles['switchedON'])) & ~np.isin(self.app['related_activity'], ALWAYS)
        full = np.isin(self.app['type'], list(self.profiles['full'])) & np.isin(self.app['related_activity'], ALWAYS)
        return {'nothing': on & False, 'only_always_on': full, 'only_switched_on': on, 'uniform': on | full}[algo]

    def decoded(self, app, value):
        """(profile, position, length) of a profile value of this appliance, None if it belongs to no profile of its type."""
        kind = 'full' if self.app['related_activity'][app] in ALWAYS else 'switchedON'
        for name, vals in self.profiles[kind].get(self.app['type'][app], {}).items():
            w = np.flatnonzero(vals == value)
            if len(w):
                return name, int(w[0]), len(vals)
        return None


ALGOS = ['nothing', 'only_always_on', 'only_switched_on', 'uniform']


def check_power(ctx, app, owned, var, sim, usage, decoded=None):
    """Consumption of every appliance and of the households follows from the usage."""
    power = np.asarray(sim.get_current_power_consumptions())
    ctx.eq(power.shape, usage.shape, 'power-shape')
    ctx.check(not (usage & ~owned).any(), 'unowned-used', lambda: str(np.argwhere(usage & ~owned)[:4]))
    want = np.where(usage, app['mean_elec_consumption'], app['standby_consumption'] * 1.) * owned
    fixed = ~(usage & var[None, :])
    ctx.close(np.where(fixed, power, 0.), np.where(fixed, want, 0.), 'appliance-power')
    tot = power.sum(axis=1)
    ctx.close(sim.get_power_demand(), tot, 'household-power')
    ctx.close(sim.get_energy_consumption(), tot, 'household-energy')
    ctx.close(sim.get_thermal_gains(), tot, 'thermal-gains')
    ctx.event('power', usage.size)
    ctx.event('in_use', usage.sum())
    return power
