"""Every simulator of the package with realistic inputs (used by P04 and P30)."""
import copy
import datetime as dt
import hashlib
import inspect
import os
import warnings

import numpy as np

from checks.appl import ACTS, ALGOS
from checks.heat import HeatData
from checks.p07 import random_start
from checks.p13 import SIMS, FullData, mix
from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.datasets.GermanTOU.loader import GTOU
from demod.datasets.OpenPowerSystems.loader import OpenPowerSystemClimate
from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
from demod.simulators.activity_simulators import MarkovChain1rstOrder, SemiMarkovSimulator, SubgroupsIndividualsActivitySimulator
from demod.simulators.appliance_simulators import OccupancyApplianceSimulator, ProbabiliticActivityAppliancesSimulator, SubgroupApplianceSimulator
from demod.simulators.crest_simulators import Crest4StatesModel, CrestOccupancySimulator
from demod.simulators.heating_simulators import (
    BuildingThermalDynamics, FiveModulesHeatingSimulator, HeatDemand, HeatingSystem, SystemControls, Thermostats, VariableThermostatTemperatureSimulator)
from demod.simulators.lighting_simulators import CrestLightingSimulator, FisherLightingSimulator
from demod.simulators.load_simulators import LoadSimulator
from demod.simulators.sparse_simulators import SparseTransitStatesSimulator, SubgroupsActivitySimulator
from demod.simulators.weather_simulators import CrestClimateSimulator, CrestIrradianceSimulator, RealClimate, RealInterpolatedClimate
from demod.utils.sparse import SparseTPM
from demod.utils.subgroup_handling import subgroup_string

HOUSEHOLDS = [(1, 1), (2, 2), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4), (4, 5)]
RECIPES = {}


class Mini:
    """The part of the context that the recipes use."""

    def __init__(self, seed):
        self.rng = np.random.Generator(np.random.PCG64(seed))

    def choice(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def randint(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def event(self, *a, **k):
        pass

    case = event


def quiet(f):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f()


def recipe(f):
    RECIPES[f.__name__] = f
    return f


class Recipe:
    """make(inputs, logger) -> simulator; inputs belong to the caller; steps are (args, kwargs) of the caller."""

    def __init__(self, make, inputs, steps, getters=None):
        self.make, self.inputs, self.steps = make, inputs, steps


def get(name, seed):
    ctx = Mini(seed)
    r = quiet(lambda: RECIPES[name](ctx))
    r.name = name
    return r


class Memo:
    """A loader that keeps what it loaded and returns the same objects again."""

    def __init__(self, data):
        self.inner, self.kept = data, {}

    def __getattr__(self, name):
        if name.startswith('__') or name in ('inner', 'kept'):
            raise AttributeError(name)
        v = getattr(self.inner, name)
        if not name.startswith('load_'):
            return v

        def load(*a, **k):
            key = repr((name, a, sorted(k.items())))
            if key not in self.kept:
                self.kept[key] = (v(*a, **k), name, copy.deepcopy(a), copy.deepcopy(k))
            return self.kept[key][0]
        return load


def blank(n):
    return [((), {}) for _ in range(n)]


def german(ctx, weekday=False):
    s = dict(zip(('household_type', 'n_residents'), ctx.choice(HOUSEHOLDS)))
    if weekday:
        s['weekday'] = [1, 2, 3, 4, 5]
    return s


@recipe
def markov(ctx):
    n, k, s = ctx.randint(1, 8), ctx.randint(1, 6), ctx.randint(1, 4)
    tpms = ctx.rng.dirichlet(np.ones(s), (k, s))
    inp = dict(tpms=tpms, labels=['a%d' % i for i in range(s)], p0=ctx.rng.dirichlet(np.ones(s)))

    def make(i, logger):
        sim = MarkovChain1rstOrder(n, s, i['tpms'], labels=i['labels'], logger=logger)
        sim.initialize_starting_state(i['p0'])
        return sim
    return Recipe(make, inp, blank(ctx.randint(1, 3 * k + 2)))


@recipe
def semi_markov(ctx):
    n, k, s, m = ctx.randint(1, 8), ctx.randint(2, 6), ctx.randint(2, 4), ctx.randint(2, 5)
    tpms = ctx.rng.dirichlet(np.ones(s), (k, s))
    dur = np.zeros((k, s, m))
    dur[:, :, 1:] = ctx.rng.dirichlet(np.ones(m - 1), (k, s))
    d0 = np.zeros((s, m))
    d0[:, 1:] = ctx.rng.dirichlet(np.ones(m - 1), s)
    inp = dict(tpms=tpms, dur=dur, p0=ctx.rng.dirichlet(np.ones(s)), d0=d0, labels=['a%d' % i for i in range(s)])

    def make(i, logger):
        sim = SemiMarkovSimulator(n, s, i['tpms'], i['dur'], labels=i['labels'], logger=logger)
        sim.initialize_starting_state(i['p0'], i['d0'])
        return sim
    return Recipe(make, inp, blank(ctx.randint(1, 3 * k + 2)))


@recipe
def individuals(ctx):
    semi = ctx.rng.random() < .5
    pool = [{'n_residents': 2, 'household_type': 2}, {'n_residents': 3, 'household_type': 4}, {'n_residents': 3, 'household_type': 3}]
    subs = [dict(pool[i]) for i in ctx.rng.choice(3, ctx.randint(1, 3), replace=False)]
    inp = dict(subs=subs, n=[ctx.randint(1, 5) for _ in subs], data=GTOU('DemodActivities_0'))
    start = random_start(ctx).replace(hour=4)

    def make(i, logger):
        return SubgroupsIndividualsActivitySimulator(i['subs'], i['n'], subsimulator=SemiMarkovSimulator if semi else MarkovChain1rstOrder,
                                                     data=i['data'], start_datetime=start, logger=logger)
    return Recipe(make, inp, blank(ctx.randint(1, 160)))


def sparse_pool(data):
    have = set(os.listdir(data.parsed_path_activity))
    pool = [{'n_residents': r, 'household_type': h} for r in range(1, 6) for h in range(1, 5)] + [{'n_residents': 2}]
    return [b for b in pool if all(subgroup_string({**b, **d}) + '.npz' in have for d in
                                   [{}, {'quarter': None, 'weekday': [6, 7]}, {'quarter': None, 'weekday': [1, 2, 3, 4, 5]}])]


@recipe
def sparse(ctx):
    data = GTOU('Sparse9States')
    inp = dict(sub=dict(ctx.choice(sparse_pool(data))), data=data)
    n, kw = ctx.randint(1, 20), {'start_datetime': random_start(ctx)} if ctx.rng.random() < .7 else {}
    return Recipe(lambda i, logger: SparseTransitStatesSimulator(n, i['sub'], data=i['data'], logger=logger, **kw), inp, blank(ctx.randint(1, 160)))


@recipe
def sparse_groups(ctx):
    data = GTOU('Sparse9States')
    pool = sparse_pool(data)
    subs = [dict(ctx.choice(pool)) for _ in range(ctx.randint(1, 3))]
    inp = dict(subs=subs, n=[ctx.randint(1, 6) for _ in subs], data=data)
    kw = {'start_datetime': random_start(ctx)} if ctx.rng.random() < .7 else {}
    return Recipe(lambda i, logger: SubgroupsActivitySimulator(i['subs'], i['n'], data=i['data'], logger=logger, **kw), inp, blank(ctx.randint(1, 160)))


@recipe
def crest_occupancy(ctx):
    n, r, day = ctx.randint(1, 20), ctx.randint(1, 5), ctx.choice(['d', 'e'])
    return Recipe(lambda i, logger: CrestOccupancySimulator(n, r, day, data=i['data'], logger=logger), dict(data=Crest()), blank(ctx.randint(1, 150)))


@recipe
def crest_states(ctx):
    n, start = ctx.randint(1, 40), random_start(ctx)
    return Recipe(lambda i, logger: Crest4StatesModel(n, data=i['data'], start_datetime=start, logger=logger), dict(data=Crest()), blank(ctx.randint(1, 200)))


@recipe
def shipped_appliances(ctx):
    cls = ctx.choice(SIMS + [SubgroupApplianceSimulator])
    occ = issubclass(cls, OccupancyApplianceSimulator)
    crest = bool(occ and ctx.rng.random() < .4)
    data = Crest() if crest else GermanDataHerus('vBottaccioli')
    subs = [{'n_residents': ctx.randint(1, 5)} if crest else german(ctx, cls is ProbabiliticActivityAppliancesSimulator) for _ in range(ctx.randint(1, 2))]
    sizes = [ctx.randint(1, 10) for _ in subs]
    hh = sum(sizes)
    start = random_start(ctx)
    kw = dict(start_datetime=start)
    if cls is not SubgroupApplianceSimulator:
        kw.update(real_profiles_algo=ctx.choice(['nothing', 'only_switched_on']) if crest else 'nothing', equipped_sampling_algo=ctx.choice(['basic', 'all'] if crest else ['basic', 'subgroup', 'all']))
    related = sorted(set(data.load_appliance_dict()['related_activity'].tolist()) - {'level', 'constant'})
    return appliances(ctx, cls, occ, data, subs, sizes, hh, related, kw)


@recipe
def random_appliances(ctx):
    cls = ctx.choice(SIMS)
    occ = cls is OccupancyApplianceSimulator
    while True:
        data = FullData(ctx, probabilistic=None if occ else ctx.choice([0., .5, 1.]))
        subs, sizes = mix(ctx)
        if occ or 'probabilistic' not in data.app or (data.app['probabilistic'] == (cls is ProbabiliticActivityAppliancesSimulator)).any():
            break
    sets = [[str(x) for x in data.app['name'] if ctx.rng.random() < .5] for _ in subs]
    kw = dict(real_profiles_algo=ctx.choice(ALGOS), equipped_sampling_algo=ctx.choice(['all', 'basic', 'subgroup', 'set_defined']), equipped_set_defined=sets,
              start_datetime=dt.datetime(2014, 3, ctx.randint(1, 28), 4, ctx.randint(0, 30)))
    return appliances(ctx, cls, occ, data, subs, sizes, sum(sizes), list(ACTS), kw)


def appliances(ctx, cls, occ, data, subs, sizes, hh, related, kw):
    draw = (lambda: ctx.rng.integers(0, 3, hh)) if occ else (lambda: {a: ctx.rng.integers(0, 2, hh) for a in related})
    inp = dict(subs=subs, sizes=sizes, acts=draw(), data=data, kw=kw)

    def make(i, logger):
        if occ:
            return cls(i['subs'], i['sizes'], i['data'], logger=logger, **i['kw'])
        return cls(hh, i['acts'], i['data'], subgroups_list=i['subs'], n_households_list=i['sizes'], logger=logger, **i['kw'])

    steps, cur = [], draw()
    for _ in range(ctx.randint(1, 90)):
        if ctx.rng.random() < .2:
            cur = draw()
        steps.append(((cur,), {}))
    return Recipe(make, inp, steps)


@recipe
def lighting(ctx):
    hh = ctx.randint(1, 20)
    german_ = bool(ctx.rng.random() < .5)
    data = GermanDataHerus() if german_ else Crest()
    steps = [((ctx.rng.integers(0, 4, hh), float(ctx.choice([0., 20., 300.]))), {}) for _ in range(ctx.randint(1, 120))]
    algo = ctx.choice(['randn']) if german_ else ctx.choice(['config'])
    return Recipe(lambda i, logger: CrestLightingSimulator(hh, i['data'], bulbs_sampling_algo=algo, logger=logger), dict(data=data), steps)


@recipe
def fisher(ctx):
    hh = ctx.randint(1, 20)
    draw = lambda: (ctx.rng.integers(0, 4, hh), float(ctx.choice([0., 20., 300.])))
    o, i0 = draw()
    steps = [(draw(), {}) for _ in range(ctx.randint(1, 60))]

    def make(i, logger):
        return FisherLightingSimulator(hh, i['data'], initial_active_occupancy=i['occ'], initial_irradiance=i0, logger=logger)
    return Recipe(make, dict(occ=o, data=GermanDataHerus()), steps)


def heat_data(ctx):
    return HeatData(ctx, stable=True) if ctx.rng.random() < .6 else ctx.choice([GermanDataHerus, Crest])()


def climate_args(ctx, hh):
    r = ctx.rng
    return dict(outside_temperature=float(r.uniform(-15, 30)), irradiance=float(r.choice([0., r.uniform(0, 900)])), dhw_heating_demand=r.uniform(0, 300, hh),
                occupancy_thermal_gains=r.integers(0, 5, hh) * 80., lighting_thermal_gains=r.uniform(0, 300, hh), appliances_thermal_gains=r.uniform(0, 2500, hh))


@recipe
def heating(ctx):
    hh, outside = ctx.randint(1, 6), float(ctx.rng.uniform(-10, 25))
    some = lambda lo, hi: np.where(ctx.rng.random(hh) < .6, ctx.rng.uniform(lo, hi, hh), np.nan)
    steps = []
    for _ in range(ctx.randint(1, 40)):
        a = climate_args(ctx, hh)
        if ctx.rng.random() < .4:
            a.update(ctx.choice([
                {'external_target_temperature': {'space_heating': some(15, 23)}}, {'external_target_temperature': {'space_heating': 19.}},
                {'external_heat_outputs': some(0, 9000)}, {'external_heat_outputs': {'dhw': some(0, 9000), 'space_heating': some(0, 9000)}},
                {'external_dhw_outputs': some(0, 9000)}, {'external_sh_outputs': some(0, 9000)}, {'external_cylinder_temperature': some(30, 60)}]))
        steps.append(((), a))
    algo = ctx.choice(['heat_max_emmiters', 'room_estimation'])
    return Recipe(lambda i, logger: FiveModulesHeatingSimulator(hh, outside, data=i['data'], heatdemand_algo=algo, logger=logger), dict(data=heat_data(ctx)), steps)


@recipe
def variable_thermostat(ctx):
    hh = ctx.randint(1, 8)
    draw = lambda: (lambda o: (o, np.minimum(o, ctx.rng.integers(0, 4, hh))))(ctx.rng.integers(0, 4, hh))
    hist = [draw()]
    for _ in range(ctx.randint(1, 150)):
        hist.append(draw() if ctx.rng.random() < .2 else hist[-1])
    method = ctx.choice(['living lab', 'random'])
    start = random_start(ctx)

    def make(i, logger):
        return VariableThermostatTemperatureSimulator(hh, i['occ'], i['act'], start, pattern_attribution_method=method, logger=logger)
    return Recipe(make, dict(occ=hist[0][0], act=hist[0][1]), [(h, {}) for h in hist[1:]])


@recipe
def irradiance(ctx):
    start = random_start(ctx)
    return Recipe(lambda i, logger: CrestIrradianceSimulator(i['data'], start_datetime=start, logger=logger), dict(data=Crest()), blank(ctx.randint(1, 400)))


@recipe
def crest_climate(ctx):
    start = random_start(ctx)
    return Recipe(lambda i, logger: CrestClimateSimulator(i['data'], start_datetime=start, logger=logger), dict(data=Crest()), blank(ctx.randint(1, 400)))


@recipe
def recorded_climate(ctx):
    ninja = ctx.rng.random() < .5
    data = NinjaRenewablesClimate('germany') if ninja else OpenPowerSystemClimate('germany')
    start = dt.datetime(2014, ctx.randint(1, 12), ctx.randint(1, 28), ctx.randint(0, 23), ctx.randint(0, 59))
    if ctx.rng.random() < .5:
        return Recipe(lambda i, logger: RealClimate(i['data'], start_datetime=start, logger=logger), dict(data=data), blank(ctx.randint(1, 40)))
    step = dt.timedelta(minutes=ctx.choice([1, 7, 90]))
    return Recipe(lambda i, logger: RealInterpolatedClimate(i['data'], start_datetime=start, step_size=step, logger=logger), dict(data=data), blank(ctx.randint(1, 60)))


@recipe
def load(ctx):
    data = ctx.choice([GermanDataHerus, Crest])()
    n = ctx.choice([1, 2, 5, 30])
    climate, heat = bool(ctx.rng.random() < .6), bool(ctx.rng.random() < .7)
    start = dt.datetime(2014, ctx.randint(1, 12), ctx.randint(1, 28), ctx.choice([3, 4, 23, ctx.randint(0, 23)]), ctx.randint(0, 59))
    kw = dict(include_climate=climate, include_heating=heat)
    if not climate:
        kw['initial_outside_temperature'] = 8.
    steps = []
    for _ in range(ctx.randint(1, 40)):
        a = {}
        if not climate or ctx.rng.random() < .1:
            a = dict(external_outside_temperature=float(ctx.rng.uniform(-5, 25)), external_irradiance=float(ctx.choice([0., 200.])))
        if heat and ctx.rng.random() < .2:
            a['external_target_temperature'] = {'space_heating': ctx.rng.uniform(15, 23, n)}
        steps.append(((), a))
    return Recipe(lambda i, logger: LoadSimulator(n, start_datetime=start, data=i['data'], logger=logger, **kw), dict(data=data), steps)


# ---------------------------------------------------------------- observing
def getters(sim):
    out = []
    for name in sorted(dir(type(sim))):
        if not name.startswith('get_'):
            continue
        f = getattr(sim, name)
        if not callable(f):
            continue
        try:
            ps = inspect.signature(f).parameters.values()
        except (TypeError, ValueError):
            continue
        if all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
            out.append(name)
    for name in ('current_states', 'current_datetime', 'current_time_step'):
        if hasattr(sim, name):
            out.append('.' + name)
    return out


def freeze(v):
    """A comparable copy of a value."""
    if isinstance(v, dict):
        return ('dict',) + tuple(sorted((str(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ('list',) + tuple(freeze(x) for x in v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('list',) + tuple(freeze(x) for x in v.tolist())
        return ('array', v.shape, v.dtype.kind, v.tobytes())
    if isinstance(v, (np.generic,)):
        return ('scalar', v.tobytes())
    if isinstance(v, float):
        return ('float', v.hex())
    if isinstance(v, (int, str, bool, bytes, type(None), dt.datetime, dt.timedelta, dt.date, dt.time)):
        return ('value', repr(v))
    if isinstance(v, SparseTPM):
        return ('tpm', v.shape) + tuple(freeze(getattr(v, k)) for k in ('times', 'inds_from', 'inds_to', 'values'))
    if hasattr(v, '__dict__'):
        return ('object', type(v).__name__, freeze({k: x for k, x in vars(v).items()}))
    return ('other', type(v).__name__)


def observe(sim, names):
    out = {}
    for n in names:
        try:
            out[n] = freeze(getattr(sim, n[1:]) if n[0] == '.' else quiet(getattr(sim, n)))
        except (NotImplementedError, AttributeError) as e:
            out[n] = ('no', type(e).__name__)
    return out


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:])


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()


def run(r, seed, inputs, each=None, logger=None, steps=None):
    """Run the recipe; each(sim, k) after every step. Returns the simulator."""
    np.random.seed(seed)
    sim = quiet(lambda: r.make(inputs, logger))
    if each:
        each(sim, 0)
    for k, (a, kw) in enumerate(r.steps if steps is None else steps):
        quiet(lambda: sim.step(*a, **kw))
        if each:
            each(sim, k + 1)
    return sim
