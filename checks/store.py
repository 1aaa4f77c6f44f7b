"""A dataset in a scratch folder with every kind of data the loaders store (used by P26 and P33)."""
import datetime as dt
import os
import warnings
import zlib

import numpy as np

from demod.datasets.base_loader import ApplianceLoader, ClimateLoader, HeatingLoader, LightingLoader, PopulationLoader
from demod.datasets.tou_loader import LoaderTOU
from demod.utils.sparse import SparseTPM

WORDS = ['cooking', 'tv_watching', 'laundry 2', 'fridge', 'Kühlschrank', 'dish-washing', 'a.b', 'oven_1', 'electronics', 'self_washing']


def names(r, lo=1, hi=6):
    return [str(w) for w in r.choice(WORDS, int(r.integers(lo, hi)), replace=False)]


def scalar(r):
    return [lambda: int(r.integers(-5, 5)), lambda: float(r.normal()), lambda: np.int64(r.integers(0, 9)), lambda: np.float32(r.random()), lambda: np.float64(r.random()),
            lambda: bool(r.random() < .5), lambda: np.bool_(r.random() < .5), lambda: str(r.choice(WORDS)), lambda: float('nan')][int(r.integers(9))]()


def number(r):
    return [lambda: int(r.integers(-5, 5)), lambda: float(r.normal()), lambda: np.int64(r.integers(0, 9)), lambda: np.float64(r.random())][int(r.integers(4))]()


def array(r, n=None):
    n = int(r.integers(1, 30)) if n is None else n
    k = int(r.integers(6))
    if k == 0:
        return r.integers(-3, 9, n)
    if k == 1:
        return np.array([str(r.choice(WORDS)) for _ in range(n)])
    if k == 2:
        return r.random(n) < .5
    if k == 3:
        return r.random((n, int(r.integers(1, 4))))
    if k == 4:
        return [float(x) for x in r.random(n)]
    x = r.normal(size=n)
    x[r.random(n) < .1] = np.nan
    return x


def table(r):
    return {w: (array(r) if r.random() < .7 else scalar(r)) for w in names(r)}


def nested(r):
    d = table(r)
    if r.random() < .5:
        d['nested'] = table(r)
    return d


def stats(r):
    return {w: r.random(int(r.integers(1, 12))) for w in names(r)}


def tpm(r):
    n, s = int(r.integers(1, 5)), int(r.integers(1, 4))
    t = r.random((n, s, s))
    return t / t.sum(2, keepdims=True), np.array([str(x) for x in range(s)]), r.dirichlet(np.ones(s))


def sparse(r):
    n, s = int(r.integers(1, 6)), int(r.integers(1, 5))
    dense = r.random((n, s, s)) * (r.random((n, s, s)) < .7) + np.eye(s) * .1
    dense /= dense.sum(2, keepdims=True)
    t, i, j = np.nonzero(dense)
    return SparseTPM(t, i, j, dense[t, i, j], s, n), np.array(['%d%d' % (x, x) for x in range(s)]), np.array(names(r)), r.dirichlet(np.ones(s))


# kind: (method, parse method, argument, generator)
KINDS = {
    'population': ('load_population_subgroups', '_parse_population_subgroups', 'type',
                   lambda r: ([{'n_residents': int(r.integers(1, 6)), 'household_type': int(i)} for i in range(int(r.integers(1, 5)))], r.dirichlet(np.ones(3)), int(r.integers(1, 10 ** 7)))),
    'appliances': ('load_appliance_dict', '_parse_appliance_dict', None, lambda r: dict(nested(r), type=np.array(names(r)))),
    'profiles': ('load_real_profiles_dict', '_parse_real_profiles_dict', 'profile', lambda r: {a: {b + str(r.choice(['', '&2', ' x'])): r.random(int(r.integers(1, 40))) for b in names(r)} for a in names(r)}),
    'ownership': ('load_appliance_ownership_dict', '_parse_appliance_ownership_dict', 'timeless', lambda r: {w: float(r.random() * (r.random() < .8)) for w in names(r)}),
    'switchons': ('load_yearly_target_switchons', '_parse_yearly_target_switchons', 'timeless', lambda r: {w: number(r) for w in names(r)}),
    'consumption': ('load_yearly_target_consumption', '_parse_yearly_target_consumption', 'timeless', lambda r: {w: number(r) for w in names(r)}),
    'duration': ('load_yearly_target_duration', '_parse_yearly_target_duration', 'timeless', lambda r: {w: number(r) for w in names(r)}),
    'clearness': ('load_clearness_tpms', '_parse_clearness_tpms', None, lambda r: (r.random((4, 4)), r.random(4), dt.timedelta(seconds=int(r.integers(1, 9 ** 6)), microseconds=int(r.integers(0, 9))))),
    'arma': ('load_temperatures_arma', '_parse_temperatures_arma', None, lambda r: {k: number(r) for k in ('T_mean', 'AR', 'SD')}),
    'geography': ('load_geographic_data', '_parse_geographic_data', None, lambda r: {w: scalar(r) for w in names(r)}),
    'fisher': ('load_fisher_lighting', '_parse_fisher_lighting', None, lambda r: {w: scalar(r) for w in names(r)}),
    'crest_light': ('load_crest_lighting', '_parse_crest_lighting', None, nested),
    'bulbs': ('load_bulbs', '_parse_bulbs', None, lambda r: (r.random(7), r.dirichlet(np.ones(7)))),
    'bulbs_config': ('load_bulbs_config', '_parse_bulbs_config', 'subgroup', lambda r: r.random((int(r.integers(1, 9)), 5))),
    'bulbs_stats': ('load_installed_bulbs_stats', '_parse_installed_bulbs_stats', 'subgroup', lambda r: (number(r), number(r))),
    'buildings': ('load_buildings_dict', '_parse_buildings_dict', 'subgroup', table),
    'heating': ('load_heating_system_dict', '_parse_heating_system_dict', 'subgroup', table),
    'thermostat': ('load_thermostat_dict', '_parse_thermostat_dict', 'subgroup', table),
    'tpm': ('load_tpm', '_parse_tpm', 'subgroup', tpm),
    'tpm_duration': ('load_tpm_with_duration', '_parse_tpm_with_duration', 'subgroup', lambda r: (r.random((3, 2, 2)), r.random((2, 9)), np.array(['a', 'b']), r.dirichlet(np.ones(2)), r.random((2, 4)))),
    'sparse': ('load_sparse_tpm', '_parse_sparse_tpm', 'subgroup', sparse),
    'profiles_act': ('load_activity_probability_profiles', '_parse_activity_profiles', 'subgroup', lambda r: {w: r.random((6, 3)) for w in names(r)}),
    'starts': ('load_daily_activity_starts', '_parse_daily_activity_starts', 'subgroup', stats),
    'lengths': ('load_activity_duration', '_parse_activity_duration', 'subgroup', stats),
    'climate': ('load_historical_climate_data', '_parse_historical_climate_data', 'start',
                lambda r: (lambda n: {'datetime': np.datetime64('2010-01-01T00:00:00') + np.timedelta64(1, 'h') * np.arange(n), **{w: r.normal(size=n) for w in names(r)}})(int(r.integers(1, 60)))),
    'probs': ('load_activity_probabilities', '_parse_activity_probabilities', 'subgroup', stats),
}
LEGEND = {'tpm', 'tpm_duration', 'sparse'}       # a legend is parsed and stored along
BOTH = {'tpm', 'sparse'}


class Slow:
    """An array that takes its time to be written."""

    def __init__(self, a, delay):
        self.a, self.delay = a, delay

    def __array__(self, dtype=None, copy=None):
        self.delay()
        return np.asarray(self.a, dtype)


class SlowList(list):
    delay = staticmethod(lambda: None)

    def __iter__(self):
        self.delay()
        return super().__iter__()


def slow(v, delay):
    if isinstance(v, dict):
        return {k: slow(x, delay) for k, x in v.items()}
    if isinstance(v, list) and v and not isinstance(v[0], dict):
        v = SlowList(v)
        v.delay = delay
        return v
    return v


def key_of(kind, arg):
    how = KINDS[kind][2]
    if how in (None, 'start'):
        return None
    if how in ('type', 'profile'):
        return arg
    return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in arg.items() if not (how == 'timeless' and k in ('weekday', 'quarter'))))


def value(seed, version, kind, arg):
    r = np.random.Generator(np.random.PCG64(zlib.crc32(repr((seed, version, kind, key_of(kind, arg))).encode())))
    return KINDS[kind][3](r)


def dataset(root, seed, parsed=None, delay=None):
    """Loader class; `parsed` collects (version, kind, key) of each parsing."""
    body = {'DATASET_NAME': root, 'step_size': dt.timedelta(hours=1)}

    def parser(kind):
        def parse(self, arg=None):
            if parsed is not None:
                parsed.append((self.version, kind, key_of(kind, arg) if arg is not None or KINDS[kind][2] is None else None))
            v = value(seed, self.version, kind, arg)
            if delay is not None:
                v = slow(v, delay)
            return v if kind not in LEGEND else (*v, {'kind': kind, 'made': 'here', 'n': 3})
        return parse

    for kind, (_, p, _, _) in KINDS.items():
        body[p] = parser(kind)

    def init(self, version=None, activity_type='States', **kw):
        LoaderTOU.__init__(self, activity_type, version=version, **kw)

    body['__init__'] = init
    return type('Scratch', (LoaderTOU, PopulationLoader, ApplianceLoader, ClimateLoader, LightingLoader, HeatingLoader), body)


def load(d, kind, arg):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = getattr(d, KINDS[kind][0])
        return f() if KINDS[kind][2] is None else f(arg)


def alike(a, b):
    """Same content, whatever the containers."""
    if isinstance(a, SparseTPM) or isinstance(b, SparseTPM):
        return isinstance(a, SparseTPM) and isinstance(b, SparseTPM) and all(
            alike(getattr(a, k), getattr(b, k)) for k in ('times', 'inds_from', 'inds_to', 'values', 'n_states', 'n_times'))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(sorted(a)) == list(sorted(b)) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dt.timedelta) or isinstance(b, dt.timedelta):
        return a == b
    if isinstance(a, list) and a and isinstance(a[0], dict) or isinstance(b, list) and b and isinstance(b[0], dict):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    text = [z.dtype.kind in 'UO' for z in (x, y)]
    if any(text):
        return all(text) and bool((x == y).all())
    return bool(np.allclose(x.astype(float), y.astype(float), rtol=1e-12, atol=0, equal_nan=True))


OTHER_KEYS = {
    'age': [1, 2, 12], 'gender': [1, 2], 'life_situation': [1, 11, 21], 'household_position': [1, 3], 'salary': [1, 2], 'geographic_region': ['east', 'west', 1],
    'hh_work_type': [[1, 2], [3]], 'work_type': [1, 21], 'year': [2000, 2012], 'country': ['germany', 'uk'], 'household_revenue': [0, 3],
}


def argument(rng, kind):
    how = KINDS[kind][2]
    if how is None:
        return None
    if how == 'start':
        return dt.datetime(2010, 1, 1)
    if how == 'type':
        return str(rng.choice(['resident_number', 'crest', 'household_types_2019']))
    if how == 'profile':
        return str(rng.choice(['full', 'switchedON', 'switchedOFF']))
    sg = {}
    if rng.random() < .8:
        sg['n_residents'] = int(rng.integers(1, 4))
    if rng.random() < .6:
        sg['household_type'] = int(rng.integers(1, 3))
    if rng.random() < .5:
        sg['weekday'] = [[1, 2, 3, 4, 5], [6, 7], [1], [1, 2]][int(rng.integers(4))]
    if rng.random() < .4:
        sg['quarter'] = int(rng.integers(1, 5))
    for k, values in OTHER_KEYS.items():
        if rng.random() < .15:
            sg[k] = values[int(rng.integers(len(values)))]
    ks = list(sg)
    rng.shuffle(ks)
    return {k: sg[k] for k in ks}


def root(ctx):
    r = os.path.join(ctx.tmpdir(), 'ds')
    os.mkdir(r)
    return r
