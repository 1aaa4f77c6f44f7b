"""P26 stored data equals parsed data."""
import builtins
import datetime as dt
import os
import warnings

import numpy as np

from vlib.core import Spec
from checks.store import BOTH, KINDS, LEGEND, alike, argument, dataset, key_of, load, root, value
import demod.datasets.base_loader as base_loader
from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate

S = Spec('P26', 'Random datasets with all 26 kinds of stored data, for random subgroups and versions, loaded in random orders by new loader objects; '
         'non-trivial = distinct sequence of loads.',
         required=['first_load', 'stored_load', 'versions', 'subgroup_order', 'time_attributes', 'cleared', 'not_cleared', 'both_tpms', 'failing_parse', 'weightings', 'not_offered', 'archive'] + ['kind_' + k for k in KINDS],
         assumptions=['Dictionaries have text keys and rectangular arrays, as the loaders document.'])


@S.scenario(400, 6000)
def roundtrip(ctx):
    """Every load gives what was parsed; each data is parsed once."""
    seed, where = ctx.randint(0, 10 ** 9), root(ctx)
    parsed = []
    cls = dataset(where, seed, parsed)
    left = ctx.choice(sorted(BOTH))
    kinds = [k for k in KINDS if k != left]
    plan = []
    for _ in range(ctx.randint(4, 30)):
        if plan and ctx.rng.random() < .45:
            v, kind, arg = plan[ctx.randint(0, len(plan) - 1)]
            if isinstance(arg, dict):
                arg = dict(reversed(list(arg.items())))
                ctx.event('subgroup_order', len(arg) > 1)
                if KINDS[kind][2] == 'timeless' and ctx.rng.random() < .6:
                    arg = {k: x for k, x in arg.items() if k not in ('weekday', 'quarter')}
                    if ctx.rng.random() < .7:
                        arg['quarter'] = ctx.randint(1, 4)
                        arg['weekday'] = [6, 7]
                    ctx.event('time_attributes')
        else:
            kind = ctx.choice(kinds)
            v, arg = ctx.choice([None, 'v1', 'v1', 'v 2.0', 'v1.0', 'v1.1']), argument(ctx.rng, kind)
        plan.append((v, kind, arg))
    ctx.case(seed=seed, plan=[(v, k, str(a)) for v, k, a in plan])
    loaders = {}
    seen = set()
    for v, kind, arg in plan:
        if v not in loaders or ctx.rng.random() < .5:
            loaders[v] = cls(version=v)
        before = repr(arg)
        got = load(loaders[v], kind, arg)
        want = value(seed, v, kind, arg)
        key = (v, kind, key_of(kind, arg))
        ctx.check(alike(got, want), 'stored' if key in seen else 'first', lambda: '%s %s of version %s: %r instead of %r' % (kind, arg, v, got, want))
        ctx.eq(repr(arg), before, 'argument-changed')
        ctx.event('stored_load' if key in seen else 'first_load')
        ctx.event('kind_' + kind)
        seen.add(key)
        if ctx.rng.random() < .3:
            spoil(got)
    counts = {}
    for p in parsed:
        counts[p[:2]] = counts.get(p[:2], 0) + 1
    distinct = {}
    for v, kind, key in seen:
        distinct[v, kind] = distinct.get((v, kind), 0) + 1
    ctx.eq(counts, distinct, 'parsed-once', 'number of parsings by version and kind')
    ctx.event('versions', len(loaders) > 1)
    ctx.state(repr(plan))


def spoil(x):
    """Change in place what a load returned: next loads must not see it."""
    if isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x['spoiled'] = 1
    elif isinstance(x, np.ndarray) and x.dtype.kind == 'f' and x.flags.writeable and x.size:
        x[...] = -99
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)


@S.scenario(40, 400)
def tpm_kinds(ctx):
    """Full and sparse transition matrices of the same activity type and subgroup."""
    seed, where = ctx.randint(0, 10 ** 9), root(ctx)
    cls = dataset(where, seed)
    arg = argument(ctx.rng, 'tpm')
    order = [ctx.choice(['tpm', 'sparse', 'tpm_duration']) for _ in range(ctx.randint(2, 6))]
    ctx.case(seed=seed, arg=arg, order=order)
    done = set()
    for kind in order:
        mixed = len(BOTH & (done | {kind})) == 2
        ctx.event('both_tpms', mixed)
        try:
            ok = alike(load(cls(), kind, arg), value(seed, None, kind, arg))
        except Exception as e:
            ok = False
        ctx.check(ok, 'mixed' if mixed else 'single', lambda: '%s after %s' % (kind, sorted(done)))
        if not ok:
            return
        done.add(kind)
    ctx.state(tuple(order), seed)


@S.scenario(60, 600)
def failing_parse(ctx):
    """A parsing that fails stores nothing: the next load parses again."""
    seed, where = ctx.randint(0, 10 ** 9), root(ctx)
    kind = ctx.choice(sorted(KINDS))
    cls = dataset(where, seed)
    arg = argument(ctx.rng, kind)
    ctx.case(seed=seed, kind=kind, arg=arg)

    class Boom(Exception):
        pass

    class Bad(cls):
        pass

    def boom(self, *a):
        raise Boom()

    setattr(Bad, KINDS[kind][1], boom)
    ctx.raises(Boom, lambda: load(Bad(), kind, arg), 'error-hidden', kind)
    if kind in ('appliances', 'crest_light', 'arma', 'geography', 'fisher', 'heating', 'buildings', 'thermostat'):
        # something that cannot be stored
        setattr(Bad, KINDS[kind][1], lambda self, *a: {'type': ['x'], 'data': [1.] * 5000, 'bad': object()})
        ctx.raises(Exception, lambda: load(Bad(), kind, arg), 'unstorable', kind)
    ctx.check(alike(load(cls(), kind, arg), value(seed, None, kind, arg)), 'after-failure', lambda: kind)
    ctx.event('failing_parse')
    ctx.state(seed, kind)


@S.scenario(150, 1500)
def unavailable(ctx):
    """Data that the dataset does not offer, or whose raw file is missing, are refused; nothing is stored and they load once they are there."""
    seed, where = ctx.randint(0, 10 ** 9), root(ctx)
    kind = ctx.choice(sorted(KINDS))
    cls = dataset(where, seed)
    arg = argument(ctx.rng, kind)
    missing = bool(ctx.randint(0, 1))
    ctx.case(seed=seed, kind=kind, arg=arg, missing=missing)

    class Bad(cls):
        pass

    def absent(self, *a):
        open(os.path.join(where, 'no such file.csv'))

    name = KINDS[kind][1]
    bases = [b for b in cls.__mro__[1:] if name in vars(b) and b.__module__.startswith('demod.')]
    if missing or not bases:
        setattr(Bad, name, absent)
        ctx.raises(FileNotFoundError, lambda: load(Bad(), kind, arg), 'missing-raw', kind)
    else:
        setattr(Bad, name, vars(bases[-1])[name])
        ctx.raises(NotImplementedError, lambda: load(Bad(), kind, arg), 'not-offered', kind)
        ctx.event('not_offered')
    ctx.check(alike(load(cls(), kind, arg), value(seed, None, kind, arg)), 'after-refusal', lambda: kind)
    ctx.check(alike(load(Bad(), kind, arg), value(seed, None, kind, arg)), 'stored-for-all', lambda: kind)
    ctx.state(seed, kind)


@S.scenario(60, 600)
def clearing(ctx):
    """clear_parsed_data erases the stored data of the version, or of all after a confirmation, and nothing else."""
    seed, where = ctx.randint(0, 10 ** 9), root(ctx)
    parsed = []
    cls = dataset(where, seed, parsed)
    plan = []
    for _ in range(ctx.randint(3, 8)):
        kind = ctx.choice([k for k in sorted(KINDS) if k != 'tpm'])
        plan.append((ctx.choice([None, 'v1', 'v2']), kind, argument(ctx.rng, kind)))
    version = ctx.choice([None, None, 'v1', 'v2'])
    answers = [ctx.choice(['yes', 'no'])]
    if ctx.rng.random() < .3:
        answers.insert(0, ctx.choice(['', 'maybe', 'YES']))
    ctx.case(seed=seed, plan=[(v, k, str(a)) for v, k, a in plan], version=version, answers=answers)
    for v, kind, arg in plan:
        load(cls(version=v), kind, arg)
    keep = os.path.join(where, 'raw_data', 'keep')
    other = os.path.join(where, 'other')
    for f in (keep, other):
        open(f, 'w').close()
    # the only folders that may go are those of the scratch dataset
    real = base_loader.shutil.rmtree
    wrong = []

    def guarded(path, *a, **k):
        if os.path.realpath(path).startswith(os.path.realpath(os.path.join(where, 'parsed_data'))):
            return real(path, *a, **k)
        wrong.append(path)

    asked = iter(answers)
    saved = builtins.input
    base_loader.shutil.rmtree, builtins.input = guarded, lambda *a: next(asked)
    try:
        cls(version=version, clear_parsed_data=True)
    finally:
        base_loader.shutil.rmtree, builtins.input = real, saved
    ctx.eq(wrong, [], 'erased-elsewhere')
    ctx.check(os.path.exists(keep) and os.path.exists(other), 'erased-elsewhere')
    erased = version is not None or answers[-1] == 'yes'
    ctx.event('cleared' if erased else 'not_cleared')
    again = {}
    for v, kind, arg in plan:
        again.setdefault((v, kind, key_of(kind, arg)), (v, kind, arg))
    for (v, kind, _), (v, kind, arg) in again.items():
        del parsed[:]
        ctx.check(alike(load(cls(version=v), kind, arg), value(seed, v, kind, arg)), 'after-clear', lambda: kind)
        gone = erased and (version is None or v == version)
        ctx.eq(len(parsed), int(gone), 'clear-%s' % ('missed' if gone else 'too-much'), 'parsings of %s %s after clearing %s' % (v, kind, version))
    ctx.state(seed, version)


@S.scenario(80, 800)
def archives(ctx):
    """The helpers for loaders of one's own (see the example loader): arrays and lists of arrays come back as they were saved."""
    where = root(ctx)
    cls = type('A', (base_loader.DatasetLoader,), dict(DATASET_NAME=where))
    r = ctx.rng
    saved = []
    for i in range(ctx.randint(1, 4)):
        npz, compress = bool(r.random() < .5), bool(r.random() < .4)
        single = bool(r.random() < .3)

        def one(shape=None):
            shape = tuple(r.integers(0, 4, r.integers(0, 4))) if shape is None else shape
            x = r.normal(0, 100, shape)
            kind = r.choice(['f8', 'f4', 'i8', 'u1', 'bool', 'U5', 'nan'])
            if kind == 'nan':
                return np.where(x > 50, np.nan, x)
            return np.abs(x).astype(kind) if kind in ('u1', 'U5') else np.asarray(x).astype(kind)
        if single:
            data = np.asarray(one())
        elif npz or compress:
            data = [np.asarray(one()) for _ in range(ctx.choice([1, 2, 3, 9, 11, 25]))]
        else:
            data = list(np.asarray(r.normal(size=(ctx.randint(1, 12), ctx.randint(1, 3)))))
        if not single and r.random() < .3:
            data = tuple(data)
        saved.append((ctx.choice(['data', 'a.b', 'x_1']) + str(i), data, npz, compress))
    ctx.case(saved=[(a, type(b).__name__, [str(np.shape(x)) for x in ([b] if isinstance(b, np.ndarray) else b)], c, d) for a, b, c, d in saved], seed=ctx.randint(0, 10 ** 9))
    loader = cls()
    save = getattr(loader, '_save_parsed_data', None)
    if save is None or not hasattr(loader, '_load_parsed_data'):
        ctx.event('archive')
        return
    for name, data, npz, compress in saved:
        each = [data] if isinstance(data, np.ndarray) else list(data)
        keep = [np.array(x) for x in each]
        save(name, data, npz=npz, compress=compress)
        ctx.check(all(alike(x, y) for x, y in zip(each, keep)), 'archive-input-changed', name)
    for name, data, npz, compress in saved:
        got = cls()._load_parsed_data(name)
        ctx.event('archive')
        want = [data] if isinstance(data, np.ndarray) else list(data)
        if not (npz or compress):
            want = [np.asarray(data)]
            got = [got]
        ctx.check(len(got) == len(want) and all(np.array_equal(a, b, equal_nan=b.dtype.kind == 'f') and a.dtype == b.dtype for a, b in zip(got, want)),
                  'archive', lambda: '%s: %r instead of %r' % (name, got, want))
    ctx.raises(FileNotFoundError, lambda: cls()._load_parsed_data('other'), 'archive-missing')


@S.scenario(40, 400)
def weightings(ctx):
    """Countries and weightings of the recorded climate are kept apart."""
    where = root(ctx)
    os.mkdir(os.path.join(where, 'raw_data'))
    n = ctx.randint(1, 20)
    want = {}
    for country, code in (('germany', 'DE'), ('FR', 'FR')):
        for kind in ('population', 'land_area'):
            want[country, kind] = np.round(ctx.rng.normal(size=n), 3)
            with open(os.path.join(where, 'raw_data', '%s_%s.csv' % (code, kind)), 'w') as f:
                f.write('# a\n# b\ntime,precipitation,temperature,irradiance_surface,irradiance_toa,snowfall,snow_mass,cloud_cover,air_density\n')
                for i, x in enumerate(want[country, kind]):
                    t = dt.datetime(2012, 3, 1) + dt.timedelta(hours=i)
                    f.write('%s,0,%.3f,1,2,0,0,0.5,1.2\n' % (t.strftime('%Y-%m-%d %H:%M'), x))
    cls = type('N', (NinjaRenewablesClimate,), dict(DATASET_NAME=where))
    order = [ctx.choice(sorted(want)) for _ in range(ctx.randint(2, 8))]
    ctx.case(n=n, order=order)
    for country, kind in order:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = cls(country, weighted_type=kind).load_historical_climate_data(dt.datetime(2012, 3, 1))
        ctx.close(got['outside_temperature'], want[country, kind], 'weighting', '%s %s' % (country, kind), atol=1e-9)
    ctx.event('weightings', len(set(order)) > 1)
    ctx.state(tuple(order), n)
