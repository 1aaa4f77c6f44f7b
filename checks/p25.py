"""P25 historical climate: loading, replay and interpolation."""
import datetime as dt
import os
import warnings
from zoneinfo import ZoneInfo

import numpy as np
from scipy.interpolate import CubicSpline

from vlib.core import Spec
from demod.datasets.base_loader import ClimateLoader
from demod.datasets.OpenPowerSystems.loader import OpenPowerSystemClimate
from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
from demod.simulators.base_simulators import SimLogger
from demod.simulators.weather_simulators import RealClimate, RealInterpolatedClimate

S = Spec('P25', 'Random recorded climates of any resolution, starts anywhere in, before and after the record, naive and aware starts of all time '
         'zones, step sizes of milliseconds to days, interpolations; non-trivial = distinct record and start.',
         required=['replay', 'replay_end', 'aware_east', 'aware_west', 'zone', 'interpolated', 'interpolated_end', 'between_points', 'at_point', 'under_a_minute', 'kind_linear',
                   'kind_previous', 'kind_nearest', 'kind_cubic', 'refused_before', 'refused_after', 'refused_step', 'log', 'slice', 'cached', 'ninja', 'ops', 'shipped'],
         assumptions=['Aware starts do not cross a change of offset during the run.'])
UTC = dt.timezone.utc
ZONES = ['Europe/Zurich', 'America/Los_Angeles', 'Asia/Kolkata', 'Pacific/Auckland']


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


def stored(t, unit):
    return np.array(t, dtype='datetime64[%s]' % unit)


class Record:
    """What was recorded, and a loader of it that lives in a scratch folder."""

    def __init__(self, ctx, points=None):
        self.step = dt.timedelta(minutes=int(ctx.choice([1, 5, 10, 15, 30, 60, 60, 60, 180, 1440])))
        self.n = points or (ctx.randint(2, 60) if ctx.rng.random() > .04 else ctx.randint(300, 70000))
        ctx.event('long_record', self.n > 300)
        self.t0 = dt.datetime(ctx.randint(1975, 2030) if self.n < 300 else ctx.randint(1975, 1995), ctx.randint(1, 12), ctx.randint(1, 28), ctx.randint(0, 23), ctx.choice([0, 0, 30]))
        self.times = [self.t0 + i * self.step for i in range(self.n)]
        self.unit = ctx.choice(['m', 's', 'us'])
        self.data = {'outside_temperature': ctx.rng.normal(8, 9, self.n), 'irradiance': ctx.rng.uniform(0, 900, self.n)}
        r = ctx.rng.random()
        if r < .2:
            self.data['radiation_global'] = ctx.rng.uniform(0, 900, self.n)
        elif r < .35:
            self.data['radiation_global'] = self.data.pop('irradiance')
        if ctx.rng.random() < .4:
            self.data['precipitation'] = ctx.rng.uniform(0, 5, self.n)
        self.dir = ctx.tmpdir()
        os.makedirs(os.path.join(self.dir, 'ds'))

    def sun(self):
        return self.data.get('radiation_global', self.data.get('irradiance'))

    def loader(self, counter=None):
        rec = self

        class Recorded(ClimateLoader):
            DATASET_NAME = os.path.join(rec.dir, 'ds')
            step_size = rec.step
            country = 'nowhere'

            def _parse_historical_climate_data(self):
                if counter is not None:
                    counter.append(1)
                return dict(datetime=stored(rec.times, rec.unit), **{k: v.copy() for k, v in rec.data.items()})

        return Recorded()


def zone(ctx, t):
    """The same instant with a random time zone, or naive (then utc)."""
    r = ctx.rng.random()
    if r < .35:
        return t
    if r < .8:
        m = int(ctx.choice([0, 60, 120, 330, 345, 840, -60, -300, -480, -570, -720]))
        ctx.event('aware_east', m > 0)
        ctx.event('aware_west', m < 0)
        return t.replace(tzinfo=UTC).astimezone(dt.timezone(dt.timedelta(minutes=m)))
    ctx.event('zone')
    return t.replace(tzinfo=UTC).astimezone(ZoneInfo(ctx.choice(ZONES)))


def same_offset(a, span):
    return a.tzinfo is None or (a + span).utcoffset() == a.utcoffset() == (a + span / 2).utcoffset()


def utc(t):
    return t if t.tzinfo is None else t.astimezone(UTC).replace(tzinfo=None)


def one(x):
    return float(np.ravel(x)[0])


@S.scenario(260, 4000)
def replay(ctx):
    rec = Record(ctx)
    i = ctx.randint(0, rec.n - 1)
    off = ctx.choice([0., 0., ctx.rng.random()])
    start = rec.times[i] + (dt.timedelta(seconds=int(off * rec.step.total_seconds())) if i < rec.n - 1 else dt.timedelta(0))
    start = zone(ctx, start)
    if not same_offset(start, (rec.n + 1) * rec.step):
        start = utc(start).replace(tzinfo=UTC)
    log = SimLogger('get_irradiance', 'get_outside_temperature', 'current_time', aggregated=False) if ctx.rng.random() < .4 else None
    ctx.case(step=rec.step, n=rec.n, t0=rec.t0, start=start, i=i, keys=sorted(rec.data), unit=rec.unit)
    sim = quiet(lambda: RealClimate(rec.loader(), start_datetime=start, **({'logger': log} if log is not None else {})))
    seen = []
    for k in range(i, rec.n):
        ctx.eq(sim.current_time, start + (k - i) * rec.step, 'clock')
        info = 'at %s (point %d of %d)' % (sim.current_time, k, rec.n)
        ctx.close(one(sim.get_irradiance()), rec.sun()[k], 'irradiance', info, rtol=1e-9, atol=1e-9)
        ctx.close(one(sim.get_outside_temperature()), rec.data['outside_temperature'][k], 'temperature', info, rtol=1e-9, atol=1e-9)
        seen.append((rec.sun()[k], rec.data['outside_temperature'][k]))
        ctx.event('replay')
        if k < rec.n - 1:
            sim.step()
    if log is not None and len(seen) > 1:
        ctx.close(np.ravel(sim.logger.get('get_irradiance')), [s[0] for s in seen[:-1]], 'log')
        ctx.close(np.ravel(sim.logger.get('get_outside_temperature')), [s[1] for s in seen[:-1]], 'log')
        ctx.event('log')
    ctx.raises(BaseException, sim.step, 'end', 'a step after the record')
    ctx.event('replay_end')
    ctx.state(rec.t0, start, rec.step)


def reference(kind, x, y, at):
    """Value of the interpolation of kind at position at; None when ambiguous."""
    j = int(np.searchsorted(x, at, side='right')) - 1
    if j >= len(x) - 1:
        return y[-1]
    w = (at - x[j]) / (x[j + 1] - x[j])
    if kind == 'linear' or kind == 1:
        return y[j] + w * (y[j + 1] - y[j])
    if kind == 'previous':
        return y[j]
    if kind == 'next':
        return y[j] if w == 0 else y[j + 1]
    if kind == 'nearest':
        return None if abs(w - .5) < 1e-9 else y[j] if w < .5 else y[j + 1]
    if kind in ('cubic', 3):
        return float(CubicSpline(x, y, bc_type='not-a-knot')(at)) if len(x) > 3 else None
    raise KeyError(kind)


@S.scenario(320, 5000)
def interpolated(ctx):
    rec = Record(ctx)
    kind = ctx.choice([None, 'linear', 'previous', 'next', 'nearest', 'cubic', 3, 1])
    i = ctx.randint(0, rec.n - 2)
    if kind in ('cubic', 3) and rec.n - i < 4:
        kind = 'linear'
    start = rec.times[i] + dt.timedelta(seconds=int(ctx.choice([0., ctx.rng.random()]) * rec.step.total_seconds()))
    start = zone(ctx, start)
    unit = rec.step.total_seconds()
    fine = ctx.rng.random()
    if fine < .2:
        size = dt.timedelta(seconds=int(ctx.choice([1, 7, 10, 30, 45])))
    elif fine < .25:
        size = dt.timedelta(milliseconds=ctx.randint(1, 5000))
    else:
        size = dt.timedelta(minutes=int(ctx.choice([1, 1, 10, 15, 60, 71]))) if fine < .7 else rec.step / int(ctx.choice([1, 2, 3, 5]))
    steps = ctx.randint(1, 80)
    span = rec.times[-1] - utc(start)
    if not same_offset(start, min(span, (steps + 2) * size)):
        start = utc(start).replace(tzinfo=UTC)
    keys = sorted(rec.data)
    log = SimLogger(*['get_' + k for k in keys], aggregated=False) if ctx.rng.random() < .3 else None
    ctx.case(step=rec.step, n=rec.n, t0=rec.t0, start=start, size=size, steps=steps, kind=kind, keys=keys, unit=rec.unit)
    sim = quiet(lambda: RealInterpolatedClimate(rec.loader(), start_datetime=start, step_size=size, **({} if kind is None else dict(interpolation_kind=kind)),
                                                **({'logger': log} if log is not None else {})))
    seen = {k: [] for k in keys}
    x = np.array([(t - rec.times[i]).total_seconds() for t in rec.times[i:]])
    ended = False
    for k in range(steps + 1):
        now = start + k * size
        ctx.eq(sim.current_time, now, 'clock')
        at = (utc(now) - rec.times[i]).total_seconds()
        w = (at / unit) % 1
        ctx.event('between_points' if 1e-9 < w < 1 - 1e-9 else 'at_point')
        ctx.event('under_a_minute', now.second + now.microsecond > 0)
        for key in keys:
            want = reference(kind or 'linear', x, rec.data[key][i:], at)
            got = one(getattr(sim, 'get_' + key)())
            seen[key].append(got)
            if want is not None:
                if kind in ('nearest', 'previous', 'next') and min(abs(at / unit % 1 - b) for b in (0, .5, 1)) < 1e-7 and at % unit:
                    continue
                ctx.close(got, want, 'interpolation', '%s of %s at %s, %s s after the first point' % (kind, key, now, at), rtol=1e-7, atol=1e-6)
                ctx.event('kind_%s' % {None: 'linear', 1: 'linear', 3: 'cubic'}.get(kind, kind))
        ctx.event('interpolated')
        if k < steps:
            if utc(now) + size > rec.times[-1]:
                ctx.raises(ValueError, sim.step, 'end', 'step to %s, the record ends at %s' % (now + size, rec.times[-1]))
                ctx.event('interpolated_end')
                ended = True
                break
            sim.step()
    if log is not None and not ended and steps:
        for key in keys:
            ctx.close(np.ravel(sim.logger.get('get_' + key)), seen[key][:-1], 'log')
        ctx.event('log')
    ctx.state(rec.t0, start, size, kind)


@S.scenario(120, 1500)
def refused(ctx):
    """Starts outside of the record."""
    rec = Record(ctx)
    ahead = dt.timedelta(minutes=1) * ctx.randint(1, 4000)
    before, after = rec.t0 - ahead, rec.times[-1] + ahead
    ctx.case(step=rec.step, n=rec.n, t0=rec.t0, ahead=ahead)
    for cls in (RealClimate, RealInterpolatedClimate):
        for t, e in ((before, 'refused_before'), (after, 'refused_after')):
            t = zone(ctx, t)
            ctx.raises(ValueError, lambda: quiet(lambda: cls(rec.loader(), start_datetime=t)), e, '%s start %s record %s to %s' % (cls.__name__, t, rec.t0, rec.times[-1]))
            ctx.event(e)
    ctx.raises(ValueError, lambda: quiet(lambda: RealClimate(rec.loader(), start_datetime=rec.t0, step_size=dt.timedelta(minutes=10))), 'step')
    ctx.event('refused_step')
    ctx.state(rec.t0, ahead)


def judge_slice(ctx, got, times, data, step, start):
    """What the loader returns for a start: the record from the closest point at or before it."""
    t = utc(start)
    first = max([i for i, x in enumerate(times) if x <= t], default=0)
    ctx.eq(sorted(got), sorted(['datetime', *data]), 'keys')
    ctx.eq([x.astype('datetime64[s]').astype(dt.datetime) for x in got['datetime']], list(times[first:]), 'datetime', 'start %s (utc %s)' % (start, t))
    for k in data:
        ctx.close(got[k], data[k][first:], 'values', '%s for %s' % (k, start), rtol=1e-12, atol=1e-12)
    ctx.event('slice')


@S.scenario(120, 1500)
def loader(ctx):
    """The first load parses, the next ones read what was stored: same result."""
    rec = Record(ctx)
    parsed = []
    starts = [zone(ctx, rec.t0 + float(ctx.rng.uniform(-.1, .999)) * (rec.times[-1] - rec.t0)) for _ in range(4)] + [zone(ctx, rec.times[-1]), zone(ctx, rec.t0)]
    ctx.case(step=rec.step, n=rec.n, t0=rec.t0, starts=starts, unit=rec.unit)
    for s in starts:
        d = rec.loader(parsed)
        judge_slice(ctx, quiet(lambda: d.load_historical_climate_data(s)), rec.times, rec.data, rec.step, s)
        ctx.raises(ValueError, lambda: d.load_historical_climate_data(zone(ctx, rec.times[-1] + dt.timedelta(minutes=3))), 'after-end')
    ctx.eq(len(parsed), 1, 'parsed-once', 'the stored record was not used')
    ctx.event('cached')
    ctx.state(rec.t0, rec.step)


@S.scenario(24, 300)
def sources(ctx):
    """The climate datasets give the columns of their files."""
    n, t0 = ctx.randint(3, 200), dt.datetime(ctx.randint(1980, 2019), ctx.randint(1, 12), ctx.randint(1, 28))
    times = [t0 + dt.timedelta(hours=i) for i in range(n)]
    name, code = ctx.choice([('germany', 'DE'), ('switzerland', 'CH'), ('england', 'GB'), ('FR', 'FR')])
    ninja = ctx.index % 2 == 0 or name == 'FR'
    root = os.path.join(ctx.tmpdir(), 'ds')
    os.makedirs(os.path.join(root, 'raw_data'))
    col = lambda lo, hi: np.round(ctx.rng.uniform(lo, hi, n), 4)
    ctx.case(ninja=ninja, name=name, n=n, t0=t0)
    start = zone(ctx, t0 + dt.timedelta(minutes=ctx.randint(0, 60 * (n - 1))))
    if ninja:
        c = dict(precipitation=col(0, 3), temperature=col(-20, 35), irradiance_surface=col(0, 900), irradiance_toa=col(900, 1300), snowfall=col(0, 1), snow_mass=col(0, 9),
                 cloud_cover=col(0, 1), air_density=col(1, 1.4))
        order = list(ctx.rng.permutation(sorted(c)))
        kind = ctx.choice(['population', 'land_area'])
        with open(os.path.join(root, 'raw_data', '%s_%s.csv' % (code, kind)), 'w') as f:
            f.write('# a\n# b\ntime,%s\n' % ','.join(order))
            for i, t in enumerate(times):
                f.write(t.strftime('%Y-%m-%d %H:%M') + ',' + ','.join('%.4f' % c[k][i] for k in order) + '\n')
        if ctx.randint(0, 1) and name != 'FR':
            name = name.capitalize()
        sub = type('N', (NinjaRenewablesClimate,), dict(DATASET_NAME=root))
        want = dict(precipitation=c['precipitation'], snowfall=c['snowfall'], snow_mass=c['snow_mass'], clearness=1 - c['cloud_cover'], air_density=c['air_density'],
                    outside_temperature=c['temperature'], irradiance=c['irradiance_surface'])
        make = lambda: sub(name, weighted_type=kind)
        ctx.event('ninja')
    else:
        c = {k: col(0, 500) for k in ('temperature', 'radiation_direct_horizontal', 'radiation_diffuse_horizontal')}
        if ctx.randint(0, 2) == 0:      # hours that were not measured stay unknown
            for k in c:
                c[k][ctx.rng.random(n) < .1] = np.nan
            ctx.event('gaps')
        with open(os.path.join(root, 'raw_data', 'weather_data.csv'), 'w') as f:
            cols = [(o, k) for o in ('AT', code, 'ZZ') for k in c]
            f.write('utc_timestamp,%s\n' % ','.join('%s_%s' % x for x in cols))
            for i, t in enumerate(times):
                f.write(t.strftime('%Y-%m-%dT%H:%M:%SZ') + ',' + ','.join('' if np.isnan(c[k][i]) and o == code else '%.4f' % (np.nan_to_num(c[k][i]) + (0 if o == code else 1000)) for o, k in cols) + '\n')
        if ctx.randint(0, 1):
            name = name.capitalize()
        sub = type('O', (OpenPowerSystemClimate,), dict(DATASET_NAME=root))
        os.makedirs(os.path.join(root, 'parsed_data', 'climate'))
        want = dict(outside_temperature=c['temperature'], irradiance=c['radiation_direct_horizontal'] + c['radiation_diffuse_horizontal'])
        make = lambda: sub(name)
        ctx.event('ops')
    for _ in range(2):
        judge_slice(ctx, quiet(lambda: make().load_historical_climate_data(start)), times, want, dt.timedelta(hours=1), start)
    sim = quiet(lambda: RealClimate(make(), start_datetime=start))
    k = max(i for i, x in enumerate(times) if x <= utc(start))
    ctx.close(one(sim.get_irradiance()), want['irradiance'][k], 'simulated-irradiance')
    ctx.close(one(sim.get_outside_temperature()), want['outside_temperature'][k], 'simulated-temperature')
    ctx.state(name, t0, ninja)


@S.scenario(12, 100, weight=2)
def shipped(ctx):
    """The shipped record: both simulators against the stored arrays."""
    country = ctx.choice(['germany', 'germany', 'switzerland'])
    d = OpenPowerSystemClimate(ctx.choice([country, country.capitalize()]))
    arr = quiet(lambda: d.load_historical_climate_data(dt.datetime(1980, 1, 1)))
    first, last = (arr['datetime'][i].astype('datetime64[s]').astype(dt.datetime) for i in (0, -1))
    t = first + dt.timedelta(minutes=ctx.randint(0, int((last - first).total_seconds() / 60) - 6000))
    start = zone(ctx, t)
    if not same_offset(start, dt.timedelta(days=5)):
        start = utc(start).replace(tzinfo=UTC)
    ctx.case(country=country, start=start)
    ctx.check(bool(np.all(np.diff(arr['datetime'].astype('datetime64[m]').astype(float)) == 60)), 'hourly', 'the record has holes')
    ctx.check(bool(np.all(np.isfinite(arr['outside_temperature']))) and arr['outside_temperature'].min() > -45 and arr['outside_temperature'].max() < 50, 'temperatures')
    sun = arr.get('radiation_global', arr.get('irradiance'))
    ctx.check(bool(np.all(sun >= 0)) and sun.max() < 1400, 'radiation')
    data = 'Germany' if country == 'germany' and ctx.rng.random() < .5 else d
    real = RealClimate(data, start_datetime=start)
    k = int((t - first) // dt.timedelta(hours=1))
    for j in range(48):
        ctx.close(one(real.get_irradiance()), sun[k + j], 'replayed', 'hour %d of %s' % (j, start))
        ctx.close(one(real.get_outside_temperature()), arr['outside_temperature'][k + j], 'replayed', 'hour %d of %s' % (j, start))
        real.step()
    size = dt.timedelta(minutes=int(ctx.choice([1, 10, 25])))
    inter = RealInterpolatedClimate(data, start_datetime=start, step_size=size)
    for j in range(100):
        h = (t + j * size - first).total_seconds() / 3600
        a = int(h)
        ctx.close(one(inter.get_outside_temperature()), arr['outside_temperature'][a] + (h - a) * (arr['outside_temperature'][a + 1] - arr['outside_temperature'][a]), 'interpolated', atol=1e-6)
        inter.step()
    ctx.event('shipped')
    ctx.state(start, country)
