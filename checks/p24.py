"""P24 CREST climate: sun, clearness chain and temperature model."""
import datetime as dt
import math
import warnings

import numpy as np
from scipy import stats

from vlib.core import Spec
from vlib.stats import ALPHA, gof, rand_pdf
from demod.datasets.CREST.loader import Crest
from demod.simulators.base_simulators import SimLogger
from demod.simulators.weather_simulators import CrestClimateSimulator, CrestIrradianceSimulator

S = Spec('P24', 'Random places, meridians, daylight saving, clearness chains and temperature models, shipped ones, random starts at any '
         'time of any day over several days; non-trivial = distinct model and start.',
         required=['irradiance', 'night', 'summer_time', 'clearness', 'clearness_statistics', 'start_in_day', 'midnight', 'log', 'temperature_day',
                   'temperature_minute', 'night_cooling', 'clear_nights', 'arma', 'climate_irradiance', 'shipped', 'refused'])
MIN = dt.timedelta(minutes=1)


def clear_sky(geo, t):
    """Irradiance on the horizontal surface under clear sky at local time t."""
    n = t.timetuple().tm_yday
    b = math.radians(360. * (n - 81) / 364)
    eot = 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)
    hour = t.hour + t.minute / 60. - (1 if geo['use_daylight_saving_time'] and 87 <= n < 304 else 0)
    solar = hour + (4 * (geo['longitude'] - geo['meridian']) + eot) / 60.
    decl = math.radians(23.45 * math.sin(2 * math.pi * (284 + n) / 365.25))
    lat, angle = math.radians(geo['latitude']), math.radians(15 * (12 - solar))
    s = math.cos(lat) * math.cos(decl) * math.cos(angle) + math.sin(lat) * math.sin(decl)
    if s <= 0:
        return 0.
    depth = .174 + .035 * math.sin(2 * math.pi * (n - 100) / 365.)
    return 1367 * (1 + .034 * math.cos(2 * math.pi * n / 365.25)) * math.exp(-depth / s) * s


class Climate:
    def __init__(self, geo, tpm, values, arma=None):
        self.geo, self.tpm, self.values, self.arma = geo, tpm, values, arma

    def load_geographic_data(self):
        return dict(self.geo)

    def load_clearness_tpms(self):
        return self.tpm.copy(), self.values.copy(), MIN

    def load_temperatures_arma(self):
        return dict(self.arma)


def place(ctx, most=60.):
    lat, lon = float(ctx.rng.uniform(-most, most)), float(ctx.rng.uniform(-12, 12))
    return dict(country='x', latitude=lat, longitude=lon, meridian=float(ctx.choice([0., lon + ctx.rng.uniform(-8, 8)])),
                use_daylight_saving_time=bool(ctx.rng.random() < .5))


def start_time(ctx):
    t = dt.datetime(2014, 1, 1) + dt.timedelta(days=ctx.randint(0, 1500))
    if ctx.rng.random() < .35:      # around the changes of summer time and year
        t = ctx.choice([dt.datetime(2015, 3, 27), dt.datetime(2016, 3, 26), dt.datetime(2015, 10, 30), dt.datetime(2015, 12, 30), dt.datetime(2016, 12, 30), dt.datetime(2016, 12, 31)])
    if ctx.rng.random() < .7:
        t += dt.timedelta(minutes=ctx.randint(1, 1439))
        ctx.event('start_in_day')
    return t


class Lag:
    """The value shown is the one of the clock or of the minute before, the same all along."""

    def __init__(self):
        self.ok = [True, True]
        self.bad = None

    def see(self, got, now, before, info):
        for i, w in enumerate((now, before)):
            if not np.isclose(got, w, rtol=1e-6, atol=1e-7):
                if self.ok[i]:
                    self.ok[i] = False
                    if not any(self.ok):
                        self.bad = '%s: got %s, the sun gives %s (a minute before: %s)' % (info, got, now, before)


@S.scenario(60, 800, weight=2)
def irradiance(ctx):
    """A clearness chain without chance: the irradiance of each minute is known."""
    geo = place(ctx, 66.)
    n = ctx.randint(1, 9)
    perm = ctx.rng.permutation(n)
    values = np.round(np.sort(ctx.rng.choice(np.arange(1, 101), n, replace=False)) / 100., 2)
    init = ctx.randint(0, n - 1)
    start, steps = start_time(ctx), ctx.randint(30, 2200)
    log = SimLogger('get_irradiance', 'get_current_clearness', 'current_time', aggregated=False) if ctx.rng.random() < .4 else None
    ctx.case(geo=geo, perm=perm, values=values, init=float(values[init]), start=start, steps=steps)
    tpm = np.eye(n)[perm]
    sim = CrestIrradianceSimulator(Climate(geo, tpm, values), initial_clearness=float(values[init]), start_datetime=start,
                                   **({} if ctx.rng.random() < .5 else dict(step_size=MIN)), **({'logger': log} if log is not None else {}))
    done = start.hour * 60 + start.minute
    state = init
    for _ in range(done):
        state = perm[state]
    lag = Lag()
    hist = []
    for k in range(steps + 1):
        t = start + k * MIN
        ctx.eq(sim.current_time, t, 'clock')
        got = sim.get_irradiance()
        c = float(values[state])
        ctx.eq(np.shape(got), (), 'single-value', 'irradiance is one number')
        ctx.close(float(np.ravel(sim.get_current_clearness())[0]), c, 'clearness', 'at %s' % t)
        got = float(np.ravel(got)[0])
        if done + k:
            now, before = clear_sky(geo, t) * c, clear_sky(geo, t - MIN) * c
            lag.see(got, now, before, t)
            ctx.event('irradiance' if now > 0 else 'night')
            ctx.event('summer_time', geo['use_daylight_saving_time'] and 87 <= t.timetuple().tm_yday < 304)
        if t.hour + t.minute == 0:
            ctx.event('midnight')
        hist.append((got, c))
        if k < steps:
            sim.step()
            state = perm[state]
    ctx.check(any(lag.ok), 'irradiance', lambda: lag.bad)
    ctx.event('clearness', steps)
    ctx.state(start, tuple(perm))
    if log is not None:
        ctx.close(np.ravel(sim.logger.get('get_irradiance')), [h[0] for h in hist[:-1]], 'log')
        ctx.close(np.ravel(sim.logger.get('get_current_clearness')), [h[1] for h in hist[:-1]], 'log')
        ctx.event('log')


@S.scenario(24, 300, weight=3)
def clearness_statistics(ctx):
    """Random chains: allowed moves at the given rates."""
    if ctx.rng.random() < .6:
        n = ctx.randint(2, 6)
        tpm = np.array([rand_pdf(ctx.rng, n) for _ in range(n)])
        values = np.arange(1, n + 1) / 10.
        d = Climate(place(ctx), tpm, values)
        init = float(ctx.choice(list(values)))
    else:
        d = Crest()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tpm, values, _ = d.load_clearness_tpms()
        init = ctx.choice([.99, .5, 1.])
        ctx.event('shipped')
    start, steps = start_time(ctx), 4000
    ctx.case(data=type(d).__name__, tpm=tpm[:6, :6], init=init, start=start)
    sim = CrestIrradianceSimulator(d, initial_clearness=init, start_datetime=start)
    seq = []
    for _ in range(steps):
        sim.step()
        seq.append(float(np.ravel(sim.get_current_clearness())[0]))
    labels = sorted(set(np.round(values, 6)))
    # states with the same label are seen together
    group = np.array([labels.index(round(float(v), 6)) for v in values])
    idx = np.array([labels.index(round(s, 6)) for s in seq])
    moves = np.zeros((len(labels), len(labels)))
    np.add.at(moves, (idx[:-1], idx[1:]), 1)
    for i in range(len(labels)):
        members = np.flatnonzero(group == i)
        if len(members) > 1:
            continue
        p = np.bincount(group, weights=tpm[members[0]], minlength=len(labels))
        ctx.check(gof(moves[i], p) > ALPHA, 'rates', lambda: 'from %s: %s for %s' % (labels[i], moves[i], p))
        ctx.event('clearness_statistics', moves[i].sum())
    ctx.state(start, init)


def climate(ctx, d, start, **kw):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return CrestClimateSimulator(d, start_datetime=start, **kw)


def judge_days(ctx, irr, temp, times, clear, geo, arma):
    """Temperature of whole days from their irradiance: one random range per day."""
    res = []
    for a in range(0, len(irr) - 1439):
        if times[a].hour or times[a].minute:
            continue
        i, t = irr[a:a + 1440], temp[a:a + 1440]
        day = np.flatnonzero(i > 0)
        if len(day) < 60 or len(day) > 1430 or day[-1] - day[0] + 1 != len(day):
            continue
        n = times[a].timetuple().tm_yday
        best = None
        for yd in (n, n - 1 or 365):
            sun = 1367 * (1 + .034 * math.cos(2 * math.pi * yd / 365.25))
            kx = np.cumsum(i)[day] / (sun * np.arange(1, len(day) + 1))
            top = int(np.argmax(kx))
            td = arma['T_mean'] + arma['T_std'] * math.sin(2 * math.pi * yd / 365. + arma['T_shift'] / 365. * 2 * math.pi)
            tt = t[day]
            if top == 0 or top == len(day) - 1:
                continue
            # slope before the maximum gives the range of the day
            rng = (tt[top] - tt[0]) / (kx[top] - kx[0]) * kx[top]
            # the last minute of daylight already belongs to the evening
            want = np.where(np.arange(len(day)) <= top, tt[top] - rng * (kx[top] - kx) / kx[top], tt[top] - 1.7 * rng * (kx[top] - kx) / kx[top])
            err = np.abs(want - tt)[:-1].max()
            if best is None or err < best[0]:
                best = (err, td, rng, tt[top] - .5 * rng, day)
        if best is None:
            continue
        err, td, rng, mean, day = best
        ctx.check(err < 1e-6 * (1 + abs(rng)), 'daylight-curve', lambda: 'off by %s on %s' % (err, times[a]))
        ctx.event('temperature_minute', len(day))
        total = i.sum() / 60000.
        z = rng - (20 * math.log10(total + 2.5) - 7)
        ctx.check(abs(z) < 7, 'daily-range', lambda: '%s degrees for %s kWh on %s' % (rng, total, times[a]))
        res.append((z, mean - td, times[a]))
        ctx.event('temperature_day')
        if clear is not None:
            # the night cools from the temperature of the sunset to the one of the sunrise, faster under a clear sky
            c = np.array(clear[a:a + 1440])
            fall, cs = -np.diff(t), c[1:]
            night = np.r_[np.arange(day[-1] + 1, 1440), np.arange(1, day[0])]
            base = fall[night - 1] - .025 * cs[night - 1]
            if len(base) > 5:
                dark = c[i == 0].mean()
                rate = (t[day[-1] - 1] - tt[0]) / (len(base) + 1.)
                ctx.close(base, np.full(len(base), np.median(base)), 'night-rate', 'on %s' % times[a], atol=1e-9 * (1 + abs(mean)))
                got = np.median(base) + .025 * dark
                # the fall of a few minutes is left to how sunset and sunrise are counted
                slack = 4 * (abs(got) + .03) + 3 * np.abs(np.diff(tt)).max() + .5 * np.abs(np.diff(tt)[[0, -1]]).max()
                ctx.check(abs(got - rate) * len(base) < slack, 'night-fall', lambda: '%s degrees a minute over %d minutes for %s on %s' % (got, len(base), rate, times[a]))
                if day[0] > 2:
                    end = t[1439] - t[0]
                    ctx.check(abs(end - got) < .03, 'night-continues', lambda: 'from %s to %s on %s' % (t[1439], t[0], times[a]))
                ctx.check(abs(t[min(day[-1] + 1, 1439)] - t[day[-1] - 1]) < slack, 'sunset', lambda: 'temperatures %s on %s' % (t[day[-1] - 2:day[-1] + 3], times[a]))
                ctx.event('night_cooling')
    return res


@S.scenario(40, 400, weight=3)
def temperature(ctx):
    """Constant clearness: irradiance known, temperature up to the range of the day."""
    geo = place(ctx, 58.)
    n = ctx.randint(1, 7)
    perm = ctx.rng.permutation(n)
    values = np.round(np.sort(ctx.rng.choice(np.arange(20, 101), n, replace=False)) / 100., 2)
    init = state = ctx.randint(0, n - 1)
    daily = ctx.rng.random() < .4
    if daily:       # the nights are not as clear as the days
        n, init, state = 1440, 0, 0
        perm = (np.arange(n) + 1) % n
        values = np.round(np.clip(.6 + ctx.choice([-.3, .3]) * np.cos(np.arange(n) * 2 * np.pi / n) + ctx.rng.uniform(-.05, .05, n), .02, .97), 3)
        values[0] = .98
        ctx.event('clear_nights')
    # without innovations neither part of the model shows
    arma = dict(T_mean=float(ctx.rng.uniform(-5, 25)), T_std=float(ctx.rng.uniform(0, 12)), T_shift=float(ctx.rng.uniform(-200, 200)),
                AR=float(ctx.rng.uniform(-1, 1)), MA=float(ctx.rng.uniform(-9, 9)), SD=0.)
    start, steps = start_time(ctx), ctx.randint(1500, 4400)
    log = SimLogger('get_irradiance', 'get_outside_temperature', aggregated=False) if ctx.rng.random() < .4 else None
    ctx.case(geo=geo, perm=perm[:9], values=values[:9], init=float(values[init]), arma=arma, start=start, steps=steps)
    sim = climate(ctx, Climate(geo, np.eye(n)[perm], values, arma), start, initial_clearness=float(values[init]),
                  **({} if ctx.rng.random() < .5 else dict(step_size=MIN)), **({'logger': log} if log is not None else {}))
    for _ in range(start.hour * 60 + start.minute):
        state = perm[state]
    lag, irr, temp, times, clear = Lag(), [], [], [], []
    for k in range(steps + 1):
        t = start + k * MIN
        ctx.eq(sim.current_time, t, 'clock')
        i, x = sim.get_irradiance(), sim.get_outside_temperature()
        irr.append(float(np.ravel(i)[0]))
        temp.append(float(np.ravel(x)[0]))
        times.append(t)
        c = float(values[state])
        clear.append(c)
        state = perm[state]
        if not (k == 0 and t.hour + t.minute == 0):
            lag.see(irr[-1], clear_sky(geo, t) * c, clear_sky(geo, t - MIN) * c, t)
        if k < steps:
            sim.step()
        ctx.event('climate_irradiance')
    ctx.check(any(lag.ok), 'irradiance', lambda: lag.bad)
    ctx.finite(temp, 'finite')
    res = judge_days(ctx, np.array(irr), np.array(temp), times, clear, geo, arma)
    for z, dev, t in res:
        # without random part the mean is the seasonal one (of the day or the day before)
        ctx.check(abs(dev) < 1e-5 * (1 + abs(z)) + arma['T_std'] * .02, 'season', lambda: '%s from the seasonal mean on %s' % (dev, t))
    if log is not None:
        ctx.close(np.ravel(sim.logger.get('get_irradiance')), irr[:-1], 'log')
        ctx.close(np.ravel(sim.logger.get('get_outside_temperature')), temp[:-1], 'log')
        ctx.event('log')
    ctx.state(start, tuple(perm[:9]))


@S.scenario(6, 60, weight=12)
def arma(ctx):
    """The day to day deviations are those of the autoregressive moving average model."""
    geo = dict(country='x', latitude=45., longitude=0., meridian=0., use_daylight_saving_time=False)
    kind = ['white', 'ar', 'ma', 'both', 'ar', 'ma'][ctx.index % 6]
    ar = float(ctx.choice([.9, -.7, 1.3, -1.2])) if kind == 'ar' else 0.
    ma = float(ctx.choice([1., -1.])) if kind == 'ma' else 0.
    sd = float(ctx.choice([3., 10.]))
    if kind == 'both':
        ar, ma = float(ctx.choice([1.3, -1.2])), float(ctx.choice([-.3, .3]))
    model = dict(T_mean=10., T_std=5., T_shift=-115., AR=ar, MA=ma, SD=sd)
    days = 30
    ctx.case(model=model, days=days)
    start = dt.datetime(2015, 1, 1) + dt.timedelta(days=ctx.randint(0, 300))
    sim = climate(ctx, Climate(geo, np.ones((1, 1)), np.array([.9]), model), start, initial_clearness=.9)
    irr, temp, times = [], [], []
    for k in range(days * 1440):
        irr.append(float(np.ravel(sim.get_irradiance())[0]))
        temp.append(float(np.ravel(sim.get_outside_temperature())[0]))
        times.append(start + k * MIN)
        sim.step()
    res = judge_days(ctx, np.array(irr), np.array(temp), times, [.9] * len(irr), geo, model)
    dev = np.array([d for _, d, _ in res])
    ctx.check(len(dev) >= days - 1, 'days', lambda: str(len(dev)))
    z = np.array([r[0] for r in res])
    ctx.check(abs(z.sum()) < 6.5 * math.sqrt(len(z)), 'daily-range-mean', lambda: '%s degrees too much on average over %d days' % (z.mean(), len(z)))
    if kind == 'both':
        # what the autoregressive part explains aside, a short memory remains
        x = (dev[1:] - ar * dev[:-1])[::3]
        ctx.check(np.abs(x).max() < 9 * sd and np.abs(x).mean() > sd * .15, 'both-parts', lambda: '%s (sd %s, ar %s, ma %s)' % (x, sd, ar, ma))
        ctx.event('arma', len(x))
        ctx.state(start, ar, ma, sd)
        return
    x = dev[1:] - ar * dev[:-1]       # innovations (ar), or the moving average itself
    if ma:
        x = x[::2]                    # independent
    sigma2 = sd ** 2 * (1 + ma ** 2)
    stat = (x ** 2).sum() / sigma2
    p = min(stats.chi2.sf(stat, len(x)), stats.chi2.cdf(stat, len(x))) * 2
    # small seasonal tolerance: widen
    ctx.check(p > 1e-10, 'spread', lambda: 'sum of squares %s for %d (sd %s, ar %s, ma %s)' % (stat, len(x), sd, ar, ma))
    # successive innovations are not related
    if not ma:
        r = (x[1:] * x[:-1]).sum() / sd ** 2 / math.sqrt(len(x) - 1)
        ctx.check(abs(r) < 7.5, 'white', lambda: 'innovations related: %s standard deviations (ar %s)' % (r, ar))
    else:
        # alternate (or plain) sums only keep the first and last innovation
        s = np.cumsum(dev * (-1.) ** np.arange(len(dev)) if ma > 0 else dev)
        ctx.check(np.abs(s).max() < 7 * sd * math.sqrt(2) + .3 * len(dev), 'moving-average', lambda: 'sums %s (sd %s, ma %s)' % (s, sd, ma))
    ctx.event('arma', len(x))
    ctx.state(start, ar, ma, sd)


@S.scenario(16, 200, weight=4)
def shipped(ctx):
    """The shipped model over several days."""
    start, days = start_time(ctx), ctx.randint(1, 3)
    ctx.case(start=start, days=days)
    d = Crest() if ctx.rng.random() < .5 else 'CREST'
    sim = climate(ctx, d, start)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        model, geo = Crest().load_temperatures_arma(), Crest().load_geographic_data()
    irr, temp, times = [], [], []
    steps = days * 1440
    ratio = []
    for k in range(steps):
        t = start + k * MIN
        ctx.eq(np.shape(sim.get_irradiance()), (), 'single-value', 'irradiance')
        ctx.eq(np.shape(sim.get_outside_temperature()), (), 'single-value', 'temperature')
        irr.append(float(np.ravel(sim.get_irradiance())[0]))
        temp.append(float(np.ravel(sim.get_outside_temperature())[0]))
        times.append(t)
        top = max(clear_sky(geo, t), clear_sky(geo, t - MIN))
        ctx.check(0 <= irr[-1] <= top * (1 + 1e-9) + 1e-6, 'above-clear-sky', lambda: '%s at %s, clear sky gives %s' % (irr[-1], t, top))
        low = min(clear_sky(geo, t), clear_sky(geo, t - MIN))
        if k:
            ctx.check(irr[-1] > 0 or low == 0, 'dark-day', lambda: 'no sun at %s' % t)
        sim.step()
    ctx.finite(temp, 'finite')
    ctx.check(min(temp) > -45 and max(temp) < 60, 'plausible', lambda: '%s to %s' % (min(temp), max(temp)))
    judge_days(ctx, np.array(irr), np.array(temp), times, None, geo, model)
    ctx.event('shipped', steps)
    ctx.state(start)


@S.scenario(20, 100)
def refused(ctx):
    ctx.case(i=ctx.index)
    geo = place(ctx)
    bad = np.array([[.5, .2], [0., 1.]])
    v = np.array([.1, .9])
    ctx.raises(Exception, lambda: CrestIrradianceSimulator(Climate(geo, bad, v), initial_clearness=.1), 'tpm')
    ctx.raises(ValueError, lambda: CrestIrradianceSimulator(Climate(geo, np.eye(2), v), initial_clearness=.1,
                                                            step_size=dt.timedelta(minutes=10)), 'step-size')
    ctx.raises(Exception, lambda: CrestIrradianceSimulator(Climate(geo, np.eye(2), v), initial_clearness=.5), 'initial-clearness')
    ctx.event('refused')
    ctx.state(ctx.index)
