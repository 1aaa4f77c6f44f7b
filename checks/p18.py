"""P18 lighting simulators."""
import warnings

import numpy as np

from vlib.core import Spec
from vlib.stats import ALPHA, binom, gof, rand_pdf
from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.base_simulators import SimLogger
from demod.simulators.lighting_simulators import CrestLightingSimulator, FisherLightingSimulator

S = Spec('P18', 'Fisher and CREST lighting with random parameters, bulbs (powers that identify them), occupancies and irradiances, and '
         'the shipped parameters; non-trivial = distinct parameters and input history.',
         required=['bulb_uses', 'configurations', 'pairs', 'duration_spread', 'fisher', 'bulb_on', 'bulb_start', 'dark_house', 'five_percent', 'duration', 'duration_apart', 'start_frequency', 'bulbs_installed', 'log', 'refused'])


class Fisher:
    def __init__(self, lo, hi, use):
        self.d = dict(irradiation_threshold_min=lo, irradiation_threshold_max=hi, individual_light_use=use)

    def load_fisher_lighting(self):
        return dict(self.d)


@S.scenario(150, 3000)
def fisher(ctx):
    lo = float(np.round(ctx.rng.uniform(0, 60), 2))
    hi = lo + float(np.round(ctx.rng.uniform(.1, 90), 2))
    use = float(np.round(ctx.rng.uniform(5, 200), 2))
    hh, steps = ctx.many(12), ctx.randint(1, 30)
    occ0 = None if ctx.rng.random() < .5 else ctx.rng.integers(0, 5, hh)
    irr0 = None if ctx.rng.random() < .5 else float(ctx.rng.uniform(0, 200))
    ctx.case(lo=lo, hi=hi, use=use, hh=hh, steps=steps, occ0=occ0, irr0=irr0)
    logger = SimLogger('get_power_consumption', aggregated=False) if ctx.rng.random() < .5 else None
    if ctx.rng.random() < .2:
        data = 'Germany'
        d = GermanDataHerus().load_fisher_lighting()
        lo, hi, use = d['irradiation_threshold_min'], d['irradiation_threshold_max'], d['individual_light_use']
    else:
        data = Fisher(lo, hi, use)
    sim = FisherLightingSimulator(hh, data, initial_active_occupancy=occ0, initial_irradiance=irr0, logger=logger)
    occ, irr = (np.ones(hh) if occ0 is None else occ0), irr0 or 0.
    out = []
    for k in range(steps + 1):
        if k:
            occ = ctx.rng.integers(0, 6, hh) if ctx.rng.random() < .8 else ctx.rng.integers(0, 20, hh) / 4.
            irr = float(ctx.choice([lo, hi, 0., lo + (hi - lo) * ctx.rng.random(), hi * 2, ctx.rng.uniform(0, 1000)]))
            sim.step(ctx.counts(occ, small=False, slot='occ'), irr)
        want = occ * use * min(max((hi - irr) / (hi - lo), 0.), 1.)
        got = np.asarray(sim.get_power_consumption())
        ctx.close(got, want, 'power', 'irradiance %s' % irr)
        out.append(want)
        ctx.event('fisher')
        ctx.state(round(irr, 1), tuple(occ))
    if logger is not None:
        ctx.close(sim.logger.get('get_power_consumption'), np.array(out[:-1]), 'log')


class Light:
    def __init__(self, **k):
        self.k = k

    def load_crest_lighting(self):
        k = self.k
        return dict(calibration_scalar=k['scalar'], effective_occupancy=np.array(k['effective'], float),
                    durations_cdf=np.cumsum(k['pdf']), durations_minutes_low=np.array(k['low']),
                    durations_minutes_high=np.array(k['high']), irradiance_threshold_mean=k['mean'], irradiance_threshold_std=k['std'])

    def load_bulbs_config(self, subgroup={}):
        return self.k['config'].copy()

    def load_bulbs(self):
        return self.k['powers'].copy(), self.k['penetration'].copy()

    def load_installed_bulbs_stats(self, subgroup={}):
        return self.k['n_mean'], self.k['n_std']


def bins(ctx, widest=5):
    n = ctx.randint(1, 4)
    lows, highs, at = [], [], ctx.randint(1, 3)
    for _ in range(n):
        lows.append(at)
        highs.append(at + ctx.randint(0, widest))
        at = highs[-1] + 1
    p = rand_pdf(ctx.rng, n, zeros=.1)
    return p, lows, highs


UNIT = .37       # power of the weakest bulb


def bulbs_on(power, n):
    return (np.round(power / UNIT).astype(np.int64)[:, None] >> np.arange(n)) & 1


@S.scenario(120, 2500, weight=2)
def crest_predictable(ctx):
    """Certain starts below the threshold: which bulbs are on is known, up to their durations."""
    n, hh, steps = ctx.randint(1, 12), ctx.many(8), ctx.randint(10, 150)
    pdf, low, high = bins(ctx)
    effective = [0.] + [float(x) for x in ctx.rng.choice([0., 1., 2.], 5, p=[.15, .45, .4])]
    thr = float(ctx.choice([ctx.randint(10, 100), ctx.rng.uniform(10, 100)]))
    config = np.where(ctx.rng.random((ctx.randint(1, 6), n)) < .85, UNIT * 2. ** np.arange(n)[None, :], ctx.choice([0., np.nan]))
    data = Light(scalar=1e9, effective=effective, pdf=pdf, low=low, high=high, mean=thr, std=0., config=config)
    ctx.case(n=n, hh=hh, steps=steps, pdf=pdf, low=low, high=high, effective=effective, thr=thr, config=np.nan_to_num(config))
    log = SimLogger('get_power_demand', aggregated=False) if ctx.rng.random() < .5 else None
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sim = CrestLightingSimulator(hh, data, logger=log)
    has = np.nan_to_num(np.asarray(sim.bulbs_power, float)) > 0
    rows = {tuple(r) for r in np.nan_to_num(config)}
    ctx.check(all(tuple(r) in rows for r in np.nan_to_num(np.asarray(sim.bulbs_power, float))), 'configuration')
    ctx.event('bulbs_installed', has.sum())
    on = np.zeros((hh, n), bool)
    run = np.zeros((hh, n), int)
    occ = ctx.rng.integers(0, 6, hh)
    irr = float(ctx.choice([0., thr + 5]))
    maxd, mind = max(h for h, p in zip(high, pdf) if p > 0), min(l for l, p in zip(low, pdf) if p > 0)
    ok = {d for l, h, p in zip(low, high, pdf) if p > 0 for d in range(l, h + 1)}
    hist = []
    chances = hits = pairs = together = 0
    for k in range(steps + 1):
        power = np.asarray(sim.get_power_demand())
        ctx.eq(power.shape, (hh,), 'shape')
        for g in (sim.get_electric_consumptions(), sim.get_thermal_gains()):
            ctx.eq(np.asarray(g), power, 'getters')
        hist.append(power.copy())
        now = bulbs_on(power, n).astype(bool)
        ctx.check(not (now & ~has).any(), 'missing-bulb-on')
        if not k:
            ctx.check(not now.any(), 'off-at-start')
        else:
            eff = np.array(effective)[occ]
            dark = occ == 0
            ctx.check(not now[dark].any(), 'empty-house-lit')
            ctx.event('dark_house', dark.sum())
            can = has & (eff > 0)[:, None] & ~dark[:, None]
            if irr < thr:
                # whatever is off or has just ended starts
                ctx.check(now[can].all(), 'not-started', lambda: 'step %d irradiance %s < %s' % (k, irr, thr))
            else:
                chances += (can & ~on).sum()
                hits += (can & ~on & now).sum()
                a, b = (can & ~on).sum(1), (can & ~on & now).sum(1)
                pairs, together = pairs + (a * (a - 1) // 2).sum(), together + (b * (b - 1) // 2).sum()
            ctx.check(not (now & ~on & ~can).any(), 'started-without-occupants')
            ended = on & ~now & ~dark[:, None]
            if irr >= thr:
                for h, b in np.argwhere(ended):
                    ctx.event('duration')
                    if run[h, b] < maxd * 2 and run[h, b] >= 0:
                        # consecutive uses may merge: at least the shortest, and possible as a sum
                        ctx.check(run[h, b] >= mind, 'duration-short', lambda: 'on for %d of %s' % (run[h, b], sorted(ok)))
            ctx.event('bulb_on', now.sum())
            ctx.event('bulb_start', (now & ~on).sum())
        on = now
        run = np.where(on, run + 1, 0)
        if k < steps:
            if ctx.rng.random() < .15:
                occ = ctx.rng.integers(0, 6, hh)
            if ctx.rng.random() < .2:
                irr = float(ctx.choice([0., thr - .5, thr - 1e-4, thr, thr + 1e-4, thr + 5, 800.]))
            with np.errstate(all='ignore'):
                sim.step(ctx.counts(occ, slot='occ'), irr)
        ctx.state(tuple(np.packbits(on.ravel())))
    ctx.event('five_percent', chances)
    ctx.check(binom(hits, chances, .05) > ALPHA, 'five-percent', lambda: '%d starts of %d chances in daylight' % (hits, chances))
    # each on its own
    m = pairs * .05 ** 2
    ctx.check(together <= 2 * m + 9 * np.sqrt(m) + 25, 'five-percent-together', lambda: '%d pairs of bulbs started together of %d' % (together, pairs))
    ctx.event('pairs', pairs)
    if log is not None:
        ctx.eq(sim.logger.get('get_power_demand'), np.array(hist[:-1]), 'log')
        ctx.event('log')


@S.scenario(40, 700, weight=3)
def crest_statistics(ctx):
    """Single uses: durations from the given intervals, starts with the documented probability."""
    n, hh, steps = ctx.randint(2, 10), ctx.randint(20, 60), ctx.randint(80, 200)
    pdf, low, high = bins(ctx)
    effective = [0., 1., 1.5, 1.7, 2., 2.]
    scalar = float(ctx.choice([.002, .01, .03]))
    bright = ctx.rng.random() < .3
    data = Light(scalar=scalar, effective=effective, pdf=pdf, low=low, high=high, mean=60., std=0.,
                 config=np.tile(UNIT * 2. ** np.arange(n), (3, 1)))
    ctx.case(n=n, hh=hh, steps=steps, pdf=pdf, low=low, high=high, scalar=scalar, bright=bright)
    sim = CrestLightingSimulator(hh, data)
    use = np.asarray(sim.relative_use)
    ctx.check((use > 0).all() and use.shape == (hh, n), 'relative-use')
    occ = ctx.rng.integers(1, 6, hh)
    p = np.minimum(np.array(effective)[occ][:, None] * use * scalar, 1.) * (.05 if bright else 1.)
    on, run = np.zeros((hh, n), bool), np.zeros((hh, n), int)
    tries, hits, expect, var = 0, 0, 0., 0.
    pairs = together = 0.
    done = []
    for k in range(steps):
        sim.step(occ, 500. if bright else 10.)
        now = bulbs_on(np.asarray(sim.get_power_demand()), n).astype(bool)
        free = ~on
        expect += p[free].sum()
        var += (p * (1 - p))[free].sum()
        hits += (now & free).sum()
        tries += free.sum()
        q = np.where(free, p, 0)
        pairs += (q.sum(1) ** 2 - (q ** 2).sum(1)).sum() / 2
        b = (now & free).sum(1)
        together += (b * (b - 1) // 2).sum()
        # a use that ends may be followed by another at once: only short probabilities are judged on durations
        done += run[on & ~now].tolist()
        on = now
        run = np.where(on, run + 1, 0)
    ctx.check(abs(hits - expect) <= 7 * np.sqrt(var) + 15, 'start-frequency', lambda: '%d starts, %.1f expected of %d' % (hits, expect, tries))
    ctx.event('start_frequency', tries)
    ctx.check(together <= 1.5 * pairs + 9 * np.sqrt(pairs) + 40, 'start-together', lambda: '%d pairs of bulbs started together, %.1f expected' % (together, pairs))
    ok = {d for l, h, q in zip(low, high, pdf) if q > 0 for d in range(l, h + 1)}
    single = [d for d in done if d <= max(ok)]
    sums = set(ok)
    for _ in range(max(ok)):
        sums |= {a + b for a in ok for b in sums if a + b <= max(ok)}
    ctx.check(all(d in sums for d in single), 'duration', lambda: 'durations %s, possible %s' % (sorted(set(single)), sorted(ok)))
    ctx.event('duration', len(done))
    if scalar <= .002 and len(done) > 100 and max(ok) < steps / 10 and len([q for q in pdf if q > 0]) > 1:
        cnt = np.array([sum(l <= d <= h for d in done) for l, h in zip(low, high)], float)
        # merged uses and the end of the run distort a little: only gross distortions are judged
        f = cnt / max(cnt.sum(), 1)
        ctx.check(np.abs(f - pdf).max() < .12 + 5 / np.sqrt(len(done)), 'duration-frequency', lambda: '%s for %s' % (f, pdf))


@S.scenario(50, 900, weight=2)
def single_uses(ctx):
    """All bulbs start together and nobody can start others: the durations are seen exactly."""
    n, hh = ctx.randint(3, 20), ctx.randint(20, 80)
    pdf, low, high = bins(ctx, ctx.choice([5, 5, 30, 30, 300]))
    data = Light(scalar=1e9, effective=[0., 1e9, 0.], pdf=pdf, low=low, high=high, mean=60., std=0., config=np.tile(UNIT * 2. ** np.arange(n), (2, 1)))
    ctx.case(n=n, hh=hh, pdf=pdf, low=low, high=high)
    sim = CrestLightingSimulator(hh, data)
    sim.step(np.ones(hh, int), 0.)
    on = bulbs_on(np.asarray(sim.get_power_demand()), n).astype(bool)
    ctx.check(on.all(), 'all-start')
    run = on.astype(int)
    for k in range(max(high) + 2):
        sim.step(ctx.counts(np.full(hh, 2)), ctx.choice([0., 500.]))
        on = bulbs_on(np.asarray(sim.get_power_demand()), n).astype(bool)
        ctx.check(not (on & (run < k + 1)).any(), 'restarted')
        run += on
    ctx.check(not on.any(), 'never-ends', lambda: str(run.max()))
    d = run.ravel()
    which = np.searchsorted(high, d)
    inside = which < len(high)
    ctx.check(inside.all() and (d >= np.array(low)[np.minimum(which, len(low) - 1)]).all(), 'duration', lambda: str(np.unique(d)))
    ctx.check(gof(np.bincount(np.minimum(which, len(pdf) - 1), minlength=len(pdf)), pdf) > ALPHA, 'duration-share', lambda: str(np.bincount(which)))
    for lo, hi in zip(low, high):
        # bulbs that start together do not stop together
        part = d[(d > lo) & (d < hi)]
        if hi - lo >= 4 and len(part) >= 60:
            ctx.check(len(set(part.tolist())) > 1, 'duration-shared', lambda: '%d bulbs from %d to %d all %d' % (len(part), lo, hi, part[0]))
            ctx.event('duration_apart')
        part = d[(d >= lo) & (d <= hi)]
        if hi - lo >= 4 and len(part) >= 150:
            # over all the interval
            ends = (part < (lo + hi) / 2.).mean(), (part > (lo + hi) / 2.).mean()
            ctx.check(min(ends) > .08, 'duration-spread', lambda: 'from %d to %d: %s' % (lo, hi, np.bincount(part)[lo:]))
            ctx.event('duration_spread')
    ctx.event('duration', d.size)


@S.scenario(20, 300)
def uses_of_bulbs(ctx):
    """Bulbs are used unequally: exponential weights of mean ln(10)."""
    n, hh = 10, 600
    scalar = float(np.round(10. ** ctx.rng.uniform(-2, 1), 4))
    eff = float(np.round(ctx.rng.uniform(.3, 2), 2))
    data = Light(scalar=scalar, effective=[0., eff], pdf=[1.], low=[5], high=[9], mean=60., std=0., config=np.tile(UNIT * 2. ** np.arange(n), (2, 1)))
    ctx.case(scalar=scalar, eff=eff)
    sim = CrestLightingSimulator(hh, data)
    sim.step(np.ones(hh, int), 0.)
    on = bulbs_on(np.asarray(sim.get_power_demand()), n).sum()
    m = scalar * eff * np.log(10)
    p = m * (1 - np.exp(-1 / m))
    ctx.check(binom(on, n * hh, p) > ALPHA, 'uses', lambda: '%d of %d bulbs started, %s expected (scale %s)' % (on, n * hh, p * n * hh, m))
    ctx.event('bulb_uses', on)
    ctx.state(scalar, eff)


@S.scenario(30, 400)
def configurations(ctx):
    """Each household gets one of the configurations, all as likely."""
    k, hh = ctx.randint(1, 8), ctx.randint(300, 900)
    config = UNIT * np.sort(ctx.rng.choice(np.arange(1, 60), (k, 3), replace=False), axis=0)
    data = Light(scalar=.01, effective=[0., 1.], pdf=[1.], low=[5], high=[9], mean=60., std=0., config=config)
    ctx.case(k=k, hh=hh, config=config)
    b = np.asarray(CrestLightingSimulator(hh, data).bulbs_power)
    same = (b[:, None, :] == config[None]).all(2)
    ctx.check(same.any(1).all(), 'configuration')
    ctx.check(gof(same.sum(0), np.full(k, 1. / k)) > ALPHA, 'configuration-share', lambda: str(same.sum(0)))
    ctx.event('configurations', hh)
    ctx.state(k, hh)


@S.scenario(30, 400, weight=2)
def installed(ctx):
    """Randomly installed bulbs."""
    hh = ctx.randint(50, 400)
    k = ctx.randint(1, 5)
    powers = np.sort(ctx.rng.choice(np.arange(300, 10000), k, replace=False)) / 100.
    pen = rand_pdf(ctx.rng, k)
    mean, std = float(ctx.choice([1, 2, ctx.randint(3, 40), ctx.randint(3, 40)])), float(ctx.choice([0, ctx.randint(0, 8), ctx.randint(0, 8)]))
    base = dict(scalar=.01, effective=[0, 1, 1, 1, 1, 1], pdf=[1.], low=[1], high=[2], mean=60., std=float(ctx.choice([0., 10.])))
    data = Light(powers=powers, penetration=pen, n_mean=mean, n_std=std, **base)
    ctx.case(hh=hh, powers=powers, pen=pen, mean=mean, std=std)
    sim = CrestLightingSimulator(hh, data, bulbs_sampling_algo='randn')
    b = np.asarray(sim.bulbs_power)
    num = (b > 0).sum(1)
    ctx.check((num >= 1).all(), 'at-least-one')
    if std == 0:
        ctx.check((num == int(mean)).all(), 'number', lambda: str(num[:9]))
    else:
        lo = max(1., mean - 7 * std - 1)
        ctx.check((num <= mean + 7 * std + 1).all() and (num >= lo).all(), 'number-range', lambda: str((num.min(), num.max())))
        if mean > 4 * std:
            ctx.check(abs(num.mean() - (mean - .5)) < 7 * std / np.sqrt(hh) + .6, 'number-mean', lambda: str(num.mean()))
    got = b[b > 0]
    idx = np.searchsorted(powers, got)
    ctx.check(np.isin(got, powers).all(), 'bulb-powers')
    ctx.check(gof(np.bincount(idx, minlength=k), pen) > ALPHA, 'bulb-shares')
    ctx.event('bulbs_installed', num.sum())
    thr = np.asarray(sim.irradiance_threshold)
    s = base['std']
    ctx.check(thr.shape == (hh,) and (np.abs(thr - 60.) <= 7 * s + 1e-9).all(), 'threshold')
    if s:
        ctx.check(abs(thr.mean() - 60.) < 7 * s / np.sqrt(hh) and .6 < thr.std() / s < 1.5, 'threshold-spread')


@S.scenario(8, 80, weight=4)
def shipped(ctx):
    german = bool(ctx.rng.random() < .5)
    hh = ctx.randint(5, 80)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        data = GermanDataHerus() if german else Crest()
        d = data.load_crest_lighting()
        sim = CrestLightingSimulator(hh, data, bulbs_sampling_algo='randn' if german else 'config')
    ctx.case(german=german, hh=hh)
    tot = np.nansum(np.asarray(sim.bulbs_power, float), axis=1)
    ctx.check((tot > 0).all(), 'some-bulbs')
    occ = ctx.rng.integers(0, 5, hh)
    used = 0.
    for k in range(ctx.randint(200, 600)):
        if ctx.rng.random() < .05:
            occ = ctx.rng.integers(0, 5, hh)
        irr = float(ctx.choice([0., 0., 0., 30., 400.]))
        sim.step(occ, irr)
        p = np.asarray(sim.get_power_demand())
        ctx.finite(p, 'power')
        ctx.check(((p >= 0) & (p <= tot + 1e-9)).all(), 'power-range')
        ctx.check((p[occ == 0] == 0).all(), 'empty-house-lit')
        used += p.sum()
        ctx.event('dark_house', (occ == 0).sum())
    ctx.check(used > 0, 'never-lit')


@S.scenario(15, 60)
def refused(ctx):
    base = dict(scalar=.01, effective=[0, 1, 1], pdf=[1.], low=[1], high=[2], mean=60., std=1., config=np.ones((1, 2)))
    data = Light(**base)
    ctx.case(i=ctx.index)
    ctx.raises(ValueError, lambda: CrestLightingSimulator(2, data, bulbs_sampling_algo='x'), 'bulbs-algo')
    ctx.raises(ValueError, lambda: CrestLightingSimulator(2, data, initialization_method='on'), 'start-method')

    class Poor:
        def load_crest_lighting(self):
            return data.load_crest_lighting()
    ctx.raises(NotImplementedError, lambda: CrestLightingSimulator(2, Poor()), 'no-config')
    ctx.raises(NotImplementedError, lambda: CrestLightingSimulator(2, Poor(), bulbs_sampling_algo='randn'), 'no-stats')
    ctx.event('refused')
