"""P02 calendar callbacks fire exactly once per crossing, on the right side of the step."""
import contextlib
import datetime as dt
import io
import types

import numpy as np

from vlib.core import Spec
from demod.simulators import base_simulators as bs
from demod.simulators.base_simulators import Callbacks, ExampleSimulator, SimLogger, TimeAwareExampleSimulator, TimeAwareSimulator

S = Spec('P02', 'Random starts around day, month, year and leap-day borders and step sizes from seconds to weeks; an event '
         'log of callbacks and steps is checked offline against the calendar; non-trivial = distinct (start, step, decorators).',
         required=['midnight_crossed', 'month_crossed', 'year_crossed', 'four_crossed', 'refresh_hit', 'callback', 'long_step', 'four_landed', 'told'])

DECOS = {
    'before_next_day': Callbacks.before_next_day, 'after_next_day': Callbacks.after_next_day,
    'before_next_day_4am': Callbacks.before_next_day_4am, 'after_next_day_4am': Callbacks.after_next_day_4am,
    'before_refresh_time': Callbacks.before_refresh_time, 'after_refresh_time': Callbacks.after_refresh_time,
}
LEGACY = {'before_next_day': 'before_next_day_callback', 'after_next_day': 'after_next_day_callback',
          'before_next_day_4am': 'before_next_day_callback_4am', 'after_next_day_4am': 'after_next_day_callback_4am'}


def make(decos, log, refresh):
    def step(self, *args, **kwargs):
        log.append(('step', self.current_time))
        TimeAwareSimulator.step(self)
        return ('ret', args, tuple(kwargs.items()))
    for d in decos:
        step = d(step)
    ns = {'step': step, 'data': types.SimpleNamespace(refresh_time=refresh)}
    for name in DECOS:
        def cb(self, name=name):
            log.append((name, self.current_time))
        ns['on_' + name] = cb
    return type('Probe', (TimeAwareSimulator,), ns)


def expected_log(names, start, step, n, refresh):
    """The calendar, written down independently of the decorators."""
    out = []
    t = start
    for _ in range(n):
        nxt = t + step
        newday = nxt.date() != t.date()
        four = (nxt - dt.timedelta(hours=4)).date() != (t - dt.timedelta(hours=4)).date()
        ref = t.time() == refresh
        fire = {'before_next_day': newday, 'after_next_day': newday, 'before_next_day_4am': four,
                'after_next_day_4am': four, 'before_refresh_time': ref, 'after_refresh_time': ref}
        # decorators were applied in the order of names: the last one is outermost
        for nm in reversed(names):
            if nm.startswith('before') and fire[nm]:
                out.append((nm, t))
        out.append(('step', t))
        for nm in names:
            if nm.startswith('after') and fire[nm]:
                out.append((nm, nxt))
        t = nxt
    return out


STEPS = [60, 600, 3600, 30, 300, 900, 1800, 1200, 120, 720]


@S.scenario(320, 5000)
def callbacks(ctx):
    step = dt.timedelta(seconds=ctx.choice(STEPS))
    day = ctx.choice([dt.datetime(2016, 2, 28), dt.datetime(2016, 2, 29), dt.datetime(2015, 2, 28), dt.datetime(2014, 12, 31),
                      dt.datetime(2014, 1, 31), dt.datetime(2014, 4, 30), dt.datetime(2014, 8, 31),
                      dt.datetime(2014, 1, 1) + dt.timedelta(days=ctx.randint(0, 1500))])
    start = day + step * ctx.randint(0, int(dt.timedelta(days=1) / step) - 1)
    if ctx.randint(0, 3) == 0:     # off the grid of the hour
        start += dt.timedelta(seconds=ctx.randint(1, 59))
    refresh = ctx.choice([dt.time(4), dt.time(0), dt.time(3), dt.time(ctx.randint(0, 23), ctx.choice([0, 10, 30]))])
    names = [n for n in DECOS if ctx.randint(0, 2)] or ['before_next_day']
    names = [names[i] for i in ctx.rng.permutation(len(names))]
    legacy = ctx.randint(0, 3) == 0
    decos = [getattr(bs, LEGACY[n], DECOS[n]) if legacy and n in LEGACY else DECOS[n] for n in names]
    n = min(int(dt.timedelta(days=ctx.choice([1, 2, 4])) / step) + ctx.randint(1, 5), 4000)
    ctx.case(start=start, step=step, refresh=refresh, names=names, legacy=legacy, n=n)
    log = []
    sim = make(decos, log, refresh)(1, start_datetime=start, step_size=step)
    sim.initialize_starting_state()
    for k in range(n):
        r = sim.step(k, z=k)
        if k < 3:
            ctx.eq(r == ('ret', (k,), (('z', k),)), True, 'step-arguments-and-result', r)
    want = expected_log(names, start, step, n, refresh)
    for nm in list(DECOS):
        g = [e for e in log if e[0] == nm]
        w = [e for e in want if e[0] == nm]
        if not ctx.check(g == w, 'fires:' + nm, lambda: 'missing %s, extra %s' % (
                [str(e[1]) for e in w if e not in g][:4], [str(e[1]) for e in g if e not in w][:4])):
            return
    ctx.check(log == want, 'order', lambda: [(a, b) for a, b in zip(log, want) if a != b][:2])
    ctx.event('callback', sum(e[0] != 'step' for e in log))
    end = start + n * step
    for _, t in (e for e in log if e[0] == 'step'):
        nxt = t + step
        if nxt.day != t.day:
            ctx.event('midnight_crossed')
            ctx.event('month_crossed', nxt.month != t.month)
            ctx.event('year_crossed', nxt.year != t.year)
        ctx.event('four_crossed', nxt.hour == 4 and t.hour != 4)
        ctx.event('refresh_hit', t.time() == refresh)
    ctx.state(start.month, start.day, step, tuple(names), legacy)


@S.scenario(80, 1000)
def long_steps(ctx):
    """Steps of several hours or days: each new day, and each four o'clock that is landed on."""
    hours = ctx.choice([2, 3, 4, 6, 8, 12, 24, 36, 48, 168])
    step = dt.timedelta(hours=hours)
    start = dt.datetime(2014, 1, 1) + dt.timedelta(days=ctx.randint(0, 1500), hours=ctx.randint(0, 23), minutes=ctx.choice([0, 0, 10, 59]))
    refresh = dt.time(ctx.randint(0, 23), start.minute)
    names = ['before_next_day', 'after_next_day', 'before_refresh_time', 'after_refresh_time']
    if hours <= 12 and start.hour % hours == 4 % hours:
        names += ['before_next_day_4am', 'after_next_day_4am']
        ctx.event('four_landed')
    n = ctx.randint(5, 80)
    ctx.case(start=start, step=step, refresh=refresh, n=n)
    log = []
    sim = make([DECOS[n] for n in names], log, refresh)(1, start_datetime=start, step_size=step)
    sim.initialize_starting_state()
    for _ in range(n):
        sim.step()
    want = expected_log(names, start, step, n, refresh)
    for nm in names:
        g, w = ([e for e in x if e[0] == nm] for x in (log, want))
        ctx.check(g == w, 'fires:' + nm, lambda: 'missing %s, extra %s' % ([str(e[1]) for e in w if e not in g][:4], [str(e[1]) for e in g if e not in w][:4]))
    ctx.check(log == want, 'order', lambda: [(a, b) for a, b in zip(log, want) if a != b][:2])
    ctx.event('callback', sum(e[0] != 'step' for e in log))
    ctx.event('long_step', n)
    ctx.state(start, step)


@S.scenario(60, 600)
def through_warm_up(ctx):
    """Crossings during warm-up count like the others."""
    step = dt.timedelta(seconds=ctx.choice([60, 600, 1800, 3600]))
    start = dt.datetime(2014, 1, 1) + dt.timedelta(days=ctx.randint(0, 800)) + step * ctx.randint(0, int(86400 / step.total_seconds()) - 1)
    warm = dt.time(ctx.randint(0, 23))
    names = ['before_next_day', 'after_next_day', 'before_next_day_4am', 'after_next_day_4am']
    ctx.case(start=start, step=step, warm=warm)
    log = []
    sim = make([DECOS[n] for n in names], log, dt.time(4))(1, start_datetime=start, step_size=step)
    sim.initialize_starting_state(initialization_time=warm)
    for _ in range(30):
        sim.step()
    origin = start.replace(hour=warm.hour, minute=0, second=0)
    if origin > start:
        origin -= dt.timedelta(days=1)
    k = (start - origin) // step
    want = expected_log(names, start - k * step, step, k + 30, dt.time(4))
    ctx.check(log == want, 'warmup-log', lambda: [(a, b) for a, b in zip(log, want) if a != b][:2])
    ctx.event('callback', sum(e[0] != 'step' for e in log))


@S.scenario(25, 300)
def tutorial_simulators(ctx):
    """The simulators of the tutorial: occupants come and leave, and the empty homes are told once before each 4 am."""
    n, res = ctx.many(5), ctx.randint(1, 6)
    start = dt.datetime(2014, ctx.randint(1, 12), ctx.randint(1, 28), ctx.choice([3, 4, 4, 12, 23]), ctx.choice([0, 50, 59]))
    size = dt.timedelta(minutes=ctx.choice([1, 10, 30, 60]))
    steps = ctx.randint(1, 200)
    algo = ctx.choice(['default', 'all_inside_at_4am', 'random'])
    ctx.case(n=n, res=res, start=str(start), size=str(size), steps=steps, algo=algo)
    log = SimLogger('occupants', aggregated=False)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sim = TimeAwareExampleSimulator(n, res, start_datetime=start, step_size=size, logger=log,
                                        **({} if algo == 'default' else {'initialization_algo': algo}))
    told = out.getvalue()
    plain = ExampleSimulator(n, res, logger=log)
    if not ctx.check(np.shape(sim.occupants) == np.shape(plain.occupants) == (n,), 'example-start',
                     lambda: (sim.occupants, plain.occupants)):
        return
    ctx.check(((plain.occupants >= 0) & (plain.occupants < max(res, 1))).all(), 'example-start', lambda: plain.occupants)
    if algo == 'random':
        ctx.check(((sim.occupants >= 0) & (sim.occupants < res)).all(), 'example-start', lambda: sim.occupants)
    else:
        ctx.eq(np.asarray(sim.occupants, float), np.full(n, float(res)), 'all-inside')
    ctx.eq(told, '', 'nothing-told-before-the-start')
    now, at, occ, occ2, rows, rows2 = start, start, np.array(sim.occupants, float), np.array(plain.occupants), [], []
    for _ in range(steps):
        rows.append(occ.copy()), rows2.append(occ2.copy())
        come, go = ctx.rng.integers(0, 3, n), ctx.rng.integers(0, 3, n)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            sim.step(come, go)
            plain.step(come, go)
        want = ''
        if at.hour != 4 and (at + size).hour == 4:
            want = 'There is {} percent of the households that are empty\n'.format(np.mean(occ == 0) * 100)
            ctx.event('told')
        ctx.eq(out.getvalue(), want, 'told', str(at))
        occ, occ2, at = occ + come - go, occ2 + come - go, at + size
        ctx.eq(np.asarray(sim.occupants, float), occ, 'occupants', str(at))
        ctx.eq(plain.occupants, occ2, 'occupants', str(at))
        ctx.eq(sim.current_time, at, 'clock')
    ctx.eq(np.asarray(sim.logger.get('occupants'), float), np.array(rows), 'logged')
    ctx.eq(plain.logger.get('occupants'), np.array(rows2), 'logged')
    ctx.raises(NotImplementedError, lambda: TimeAwareExampleSimulator(n, res, initialization_algo='other'), 'algorithm')
    base = TimeAwareSimulator(n)
    for name in ('on_before_next_day', 'on_after_next_day', 'on_before_next_day_4am', 'on_after_next_day_4am',
                 'on_before_refresh_time', 'on_after_refresh_time'):
        ctx.raises(NotImplementedError, getattr(base, name), 'unwritten-callback')
