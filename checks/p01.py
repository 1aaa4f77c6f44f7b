"""P01 clock and warm-up of time-aware simulators."""
import datetime as dt

import numpy as np

from vlib.core import Spec
from demod.simulators.base_simulators import Simulator, TimeAwareSimulator, SimLogger

S = Spec('P01', 'Random start instants (month/year/leap borders, time zones), step sizes from 1 us to days, '
         'warm-up given as time of day, instant or nothing; non-trivial = a distinct (start, step, warm-up, horizon).',
         required=['clock_tick', 'warmup_step', 'rejected_input'],
         assumptions=['a subclass of the public base class stands for every time-aware simulator'])


class Probe(TimeAwareSimulator):
    """Records what the base class shows a simulator during its steps."""

    def __init__(self, n, trace, warm, init_steps_arg=None, **kw):
        super().__init__(n, **kw)
        self.trace = trace
        self.args_seen = []
        a, k = ((7,), {'extra': 9}) if init_steps_arg else ((), {})
        self.initialize_starting_state(*a, initialization_time=warm, **k)

    def step(self, *args, **kwargs):
        self.args_seen.append((args, tuple(sorted(kwargs.items()))))
        self.trace.append((self.current_time, self.current_time_step))
        super().step()

    def get_clock(self):
        return np.array([self.current_time_step])


STEPS = [dt.timedelta(minutes=1), dt.timedelta(minutes=10), dt.timedelta(hours=1), dt.timedelta(seconds=1),
         dt.timedelta(minutes=7), dt.timedelta(seconds=17, microseconds=3), dt.timedelta(minutes=45),
         dt.timedelta(days=1), dt.timedelta(hours=5), dt.timedelta(minutes=15), dt.timedelta(seconds=30),
         dt.timedelta(minutes=3), dt.timedelta(hours=26)]
TZ = [None, None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=5, minutes=30))]


def instant(ctx):
    base = ctx.choice([dt.datetime(2016, 2, 28), dt.datetime(2016, 2, 29), dt.datetime(2015, 12, 31),
                       dt.datetime(2016, 1, 1), dt.datetime(2014, 4, 30), dt.datetime(2014, 5, 1),
                       dt.datetime(2013, 2, 28), dt.datetime(2013, 3, 1),
                       dt.datetime(2000, 1, 1) + dt.timedelta(days=ctx.randint(0, 15000))])
    t = base + dt.timedelta(seconds=ctx.randint(0, 86399))
    k = ctx.randint(0, 3)
    if k == 0:
        t = t.replace(minute=0, second=0)
    elif k == 1:
        t = t.replace(second=0)
    elif k == 2:
        t = t.replace(microsecond=ctx.randint(0, 999999))
    return t.replace(tzinfo=ctx.choice(TZ))


@S.scenario(400, 8000)
def warm_up(ctx):
    start, step = instant(ctx), ctx.choice(STEPS)
    kind = ctx.choice(['time', 'time', 'datetime', 'none', 'same'])
    if kind == 'time':
        edge = start - step * ctx.randint(0, 20) + dt.timedelta(microseconds=ctx.randint(-3, 3))      # just reached, or just not
        warm = ctx.choice([dt.time(4), dt.time(0), start.time(), edge.time(), edge.time(), dt.time(23, 59, 59),
                           dt.time(ctx.randint(0, 23), ctx.randint(0, 59), ctx.randint(0, 59), ctx.randint(0, 999999))])
        origin = start.replace(hour=warm.hour, minute=warm.minute, second=warm.second, microsecond=warm.microsecond)
        if origin > start:
            origin -= dt.timedelta(days=1)
    elif kind == 'datetime':
        warm = origin = start - step * ctx.randint(0, 30) - dt.timedelta(seconds=ctx.randint(0, 200))
    elif kind == 'same':
        warm = origin = start
    else:
        warm, origin = None, start
    horizon = ctx.randint(0, 60)
    if (start - origin) / step > 3000:
        step = dt.timedelta(minutes=10)
    ctx.case(start=start, step=step, warm=str(warm), horizon=horizon)
    withargs = bool(ctx.randint(0, 1))
    trace = []
    sim = Probe(ctx.randint(1, 4), trace, warm, withargs, start_datetime=start, step_size=step,
                logger=SimLogger('current_time', 'get_clock', aggregated=False) if ctx.randint(0, 1) else None)
    expected = (start - origin) // step
    ctx.eq(sim.current_time, start, 'start-reached', 'time after warm-up')
    ctx.eq(sim.current_time_step, expected, 'warmup-count', 'steps counted by the warm-up')
    ctx.eq(len(trace), expected, 'warmup-steps', 'steps run by the warm-up')
    ctx.event('warmup_step', len(trace))
    first = start - expected * step
    ctx.check(origin <= first < origin + step, 'warmup-origin', lambda: (first, origin))
    for k, (t, n) in enumerate(trace):
        if not ctx.check(t == first + k * step and n == k, 'warmup-tick', lambda: (k, t, n, first + k * step)):
            break
    ctx.check(all(a == (((7,), (('extra', 9),)) if withargs else ((), ())) for a in sim.args_seen), 'warmup-args',
              lambda: sim.args_seen[:3])
    for k in range(horizon):
        sim.step()
        ctx.event('clock_tick')
        if not ctx.check(sim.current_time == start + (k + 1) * step, 'tick-time',
                         lambda: (k, sim.current_time, start, step)):
            break
        ctx.eq(sim.current_time_step, expected + k + 1, 'tick-count')
    ctx.eq(sim.current_time.tzinfo is None, start.tzinfo is None, 'timezone-kept')
    if sim.logger is not None:
        ctx.eq(list(sim.logger.get('current_time')), [start + k * step for k in range(horizon)], 'logged-times')
    ctx.state(kind, expected, horizon, step)


class Plain(Simulator):
    def __init__(self, n, k=0, **kw):
        super().__init__(n, **kw)
        self.ran = []
        self.initialize_starting_state(k, 'x', y=3)

    def step(self, *a, **k):
        self.ran.append((a, tuple(k.items())))
        super().step()


@S.scenario(60, 600)
def plain_counter(ctx):
    n, k, h = ctx.many(6), ctx.randint(0, 40), ctx.randint(0, 40)
    if ctx.index % 20 == 3:     # months of minutes
        k, h = ctx.choice([(k, 70000), (70000, h)])
        ctx.event('long_run')
    ctx.case(n=n, warm=k, horizon=h)
    sim = Plain(n, k)
    ctx.eq(sim.n_households, n, 'households')
    ctx.eq(sim.current_time_step, k, 'warmup-count')
    ctx.eq(len(sim.ran), k, 'warmup-steps')
    ctx.check(all(r == (('x',), (('y', 3),)) for r in sim.ran), 'warmup-args')
    for _ in range(h):
        sim.step('x', y=3)
        ctx.event('clock_tick')
    ctx.eq(sim.current_time_step, k + h, 'tick-count')


@S.scenario(40, 400)
def rejected(ctx):
    start, step = instant(ctx), ctx.choice(STEPS)
    ctx.case(start=start, step=step)
    mk = lambda **kw: Probe(kw.pop('n', 2), [], kw.pop('warm', None), **{**dict(start_datetime=start, step_size=step), **kw})
    ctx.raises(ValueError, lambda: mk(warm=start + dt.timedelta(microseconds=ctx.randint(1, 10**9))), 'future-warmup')
    ctx.raises(NotImplementedError, lambda: mk(warm=ctx.choice([3, '04:00', 2.5])), 'warmup-type')
    ctx.raises(TypeError, lambda: mk(start_datetime=ctx.choice([start.date(), 5, '2014'])), 'start-type')
    ctx.raises(TypeError, lambda: mk(step_size=ctx.choice([60, 1., '1min'])), 'step-type')
    ctx.raises(ValueError, lambda: mk(n=ctx.choice([0, -1, -7])), 'households-positive')
    ctx.raises(TypeError, lambda: mk(n=ctx.choice(['a', [1, 2], None])), 'households-type')
    ctx.raises(ValueError, lambda: Plain(2, -ctx.randint(1, 9)), 'warmup-negative')
    ctx.raises(TypeError, lambda: Plain(2, ctx.choice([1.5, '3', 2.0])), 'warmup-step-type')
    ctx.raises(TypeError, lambda: mk(logger='get_x'), 'logger-type')
    ctx.event('rejected_input', 9)
