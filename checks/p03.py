"""P03 the logger returns exactly what the simulator exposed at each logged step."""
import datetime as dt

import numpy as np

from vlib.core import Spec
from demod.simulators.base_simulators import Simulator, TimeAwareSimulator, SimLogger, cached_getter

S = Spec('P03', 'Random attribute lists, aggregation flags, value kinds (scalars, per-household vectors, matrices, '
         'dictionaries, in-place mutated buffers), warm-ups, clears and shared loggers; non-trivial = distinct configuration.',
         required=['record', 'dict_record', 'cleared', 'shared_logger', 'merged_after_clear', 'used_template',
                   'long_record', 'wide_record', 'single'])


class Source(TimeAwareSimulator):
    """A simulator whose getters are pure functions of its state; keeps its own history."""

    def __init__(self, n, seed, warm, **kw):
        super().__init__(n, **kw)
        self.rs = np.random.RandomState(seed)
        self.history = []
        self._draw()
        self.initialize_starting_state(initialization_time=warm)
        self.history = [self.snapshot()]

    def _draw(self):
        if not hasattr(self, 'buffer'):
            self.buffer = np.empty(self.n_households)
            self.matrix = np.empty((self.n_households, 3))
            self.ints = np.empty(self.n_households, dtype=int)
            self.dico = {'a': np.empty(self.n_households), 'b': np.empty(self.n_households, dtype=int)}
        self.buffer[:] = self.rs.normal(size=self.n_households) * 1e3
        self.matrix[:] = self.rs.uniform(size=(self.n_households, 3))
        self.ints[:] = self.rs.randint(0, 100, self.n_households)
        self.dico['a'][:] = self.rs.uniform(size=self.n_households)
        self.dico['b'][:] = self.rs.randint(-5, 5, self.n_households)
        self.number = float(self.rs.uniform())
        # values whose type differs between the steps
        kind = [bool, np.int8, int, np.float32, float][self.rs.randint(5)]
        self.mixed = (self.rs.normal(size=self.n_households) * 90).astype(kind)
        self.label = ['off', 'heating', 'a'][self.rs.randint(3)]
        self.typed = {'c': int(self.rs.randint(9)) if self.rs.rand() < .5 else float(self.rs.uniform()),
                      'd': self.mixed.astype([int, float][self.rs.randint(2)])}
        if self.rs.rand() < .3:     # the order of the keys means nothing
            self.typed = dict(reversed(self.typed.items()))
            self.dico = dict(reversed(self.dico.items()))
        if self.rs.rand() < .1:
            # undefined and infinite values are values
            self.buffer[self.rs.randint(self.n_households)] = self.rs.choice([np.nan, np.inf])
            self.dico['a'][self.rs.randint(self.n_households)] = np.nan

    def snapshot(self):
        return dict(get_buffer=self.buffer.copy(), get_cached=self.buffer.copy() * 2, get_matrix=self.matrix.copy(),
                    get_ints=self.ints.copy(), get_number=self.number, number=self.number, ints=self.ints.copy(),
                    get_dict={k: v.copy() for k, v in self.dico.items()}, current_time=self.current_time,
                    current_time_step=self.current_time_step, mixed=self.mixed.copy(), label=self.label,
                    get_typed={k: np.array(v) for k, v in self.typed.items()})

    def get_buffer(self):
        return self.buffer

    @ cached_getter
    def get_cached(self):
        return self.buffer * 2

    def get_matrix(self):
        return self.matrix

    def get_ints(self):
        return self.ints

    def get_number(self):
        return self.number

    def get_dict(self):
        return self.dico

    def get_typed(self):
        return self.typed

    get_number_, get_ints_ = get_number, get_ints

    def step(self):
        self._draw()
        super().step()
        self.history.append(self.snapshot())


ATTRS = ['get_buffer', 'get_cached', 'get_matrix', 'get_ints', 'get_number', 'number', 'ints', 'get_dict',
         'current_time', 'current_time_step', 'mixed', 'label', 'get_typed']


def agg(v):
    return {k: np.sum(x) for k, x in v.items()} if isinstance(v, dict) else np.sum(v)


def compare(ctx, logger, attr, flag, history, key):
    """Every step but the last record is what the simulator exposed."""
    got = logger.get(attr)
    rows = history[:-1]
    if attr == 'current_time':
        return ctx.check(list(got) == [h[attr] for h in rows], key + ':current_time',
                         lambda: (list(got)[:3], [h[attr] for h in rows][:3], len(got), len(rows)))
    if attr in ('get_dict', 'get_typed'):
        keys = 'ab' if attr == 'get_dict' else 'cd'
        ctx.event('dict_record', len(rows))
        if not ctx.check(isinstance(got, dict) and set(got) == set(keys), key + ':dict-keys', lambda: got):
            return
        for k in keys:
            want = [(agg(h[attr]) if flag else h[attr])[k] for h in rows]
            ctx.close(got[k], np.array(want).reshape((len(rows),) + np.shape(want[0]) if rows else got[k].shape), key + ':dict', k, rtol=1e-11, atol=1e-10)
        return
    want = [agg(h[attr]) if flag else h[attr] for h in rows]
    ctx.event('record', len(rows))
    if rows:
        (ctx.close if flag else ctx.eq)(got, np.array(want), key + ':' + ('agg' if flag else 'raw'), attr)
    else:
        ctx.eq(len(got), 0, key + ':empty', attr)


def setup(ctx):
    attrs = [a for a in ATTRS if ctx.randint(0, 1)] or ['get_buffer']
    attrs = [attrs[i] for i in ctx.rng.permutation(len(attrs))][:1 if ctx.rng.random() < .2 else None]
    form = ctx.choice(['list', 'args', 'boollist', 'default'])
    if 'label' in attrs:       # cannot be added
        form = 'boollist'
    if form == 'boollist':
        flags = [False if a in ('current_time', 'label') else bool(ctx.randint(0, 1)) for a in attrs]
        logger = SimLogger(list(attrs), aggregated=list(flags))
    else:
        f = bool(ctx.randint(0, 1))
        if form == 'list':
            logger = SimLogger(list(attrs), aggregated=f)
        elif form == 'args':
            logger = SimLogger(*attrs, aggregated=f)
        else:
            f, logger = True, SimLogger(*attrs)
        flags = [False if a == 'current_time' else f for a in attrs]
    return attrs, flags, logger, form


START = dt.datetime(2014, 3, 30, 5, 13)


@S.scenario(260, 4000)
def fidelity(ctx):
    attrs, flags, logger, form = setup(ctx)
    n, h = ctx.randint(1, 5), ctx.randint(0, 50)
    if ctx.index % 50 == 7:         # weeks of minutes
        h = ctx.randint(2000, 12000)
        ctx.event('long_record', h)
    elif ctx.index % 50 == 9:
        n = ctx.randint(260, 3000)
        ctx.event('wide_record', n)
    warm = ctx.choice([None, dt.time(4), START - dt.timedelta(minutes=ctx.randint(0, 60))])
    ctx.case(attrs=attrs, flags=flags, form=form, n=n, horizon=h, warm=str(warm), seed=ctx.randint(0, 9**9))
    sim = Source(n, ctx.randint(0, 2**31), warm, start_datetime=START, logger=logger)
    for k in range(h):
        if ctx.randint(0, 5) == 0:
            sim.get_cached(), sim.get_cached(0)
        sim.step()
    for a, f in zip(attrs, flags):
        compare(ctx, sim.logger, a, f, sim.history, 'log')
    for a in ATTRS:
        if a not in attrs:
            ctx.raises(ValueError, lambda: sim.logger.get(a), 'unknown-attribute')
    if len(attrs) == 1:
        if attrs[0] not in ('get_dict', 'get_typed', 'current_time'):
            ctx.eq(sim.logger.get(), sim.logger.get(attrs[0]), 'single-attribute-get')
            ctx.event('single')
    else:
        ctx.raises(ValueError, lambda: sim.logger.get(), 'ambiguous-get')
    # the values handed out do not alias the log
    for a in attrs:
        got = sim.logger.get(a)
        if isinstance(got, np.ndarray) and got.dtype.kind == 'f' and got.size:
            keep = got.copy()
            sim.step()
            ctx.eq(got, keep, 'no-alias')
            again = sim.logger.get(a)
            ctx.eq(again[:len(keep)], keep, 'prefix-stable')
            break
    ctx.state(tuple(attrs), tuple(flags), h > 0)


@S.scenario(120, 1500)
def cleared(ctx):
    attrs, flags, logger, form = setup(ctx)
    h1, h2 = ctx.randint(1, 15), ctx.randint(1, 15)
    how = ctx.choice(['all', 'list'])
    ctx.case(attrs=attrs, flags=flags, h1=h1, h2=h2, how=how, seed=ctx.randint(0, 9**9))
    sim = Source(3, ctx.randint(0, 2**31), None, start_datetime=START, logger=logger)
    for _ in range(h1):
        sim.step()
    sim.logger.clear() if how == 'all' else sim.logger.clear(list(attrs))
    ctx.event('cleared')
    sim.history.clear()
    for _ in range(h2):
        sim.step()
    for a, f in zip(attrs, flags):
        compare(ctx, sim.logger, a, f, sim.history, 'after-clear')
    # as many records as a new logger: they can be merged
    other = Source(3, 5, None, start_datetime=START, logger=SimLogger('get_number_', 'get_ints_') if ctx.randint(0, 1) else SimLogger('get_number_'))
    for _ in range(h2 - 1):
        other.step()
    whole = sim.logger.copy() + other.logger.copy()
    ctx.eq(sorted(whole.attributes_list), sorted(list(attrs) + other.logger.attributes_list), 'copies-merged')
    joined = other.logger + sim.logger
    for a, f in zip(attrs, flags):
        compare(ctx, joined, a, f, sim.history, 'clear-merged')
    ctx.event('merged_after_clear')
    ctx.raises(ValueError, lambda: sim.logger.clear('nope'), 'clear-unknown')
    # selective clear keeps the other attributes
    if len(attrs) > 1:
        keep = [a for a in attrs[1:]]
        before = {a: sim.logger.get(a) for a in keep}
        sim.logger.clear(attrs[0])
        for a in keep:
            now = sim.logger.get(a)
            if isinstance(now, dict):
                ctx.check(all(np.array_equal(now[k], before[a][k], equal_nan=np.asarray(now[k]).dtype.kind == 'f') for k in before[a]), 'selective-clear')
            else:
                ctx.eq(list(now), list(before[a]), 'selective-clear') if a == 'current_time' else ctx.eq(now, before[a], 'selective-clear')


@S.scenario(80, 1000)
def shared(ctx):
    """One logger given to two simulators serves as template: neither sees the other's data."""
    attrs, flags, logger, form = setup(ctx)
    h1, h2 = ctx.randint(1, 15), ctx.randint(1, 15)
    ctx.case(attrs=attrs, flags=flags, h1=h1, h2=h2, seed=ctx.randint(0, 9**9))
    a = Source(2, ctx.randint(0, 2**31), None, start_datetime=START, logger=logger)
    b = Source(4, ctx.randint(0, 2**31), dt.time(5), start_datetime=START, logger=logger)
    seq = ['a'] * h1 + ['b'] * h2
    for i in ctx.rng.permutation(len(seq)):
        (a if seq[i] == 'a' else b).step()
    ctx.event('shared_logger')
    for sim in (a, b):
        for at, f in zip(attrs, flags):
            compare(ctx, sim.logger, at, f, sim.history, 'shared')
    for at in attrs:
        ctx.eq(len(logger.get(at)), 0, 'template-untouched')
    # merging two logs of equal length keeps both contents
    o1, o2 = SimLogger('get_buffer', aggregated=False), SimLogger('get_ints', aggregated=True)
    s1 = Source(2, 1, None, start_datetime=START, logger=o1)
    s2 = Source(2, 2, None, start_datetime=START, logger=o2)
    for _ in range(h1):
        s1.step(), s2.step()
    merged = s1.logger + s2.logger
    compare(ctx, merged, 'get_buffer', False, s1.history, 'merged')
    compare(ctx, merged, 'get_ints', True, s2.history, 'merged')
    # a used logger serves as template too, without what it holds
    s4 = Source(3, 4, None, start_datetime=START, logger=merged)
    s5 = Source(3, 5, None, start_datetime=START, logger=SimLogger('get_matrix', aggregated=False))
    for _ in range(h2):
        s4.step(), s5.step()
    compare(ctx, s4.logger, 'get_buffer', False, s4.history, 'used-template')
    compare(ctx, s4.logger, 'get_ints', True, s4.history, 'used-template')
    both = s4.logger + s5.logger
    compare(ctx, both, 'get_matrix', False, s5.history, 'used-template')
    ctx.eq(merged.get('get_buffer').shape[0], h1, 'template-untouched')
    ctx.event('used_template')
    s2.step()
    s3 = Source(2, 3, None, start_datetime=START, logger=SimLogger('get_number'))
    ctx.raises(ValueError, lambda: s2.logger + s3.logger, 'merge-length')
    ctx.raises(TypeError, lambda: s2.logger + 3, 'merge-type')


@S.scenario(10, 50)
def rejected(ctx):
    ctx.case(i=ctx.index)
    ctx.raises(TypeError, lambda: SimLogger(ctx.choice([3, None, {'a': 1}])), 'attributes-type')
    ctx.raises(TypeError, lambda: SimLogger('a', aggregated=ctx.choice([1, 'yes', None])), 'aggregated-type')
    ctx.raises(ValueError, lambda: SimLogger('a', 'b', aggregated=[True]), 'aggregated-length')
    src = ['get_buffer', 'get_ints']
    lg = SimLogger(src, aggregated=False)
    src.append('nope')
    sim = Source(2, 3, None, start_datetime=START, logger=lg)
    sim.step()
    ctx.raises(ValueError, lambda: sim.logger.get('nope'), 'attribute-list-copied')
