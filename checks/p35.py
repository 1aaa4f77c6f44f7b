"""P35 figures show exactly the data they are given."""
import datetime as dt
import io
from contextlib import redirect_stdout

import matplotlib
matplotlib.use('Agg')
import matplotlib.dates as mdates
import matplotlib.pyplot as plt
from matplotlib.colors import to_hex
from matplotlib.markers import MarkerStyle
import numpy as np

from vlib.core import Spec
from demod.simulators.base_simulators import TimeAwareSimulator, SimLogger
from demod.simulators.crest_simulators import Crest4StatesModel
from demod.utils import plotters

plt.close(plt.figure())     # loads the backend

S = Spec('P35', 'Random activities, appliances, states and recorded series, given axes and default axes, times and step numbers; every drawn marker, '
         'layer and line is read back from the figure and compared with the data; non-trivial = distinct configuration.',
         required=['marker', 'layer', 'state_layer', 'line', 'column_line', 'shown', 'given_ax', 'legend', 'single_attribute', 'dictionary', 'real_simulator'])


class Shown:
    """Stands in for plt.show: keeps what was on the current figure when it was shown."""

    def __enter__(self):
        plt.close('all')
        self.figs = []
        self.old = plt.show
        plt.show = self.show
        return self

    def show(self, *a, **k):
        self.figs += [plt.figure(n) for n in plt.get_fignums()]
        fig = plt.gcf()
        self.last = fig
        for n in plt.get_fignums():
            plt.close(n)

    def __exit__(self, *a):
        plt.show = self.old
        self.left = list(plt.get_fignums())
        plt.close('all')


def draw(ctx, fn, *args, own=None, **kw):
    """Axes drawn by a plotting function, on a given or on its own figure."""
    own = ctx.rng.random() < .4 if own is None else own
    with Shown() as s:
        if own:
            other = plt.figure()
            ax = other.add_subplot(1, 2, 1)
            beside = other.add_subplot(1, 2, 2)
            res = fn(*args, ax=ax, **kw)
            ctx.eq(res, None, 'given-ax-returns')
            ctx.eq(len(s.figs), 0, 'given-ax-not-shown')
            ctx.eq(len(beside.collections) + len(beside.lines), 0, 'given-ax-only')
            ctx.event('given_ax')
        else:
            res = fn(*args, **kw)
            if res is not None:
                fig, ax = res
                ctx.check(ax in fig.axes, 'returned-axes')
            else:
                ctx.eq(len(s.figs), 1, 'shown-once')
                ctx.eq(len(s.figs[0].axes), 1, 'one-axes') if s.figs else None
                ax = s.figs[0].axes[0]
                ctx.event('shown')
    return ax


def axis_times(ctx, n):
    """A time axis to give (or None) and the x positions it stands for."""
    kind = ctx.randint(0, 3)
    if kind == 0:
        return None, np.arange(n, dtype=float)
    if kind == 1:
        x = np.cumsum(ctx.rng.uniform(.1, 3, n)) - 5
        return x, x
    step = dt.timedelta(minutes=ctx.choice([1, 10, 15, 60]))
    start = dt.datetime(2015, 1, 1) + dt.timedelta(minutes=ctx.randint(0, 10 ** 6))
    t = np.array([start + i * step for i in range(n)])
    return t if kind == 2 else t.astype('datetime64[s]'), mdates.date2num(t)


def layer(poly, x):
    """Lower and upper bound of a stacked layer at x, from its drawn outline."""
    ys = []
    for path in poly.get_paths():
        v = path.vertices
        v = np.concatenate([v, v[:1]])
        a, b = v[:-1], v[1:]
        for (x0, y0), (x1, y1) in zip(a, b):
            if (x0 - x) * (x1 - x) < 0:
                ys.append(y0 + (y1 - y0) * (x - x0) / (x1 - x0))
    return (min(ys), max(ys)) if ys else None


def judge_layers(ctx, ax, labels, series, xs, step, key):
    """Layers in the given order, each as high as its series, stacked without gap."""
    ctx.eq([c.get_label() for c in ax.collections], [str(l) for l in labels], key + '-labels')
    legend = ax.get_legend()
    ctx.check(legend is not None, key + '-legend')
    if legend is not None:
        ctx.eq([t.get_text() for t in legend.get_texts()], [str(l) for l in labels][::-1], key + '-legend-order')
        # the colour of the legend is the colour of the layer
        hand = [to_hex(h.get_facecolor()) for h in legend.get_patches()]
        ctx.eq(hand, [to_hex(c.get_facecolor()[0]) for c in ax.collections][::-1], key + '-legend-colours')
        ctx.event('legend')
    if len(xs) < 2:
        return
    for i in sorted(set(ctx.rng.integers(0, len(xs) - 1, 12).tolist())):
        for part in (.21, .83):
            x = xs[i] + part * (xs[i + 1] - xs[i])
            base = 0.
            for c, ser in zip(ax.collections, series):
                a, b = float(ser[i]), float(ser[i + 1])
                want = {'post': a, 'pre': b, 'mid': a if part < .5 else b, None: a + part * (b - a)}[step]
                got = layer(c, x)
                ctx.check(got is not None, key + '-missing')
                if got is None:
                    return
                ctx.close(got, (base, base + want), key + '-height', 'step %d' % i, rtol=1e-6, atol=1e-6 + 1e-7 * abs(base))
                base += want
                ctx.event('layer')


@S.scenario(60, 1500)
def household(ctx):
    """Every marker of a household's day stands for residents doing that activity."""
    r = ctx.rng
    n = int(r.choice([1, 2, 7, 40, 144]))
    names = ['cooking', 'laundry', 'watching_tv', 'ironing', 'dish_washing', 'active_occupancy', 'away', 'sleeping', 'level']
    r.shuffle(names)
    names = names[:ctx.randint(1, 9)]
    colours = ctx.choice(['default', 'default', 'own', None])
    most = {'default': 5, 'own': 9, None: 9}[colours]
    most = ctx.randint(1, most)
    data = {k: np.where(r.random(n) < r.random(), r.integers(0, most + 1, n), 0) for k in names}
    given, xs = axis_times(ctx, n)
    kw = {} if given is None else {'time_axis': given}
    palette = ['#d7191c', '#fdae61', '#ffffbf', '#abdda4', '#2b83ba']
    if colours == 'own':
        palette = ['#%06x' % v for v in r.integers(0, 1 << 24, 9)]
        kw['colors'] = np.array(palette)
    elif colours is None:
        kw['colors'] = None
    main = r.random() < .7
    if not main or r.random() < .3:
        kw['main_states_on_top'] = bool(main)
    if r.random() < .3:
        kw['marker'] = 'o'
    if r.random() < .3:
        kw['s'] = 3
    ctx.case(n=n, names=names, colours=str(colours), main=bool(main))
    kept = {k: v.copy() for k, v in data.items()}
    ax = draw(ctx, plotters.plot_household_activities, data, **kw)
    ctx.eq(list(data), list(kept), 'inputs-unchanged')
    order = [k for k in names if k not in plotters.MAIN_ACTIVITIES] + [k for k in names if k in plotters.MAIN_ACTIVITIES] if main else names
    ctx.close(ax.get_yticks(), np.arange(len(names)), 'rows')
    ctx.eq([t.get_text() for t in ax.get_yticklabels()], order, 'row-labels')
    got = {}
    style = MarkerStyle(kw.get('marker', '>'))
    shape = style.get_path().transformed(style.get_transform()).vertices
    for c in ax.collections:
        ctx.close(c.get_paths()[0].vertices, shape, 'marker-shape')
        off = np.asarray(c.get_offsets(), float).reshape(-1, 2)
        arr = c.get_array()
        face = c.get_facecolors()
        for j, (x, y) in enumerate(off):
            what = int(arr[j]) if arr is not None else to_hex(face[j if len(face) > 1 else 0])
            got.setdefault((round(float(y)), int(np.argmin(np.abs(xs - x)))), []).append((what, abs(float(np.min(np.abs(xs - x))))))
    want = {}
    for row, k in enumerate(order):
        for t in np.nonzero(kept[k] > 0)[0]:
            v = int(kept[k][t])
            want[row, int(t)] = v if colours is None else palette[v - 1]
    ctx.eq(sorted(got), sorted(want), 'markers')
    for at, what in want.items():
        if at in got:
            ctx.eq([w for w, _ in got[at]], [what], 'marker-colour', str(at))
            ctx.check(got[at][0][1] < 1e-6, 'marker-time', str(at))
            ctx.event('marker')
    if colours is not None:
        legend = ax.get_legend()
        ctx.check(legend is not None, 'legend-missing')
        if legend is None:
            return
        top = max([1] + [int(v.max()) for v in kept.values()])
        ctx.eq([t.get_text() for t in legend.get_texts()], [str(i) for i in range(1, top + 1)], 'legend')
        ctx.eq([to_hex(p.get_facecolor()) for p in legend.get_patches()], palette[:top], 'legend-colours')
        ctx.event('legend')
    ctx.state('household', n, len(names), colours, main)


@S.scenario(60, 1500)
def appliances(ctx):
    """Consumption layers sum the appliances of each kind."""
    r = ctx.rng
    n, k = int(r.choice([2, 5, 60])), ctx.randint(1, 12)
    kinds = ['kettle', 'oven', 'tv', 'dishwasher', 'lamp']
    factor = ctx.choice(['type', 'type', 'name', 'related_activity'])
    cons = np.round(r.uniform(0, 3000, (n, k)) * (r.random((n, k)) < .6), 3)
    if r.random() < .3:
        cons = cons.astype(int)
    dico = {'type': r.choice(kinds, k), 'name': np.array(['app_%d' % i for i in range(k)]), 'related_activity': r.choice(['cooking', 'level', 'laundry'], k),
            'number': k}
    given, xs = axis_times(ctx, n)
    kw = {} if given is None else {'time_axis': given}
    if factor != 'type' or r.random() < .3:
        kw['differentiative_factor'] = factor
    labels = sorted(set(dico[factor].tolist()))
    if r.random() < .5:
        r.shuffle(labels)
        labels = labels[:ctx.randint(1, len(labels))] + ([] if r.random() < .7 else ['not_there'])
        kw['labels_list'] = labels
    ctx.case(n=n, appliances=k, factor=factor, labels=labels)
    kept = cons.copy()
    ax = draw(ctx, plotters.plot_appliance_consumptions, cons, dico, **kw)
    ctx.eq(cons, kept, 'inputs-unchanged')
    series = [[sum(kept[t, i] for i in range(k) if dico[factor][i] == l) for t in range(n)] for l in labels]
    judge_layers(ctx, ax, labels, series, xs, 'post', 'consumption')
    ctx.state('appliances', n, k, factor, len(labels))


@S.scenario(60, 1500)
def stacks(ctx):
    """Stacked states count the households, stacked activities the residents."""
    r = ctx.rng
    n = int(r.choice([2, 5, 60, 144]))
    hh, k = ctx.randint(1, 40), ctx.randint(1, 6)
    states = r.integers(0, k, (hh, n))
    if r.random() < .3:
        states = states.astype(np.uint8)
    labels = ['state_%d' % i for i in range(int(states.max()) + 1 + ctx.randint(0, 2))]
    kw = {'step': ctx.choice(['post', 'pre', 'mid'])} if r.random() < .4 else {}
    if r.random() < .3:
        kw['alpha'] = .5
    ctx.case(n=n, households=hh, states=k, kw=kw)
    ax = draw(ctx, plotters.plot_stack_states, states, labels, **kw)
    top = int(states.max()) + 1
    series = [[int((states[:, t] == s).sum()) for t in range(n)] for s in range(top)]
    if 'alpha' in kw:
        ctx.check(all(abs(c.get_alpha() - .5) < 1e-9 for c in ax.collections if c.get_alpha() is not None) and all(c.get_alpha() is not None for c in ax.collections), 'states-alpha')
    judge_layers(ctx, ax, labels[:top], series, np.arange(n, dtype=float), kw.get('step'), 'states')
    ctx.event('state_layer')

    names = ['a', 'cooking', 'away', 'sleeping', 'zzz'][:ctx.randint(1, 5)]
    r.shuffle(names)
    data = {x: r.integers(0, 30, n) for x in names}
    given, xs = axis_times(ctx, n)
    kw = {} if given is None else {'time_axis': given}
    if r.random() < .5:
        kw['step'] = ctx.choice(['post', 'pre', 'mid'])
    if r.random() < .3:
        kw['colors'] = ['#%06x' % v for v in r.integers(0, 1 << 24, len(names))]
    ax = draw(ctx, plotters.plot_stacked_activities, data, **kw)
    if 'colors' in kw:
        ctx.eq([to_hex(c.get_facecolor()[0]) for c in ax.collections], kw['colors'], 'activities-colours')
    judge_layers(ctx, ax, names, [data[x] for x in names], xs, kw.get('step', 'post'), 'activities')
    ctx.state('stacks', n, hh, k, len(names))


class Source(TimeAwareSimulator):
    """Getters of every kind, all drawn anew at each step."""

    def __init__(self, n, seed, **kw):
        super().__init__(n, **kw)
        self.rs = np.random.RandomState(seed)
        self._draw()
        self.initialize_starting_state(initialization_time=self.current_time)

    def _draw(self):
        n = self.n_households
        self.power = self.rs.uniform(0, 3000, n)
        self.residents = self.rs.randint(0, 6, n)
        self.states = {'away': self.rs.randint(0, 5, n), 'sleeping': self.rs.randint(0, 5, n)}
        self.climate = {'temperature': float(self.rs.normal()), 'irradiance': float(self.rs.uniform(0, 900))}
        self.temperature = float(self.rs.normal())

    def step(self):
        self._draw()
        super().step()

    def get_power(self):
        return self.power

    def get_states(self):
        return self.states

    def get_climate(self):
        return self.climate


def wanted(logger, aggregate, column):
    """{attribute: {label: series}} of what a plot has to show."""
    out = {}
    for attr, aggr in zip(logger.attributes_list, logger.aggregated):
        if attr == 'current_time':
            continue
        val = logger.get(attr)
        parts = {(attr + "['%s']" % k if column else '%s_%s' % (attr, k)): v for k, v in val.items()} if isinstance(val, dict) else {attr: val}
        lines = {}
        for lab, v in parts.items():
            v = np.asarray(v)
            if not aggr and v.ndim > 1:
                if aggregate:
                    lines[lab] = v.sum(axis=1)
                else:
                    lines.update({'%s_hh_%d' % (lab, i): v[:, i] for i in range(v.shape[1])})
            else:
                lines[lab] = v
        out[attr] = lines
    return out


def judge_lines(ctx, ax, lines, xs, key):
    drawn = [(l.get_label(), l) for l in ax.lines]
    ctx.eq([d[0] for d in drawn], list(lines), key + '-labels')
    for lab, l in drawn:
        if lab in lines:
            ctx.close(np.asarray(l.get_ydata(orig=True), float), np.asarray(lines[lab], float), key + '-values', lab, rtol=1e-12)
            x = l.get_xdata(orig=True)
            x = mdates.date2num(x) if len(x) and isinstance(x[0], (dt.datetime, np.datetime64)) else np.asarray(x, float)
            ctx.close(x, xs, key + '-times', lab, rtol=1e-12)
            if key == 'column':
                ctx.eq(l.get_drawstyle(), 'steps-post', key + '-steps')
            ctx.event('column_line' if key == 'column' else 'line')
    legend = ax.get_legend()
    ctx.check(legend is not None, key + '-legend')
    if legend is not None:
        ctx.eq([t.get_text() for t in legend.get_texts()], list(lines), key + '-legend-labels')
        ctx.event('legend')


def judge_logger(ctx, logger, aggregate):
    n = len(logger.get(logger.attributes_list[0])) if not isinstance(logger.get(logger.attributes_list[0]), dict) else len(next(iter(logger.get(logger.attributes_list[0]).values())))
    kw = {'aggregate': True} if aggregate else {}
    with Shown() as s:
        logger.plot(**kw)
    want = wanted(logger, aggregate, False)
    ctx.eq(len(s.figs), len(want), 'plot-figures')
    for fig, (attr, lines) in zip(s.figs, want.items()):
        ctx.eq(len(fig.axes), 1, 'plot-axes')
        judge_lines(ctx, fig.axes[0], lines, np.arange(n), 'plot')
    with Shown() as s:
        logger.plot_column(**kw)
    want = wanted(logger, aggregate, True)
    ctx.eq(len(s.figs), 1, 'column-figures')
    xs = np.arange(n)
    if 'current_time' in logger.attributes_list:
        xs = mdates.date2num(logger.get('current_time'))
    for fig in s.figs:
        ctx.eq(len(fig.axes), len(want), 'column-axes')
        tops = [ax.get_position().y1 for ax in fig.axes]
        ctx.check(tops == sorted(tops, reverse=True), 'column-order')
        lims = [ax.get_xlim() for ax in fig.axes]
        ctx.check(all(l == lims[0] for l in lims), 'column-shared-times')
        for ax, (attr, lines) in zip(fig.axes, want.items()):
            judge_lines(ctx, ax, lines, xs, 'column')
    if len(want) == 1:
        ctx.event('single_attribute')
    with redirect_stdout(io.StringIO()) as out:
        logger.print()
    text = out.getvalue()
    at = 0
    for attr in logger.attributes_list:
        expect = '%s\n%s\n' % (attr, logger.get(attr))
        found = text.find(expect, at)
        ctx.check(found == at, 'print', attr)
        at += len(expect)


@S.scenario(160, 2000)
def loggers(ctx):
    """The logger draws and prints every recorded series against its time."""
    r = ctx.rng
    attrs = ['get_power', 'residents', 'get_states', 'get_climate', 'temperature', 'power']
    r.shuffle(attrs)
    attrs = attrs[:ctx.randint(1, 5)]
    if r.random() < .5:
        attrs.insert(ctx.randint(0, len(attrs)), 'current_time')
    flags = ctx.choice([True, False, 'mixed', 'mixed', None])
    logger = SimLogger(attrs) if flags is None else SimLogger(attrs, aggregated=flags) if flags != 'mixed' else SimLogger(
        attrs, aggregated=[a != 'current_time' and bool(r.random() < .5) for a in attrs])
    n, steps = ctx.randint(1, 4), ctx.randint(1, 30)
    aggregate = bool(r.random() < .4)
    ctx.case(attrs=attrs, flags=str(flags), n=n, steps=steps, aggregate=aggregate)
    sim = Source(n, ctx.randint(0, 10 ** 6), logger=logger, start_datetime=dt.datetime(2019, 1, 1) + dt.timedelta(minutes=ctx.randint(0, 500000)),
                 step_size=dt.timedelta(minutes=ctx.choice([1, 10, 60])))
    for _ in range(steps):
        sim.step()
    logger = sim.logger
    ctx.eq(len(logger.get('current_time')) if 'current_time' in attrs else steps, steps, 'recorded')
    before = {a: repr(logger.get(a)) for a in attrs}
    judge_logger(ctx, logger, aggregate)
    ctx.eq({a: repr(logger.get(a)) for a in attrs}, before, 'records-unchanged')
    ctx.eq(logger.attributes_list, attrs, 'attributes-unchanged')
    if 'get_states' in attrs or 'get_climate' in attrs:
        ctx.event('dictionary')
    ctx.state('loggers', tuple(sorted(attrs)), str(flags), aggregate)


@S.scenario(4, 60)
def simulations(ctx):
    """A recorded occupancy simulation is drawn as it was recorded."""
    logger = SimLogger('get_active_occupancy', 'get_occupancy', 'current_time', aggregated=False)
    n = ctx.randint(1, 4)
    ctx.case(n=n)
    sim = Crest4StatesModel(n, logger=logger, start_datetime=dt.datetime(2016, 5, 2, 0, 0))
    for _ in range(ctx.randint(20, 144)):
        sim.step()
    logger = sim.logger
    judge_logger(ctx, logger, ctx.index % 2 == 1)
    hh = ctx.randint(0, n - 1)
    times = logger.get('current_time')
    data = {'active_occupancy': logger.get('get_active_occupancy')[:, hh].astype(int), 'occupancy': logger.get('get_occupancy')[:, hh].astype(int)}
    ax = draw(ctx, plotters.plot_household_activities, data, time_axis=times, colors=None)
    xs = mdates.date2num(times)
    got = {(round(float(y)), float(x)): int(v) for c in ax.collections for (x, y), v in zip(np.asarray(c.get_offsets(), float).reshape(-1, 2), c.get_array())}
    want = {(row, float(xs[t])): int(data[k][t]) for row, k in enumerate(['occupancy', 'active_occupancy']) for t in range(len(xs)) if data[k][t]}
    ctx.eq(got, want, 'simulated-markers')
    ctx.event('real_simulator')
    ctx.state('simulations', n)
