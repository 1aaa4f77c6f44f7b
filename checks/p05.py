"""P05 a multi-simulator is the concatenation of its parts."""
import numpy as np

from vlib.core import Spec
from demod.simulators.base_simulators import Simulator, MultiSimulator, SimLogger, cached_getter

S = Spec('P05', 'Random partitions of households over recording sub-simulators, random array arguments, getters and '
         'subgroup queries, each compared with independently stepped twins; non-trivial = distinct partition and arguments.',
         required=['sub_step', 'getter_read', 'mask', 'district'])


class Part(Simulator):
    def __init__(self, n, res, subgroup, log, name, known=True, **kw):
        super().__init__(n, **kw)
        self.subgroup, self.log, self.name = subgroup, log, name
        if known:
            self.n_residents = res
        self.occ = np.zeros(n, dtype=int)
        self.power = np.zeros((n, 2))
        self.kind = [bool, np.int16, int, np.float32, float][res * 7 % 5]      # some parts count, others measure
        self.initialize_starting_state()

    def step(self, come, go=None, mat=None):
        self.log.append((self.name, np.array(come), None if go is None else np.array(go), None if mat is None else np.array(mat)))
        self.occ += come
        if go is not None:
            self.occ -= go
        if mat is not None:
            self.power = self.power * .5 + mat
        super().step()

    @ cached_getter
    def get_occupancy(self):
        """Occupancy doc."""
        return self.occ.copy()

    def get_power(self):
        return self.power.copy()

    def get_level(self):
        return (self.power.sum(axis=1) * 1.3).astype(self.kind)

    @ cached_getter
    def get_total(self):
        return self.power.sum(axis=1) + self.occ


class Multi(MultiSimulator):
    def __init__(self, sims, **kw):
        super().__init__(sims, **kw)
        self.initialize_starting_state()

    def get_total(self):          # already implemented: must not be overridden
        return np.full(self.n_households, -1)


SUBS = [{'n_residents': 1}, {'n_residents': 2}, {'n_residents': 2, 'weekday': [1, 2]}, {'n_residents': 3, 'quarter': 2},
        {'household_type': 1, 'n_residents': 2}, {'household_type': 1}, {}]


@S.scenario(220, 4000)
def concatenation(ctx):
    k = ctx.randint(1, 6)
    sizes = [ctx.choice([1, 1, 2, 3, 7]) for _ in range(k)]
    subs = [ctx.choice(SUBS) for _ in range(k)]
    n = sum(sizes)
    h = ctx.randint(1, 12)
    if ctx.rng.random() < .08:      # a district
        k = ctx.randint(2, 40)
        sizes, subs = [ctx.choice([1, 30, 120, 300]) for _ in range(k)], [ctx.choice(SUBS) for _ in range(k)]
        n = sum(sizes)
        h = ctx.randint(1, 3)
        ctx.event('district')
    ctx.case(sizes=sizes, subs=subs, h=h, seed=ctx.randint(0, 9**9))
    log, tlog = [], []
    known = ctx.rng.random() < .8      # the numbers of residents
    parts = [Part(s, r + 1, sub, log, i, known) for i, (s, r, sub) in enumerate(zip(sizes, range(k), subs))]
    twins = [Part(s, r + 1, sub, tlog, i) for i, (s, r, sub) in enumerate(zip(sizes, range(k), subs))]
    multi = Multi(parts, logger=SimLogger('get_occupancy', 'get_power', aggregated=False))
    ctx.eq(multi.n_households, n, 'households')
    if known:
        ctx.eq(multi.n_residents, np.repeat(np.arange(k) + 1, sizes), 'residents')
    hist = []
    off = np.cumsum([0] + sizes)

    def observe(where):
        want_o = np.concatenate([t.get_occupancy() for t in twins])
        want_p = np.concatenate([t.get_power() for t in twins])
        ctx.event('getter_read', 4)
        ctx.eq(multi.get_level(), np.concatenate([t.get_level() for t in twins]), 'getter-kinds', where)
        ctx.eq(multi.get_occupancy(), want_o, 'getter', where)
        ctx.eq(multi.get_power(), want_p, 'getter2d', where)
        ctx.eq(multi.get_total(), np.full(n, -1), 'own-getter-kept', where)
        j = ctx.randint(-n, n - 1)
        ctx.eq(multi.get_occupancy(j), want_o[j], 'single-household', (where, j))
        ctx.eq(multi.get_power(j), want_p[j], 'single-household', (where, j))
        ctx.state(tuple(want_o), tuple(sizes))
        return want_o, want_p
    hist.append(observe('start'))
    for t in range(h):
        come = ctx.rng.integers(0, 50, n)
        go = ctx.rng.integers(0, 50, n)
        mat = ctx.rng.uniform(size=(n, 2))
        form = ctx.randint(0, 3)
        if form == 0:
            multi.step(come)
        elif form == 1:
            multi.step(come, go)
        elif form == 2:
            multi.step(come, mat=mat)
        else:
            multi.step(come=come, mat=mat, go=go)
        for i, tw in enumerate(twins):
            sl = slice(off[i], off[i + 1])
            tw.step(come[sl], go[sl] if form in (1, 3) else None, mat[sl] if form in (2, 3) else None)
        ctx.event('sub_step', k)
        hist.append(observe(t))
    ctx.check(len(log) == len(tlog) and all(
        a[0] == b[0] and all(np.array_equal(x, y) if x is not None and y is not None else x is y for x, y in zip(a[1:], b[1:]))
        for a, b in zip(sorted(log, key=lambda e: e[0]), sorted(tlog, key=lambda e: e[0]))), 'argument-split', 'each part gets its slice, once per step, in order')
    ctx.eq(multi.current_time_step, h, 'clock')
    ctx.eq([p.current_time_step for p in parts], [h] * k, 'parts-clock')
    if not ctx.check(isinstance(multi.logger, SimLogger), 'logged', lambda: 'the logger given is %r' % (multi.logger,)):
        return
    ctx.eq(multi.logger.get('get_occupancy'), np.array([o for o, _ in hist[:-1]]), 'logged')
    ctx.close(multi.logger.get('get_power'), np.array([p for _, p in hist[:-1]]), 'logged')
    for q in SUBS + [{'n_residents': 9}, {'unknown': 1}, {'unknown': None}, {'n_residents': 2, 'quarter': None}]:
        want = np.repeat([all(key in s and s[key] == v for key, v in q.items()) for s in subs], sizes)
        got = multi.get_mask_subgroup(q)
        ctx.event('mask')
        ctx.eq(np.asarray(got), want, 'subgroup-mask', q)
        ctx.eq(hist[-1][0][got], hist[-1][0][want], 'subgroup-mask-use', q)
