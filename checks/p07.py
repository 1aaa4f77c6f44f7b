"""P07 Markov activity chains follow the matrices of the current slot, day type and quarter."""
import collections
import datetime as dt
import os

import numpy as np

from vlib.core import Spec
from vlib.stats import ALPHA, gof, rand_pdf
from demod.simulators.base_simulators import SimLogger
from demod.simulators.activity_simulators import (
    MarkovChain1rstOrder, SubgroupsIndividualsActivitySimulator, SemiMarkovSimulator)
from demod.simulators.crest_simulators import Crest4StatesModel, CrestOccupancySimulator
from demod.simulators.sparse_simulators import (
    SparseTransitStatesSimulator, SubgroupsActivitySimulator)
from demod.utils.sparse import SparseTPM
from demod.utils.subgroup_handling import subgroup_string

S = Spec('P07', 'Chains over random and permutation matrices (one permutation per day type, quarter, subgroup and slot, so '
         'that every trajectory is exactly predictable), random starts, warm-ups, day-type options and run lengths; '
         'non-trivial = distinct chain, calendar position and options.',
         required=['transition_exact', 'transition_support', 'refresh', 'warmup_step', 'label_lost', 'weekend', 'quarter_change'])

DAY = dt.timedelta(days=1)
STEP = dt.timedelta(minutes=10)


def perm_mats(perms):
    T, n = perms.shape
    m = np.zeros((T, n, n))
    m[np.arange(T)[:, None], np.arange(n)[None, :], perms] = 1.
    return m


@S.scenario(160, 3000)
def predictable_chain(ctx):
    n, T = ctx.randint(1, 7), ctx.randint(1, 12)
    hh, warm, steps = ctx.many(30), ctx.choice([0, 0, 1, 5, 17]), ctx.randint(1, 40)
    if ctx.rng.random() < .08:       # more steps than a day of ten minutes has
        T, steps = ctx.choice([145, 200, 288]), ctx.choice([200, 400])
    perms = np.array([ctx.rng.permutation(n) if ctx.rng.random() < .7 else ctx.rng.integers(0, n, n) for _ in range(T)])
    p0 = rand_pdf(ctx.rng, n)
    one = bool(ctx.rng.random() < .5)
    if one:
        p0 = np.eye(n)[ctx.randint(0, n - 1)]
    labels = None if ctx.rng.random() < .5 else ['L%d' % i for i in range(n)]
    ctx.case(n=n, T=T, hh=hh, warm=warm, steps=steps, one=one, perms=perms.tolist(), labels=labels is not None)
    tpm = perm_mats(perms)
    keep = tpm.copy()
    logger = SimLogger('current_states', aggregated=False) if ctx.rng.random() < .6 else None
    sim = MarkovChain1rstOrder(hh, n, tpm, labels=labels, logger=logger)
    sim.initialize_starting_state(p0, start_time_step=warm)
    cur = np.array(sim.current_states)
    ctx.event('warmup_step', warm * hh)
    ctx.eq(cur.shape, (hh,), 'shape')
    ctx.check(((cur >= 0) & (cur < n)).all(), 'valid-states', lambda: str(cur))
    reach = set(np.flatnonzero(p0 > 0))
    for k in range(warm):
        reach = {int(perms[(k + 1) % T][s]) for s in reach}
    ctx.check(set(cur.tolist()) <= reach, 'warm-start', lambda: 'states %s reachable %s' % (sorted(set(cur.tolist())), sorted(reach)))
    hist = [cur.copy()]
    for k in range(warm, warm + steps):
        cur = perms[(k + 1) % T][cur]
        sim.step()
        ctx.eq(sim.current_states, cur, 'trajectory', 'step %d' % k)
        hist.append(cur.copy())
        ctx.event('transition_exact', hh)
        s = ctx.randint(0, n - 1)
        ctx.eq(np.asarray(sim.get_n_doing_state(s), int), (cur == s).astype(int), 'n-doing-state')
        lab = labels[s] if labels else s
        ctx.eq(np.asarray(sim.get_n_doing_activity(lab), int), (cur == s).astype(int), 'n-doing-activity')
        ctx.state(n, T, k % T, tuple(np.bincount(cur, minlength=n) > 0))
    if logger is not None:
        ctx.eq(sim.logger.get('current_states'), np.array(hist[:-1]), 'log')
    ctx.eq(tpm, keep, 'matrices-untouched')
    ctx.eq(sim.current_time_step, warm + steps, 'time-step')


@S.scenario(24, 300, weight=2)
def statistics(ctx):
    n, T, hh = ctx.randint(2, 5), ctx.randint(1, 6), 3000
    tpm = np.array([[rand_pdf(ctx.rng, n) for _ in range(n)] for _ in range(T)])
    p0 = rand_pdf(ctx.rng, n)
    ctx.case(n=n, T=T, seed=float(tpm.ravel()[0]), p0=p0)
    sim = MarkovChain1rstOrder(hh, n, tpm)
    sim.initialize_starting_state(p0)
    c0 = np.bincount(sim.current_states, minlength=n)
    ctx.check(gof(c0, p0) > ALPHA, 'initial-frequencies', lambda: '%s vs %s' % (c0, p0))
    for k in range(4 * T):
        prev = np.array(sim.current_states)
        sim.step()
        cur = np.array(sim.current_states)
        m = tpm[(k + 1) % T]
        ctx.event('transition_support', hh)
        ctx.check((m[prev, cur] > 0).all(), 'impossible-transition', lambda: 'slot %d' % ((k + 1) % T))
        for s in range(n):
            c = np.bincount(cur[prev == s], minlength=n)
            ctx.check(gof(c, m[s]) > ALPHA, 'frequencies', lambda: 'slot %d state %d: %s vs %s' % ((k + 1) % T, s, c, m[s]))
        # independence between households: sorted neighbours
        ctx.state(k % T, tuple(np.bincount(cur, minlength=n) > 0))


@S.scenario(20, 200)
def refused(ctx):
    n = ctx.randint(2, 5)
    tpm = np.array([[rand_pdf(ctx.rng, n) for _ in range(n)] for _ in range(3)])
    ctx.case(n=n)
    ctx.raises(TypeError, lambda: MarkovChain1rstOrder(2, n, tpm.tolist()), 'list-matrix')
    ctx.raises(ValueError, lambda: MarkovChain1rstOrder(2, n + 1, tpm), 'wrong-n-states')
    ctx.raises(ValueError, lambda: MarkovChain1rstOrder(2, n, tpm[:, :, :-1]), 'not-square')
    ctx.raises(ValueError, lambda: MarkovChain1rstOrder(2, n, tpm, labels=list(range(n + 1))), 'labels')
    bad = tpm.copy()
    i, j = ctx.randint(0, 2), ctx.randint(0, n - 1)
    bad[i, j] *= .9
    ctx.raises(Exception, lambda: MarkovChain1rstOrder(2, n, bad).initialize_starting_state(np.full(n, 1 / n)), 'row-not-one')
    ctx.raises(Exception, lambda: MarkovChain1rstOrder(2, n, tpm).initialize_starting_state(np.full(n, .5 / n)), 'start-not-one')
    ctx.raises(AssertionError, lambda: MarkovChain1rstOrder(2, n, tpm).initialize_starting_state(np.full(n + 1, 1 / (n + 1))), 'start-length')
    for d in ('x', 1, None):
        ctx.raises(TypeError, lambda: CrestOccupancySimulator(2, 2, d), 'crest-day-type', repr(d))
    ctx.raises(TypeError, lambda: SubgroupsIndividualsActivitySimulator(
        [{'n_residents': 1}], [1], subsimulator=CrestOccupancySimulator, data=IndividualData(ctx, ['away', 'sleeping', 'x'], 1, dt.time(4))), 'subsimulator')
    ctx.raises(ValueError, lambda: SubgroupsIndividualsActivitySimulator(
        [{'n_residents': 1}], [1], data=IndividualData(ctx, ['away', 'sleeping', 'x'], 1, dt.time(4)),
        step_size=dt.timedelta(minutes=1), start_datetime=dt.datetime(2014, 1, 1)), 'step-size')


# -- calendar driven simulators ------------------------------------------------

def day_key(date, opts):
    wd = date.isoweekday()
    key = {}
    if opts.get('use_week_ends_days'):
        key['weekday'] = [1, 2, 3, 4, 5] if wd <= 5 else [6, 7]
    elif opts.get('use_week_sat_sun'):
        key['weekday'] = [1, 2, 3, 4, 5] if wd <= 5 else wd
    elif opts.get('use_7days'):
        key['weekday'] = wd
    if opts.get('use_quarters'):
        key['quarter'] = (date.month - 1) // 3 + 1
    return key


class Keyed:
    """Deterministic permutations, a function of the canonical subgroup."""

    def __init__(self, ctx, base):
        self.base = base
        self.salt = ctx.randint(0, 10**6)
        self.requests = []
        self._cache = {}

    def canon(self, subgroup):
        return repr(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in subgroup.items() if v is not None))

    def gen(self, subgroup):
        import zlib
        return np.random.Generator(np.random.PCG64(zlib.crc32((self.canon(subgroup) + str(self.salt)).encode())))


class IndividualData(Keyed):
    def __init__(self, ctx, labels, base, refresh):
        super().__init__(ctx, base)
        self.labels, self.refresh_time = np.array(labels), refresh
        self.extra = []

    def perms(self, subgroup):
        c = self.canon(subgroup)
        if c not in self._cache:
            g = self.gen(subgroup)
            n = len(self.labels)
            lab = self.labels
            if self.extra and 'weekday' in subgroup and g.random() < .5:     # a day with more activities
                lab = np.r_[lab, self.extra]
            n = len(lab)
            lab = lab[g.permutation(n)]
            self._cache[c] = (np.array([g.permutation(n) for _ in range(144)]), lab, int(g.integers(n)))
        return self._cache[c]

    def load_tpm(self, subgroup):
        self.requests.append(dict(subgroup))
        p, lab, s0 = self.perms(subgroup)
        return perm_mats(p), lab.copy(), np.eye(len(lab))[s0]


def random_start(ctx):
    base = ctx.choice([dt.datetime(2014, 1, 1), dt.datetime(2014, 3, 30), dt.datetime(2016, 2, 27), dt.datetime(2015, 12, 30),
                       dt.datetime(2014, 6, 28), dt.datetime(2014, 9, 29), dt.datetime(2014, 8, 1), dt.datetime(2014, 12, 31)])
    return base + dt.timedelta(days=ctx.randint(0, 6), minutes=10 * ctx.randint(0, 143))


def diary_day(t, refresh):
    d = t.date()
    return d if t.time() >= refresh else d - DAY


@S.scenario(60, 900, weight=6)
def individuals_calendar(ctx):
    labels = ['away', 'sleeping', 'work', 'tv'][:ctx.randint(3, 4)]
    refresh = ctx.choice([dt.time(4), dt.time(4), dt.time(0), dt.time(5, 30)])
    opts = ctx.choice([{}, {'use_week_ends_days': True}, {'use_7days': True}, {'use_week_sat_sun': True},
                       {'use_quarters': True}, {'use_week_ends_days': True, 'use_quarters': True},
                       {'use_7days': True, 'use_quarters': True}, {'use_week_sat_sun': True, 'use_quarters': True}])
    data = IndividualData(ctx, labels, 1, refresh)
    data.extra = ctx.choice([[], [], ['hobby'], ['hobby', 'sport', 'a']])
    k = ctx.randint(1, 3)
    pool = [{'n_residents': 1}, {'n_residents': 2, 'household_type': 2}, {'n_residents': 3, 'household_type': 3},
            {'n_residents': 4, 'household_type': 4}, {'n_residents': 2, 'household_type': 2, 'age': 3}]
    if ctx.rng.random() < .2:        # many kinds of persons
        k = ctx.randint(6, 20)
        pool = pool + [{'n_residents': 2, 'household_type': 2, 'age': a} for a in range(10, 20)] + [{'n_residents': 1, 'age': a} for a in range(5, 15)]
    subs = [dict(pool[i]) for i in ctx.rng.choice(len(pool), k, replace=False)]
    n_hh = [ctx.randint(1, 3) for _ in range(k)]
    start = random_start(ctx)
    steps = ctx.choice([30, 150, 300, 430])
    ctx.case(labels=len(labels), refresh=str(refresh), opts=opts, subs=subs, n_hh=n_hh, start=str(start), steps=steps, salt=data.salt)
    sim = SubgroupsIndividualsActivitySimulator(subs, n_hh, data=data, start_datetime=start, **opts)
    # persons: (household, subgroup)
    persons, h0 = [], 0
    for s, n in zip(subs, n_hh):
        base = {a: b for a, b in s.items() if a not in ('n_residents', 'household_type')}
        t = s.get('household_type')
        pos = [None] if s['n_residents'] == 1 else {2: [1, 2], 3: [1] + [3] * (s['n_residents'] - 1),
                                                   4: [1, 2] + [3] * (s['n_residents'] - 2)}[t]
        for h in range(n):
            for q in pos:
                persons.append((h0 + h, dict(base, **({} if q is None else {'household_position': q}))))
        h0 += n
    first = dt.datetime.combine(diary_day(start, refresh), refresh)
    state = []
    for h, sg in persons:
        _, lab, s0 = data.perms(sg)
        state.append(lab[s0])

    def advance(t):
        day = diary_day(t, refresh)
        slot = int((t - dt.datetime.combine(day, refresh)) / STEP)
        key = day_key(day, opts) if opts else {}
        for i, (h, sg) in enumerate(persons):
            p, lab, _ = data.perms(dict(sg, **key))
            # who does something that this day does not know does the first activity
            if state[i] not in lab:
                ctx.event('unknown_activity')
            state[i] = lab[p[(slot + 1) % 144][list(lab).index(state[i]) if state[i] in lab else 0]]
        ctx.event('transition_exact', len(persons))
        if slot == 0:
            ctx.event('refresh')
            if day.isoweekday() > 5:
                ctx.event('weekend')
            if opts.get('use_quarters') and (day.month - 1) // 3 != ((day - DAY).month - 1) // 3:
                ctx.event('quarter_change')

    t = first
    while t < start:
        advance(t)
        ctx.event('warmup_step')
        t += STEP

    def compare(where):
        for a in labels:
            want = np.zeros(sum(n_hh), int)
            for (h, _), s in zip(persons, state):
                want[h] += s == a
            if not ctx.eq(sim.get_n_doing_activity(a), want, 'trajectory', '%s %s' % (where, a)):
                return False
        return True
    ok = compare('start')
    for i in range(steps):
        advance(t)
        t += STEP
        sim.step()
        ctx.state(t.isoweekday(), t.hour, tuple(sorted(opts)))
        if not compare(t):
            break
    want_keys = {data.canon(day_key(diary_day(start, refresh), opts))}
    if opts:
        got = [data.canon({k: v for k, v in r.items() if k in ('weekday', 'quarter')}) for r in data.requests]
        ctx.check(want_keys <= set(got), 'requested-day-type', lambda: '%s not in %s' % (want_keys, set(got)))


class SparseData(Keyed):
    """Household labels differ between day types: some labels are lost at the change of day."""
    refresh_time = dt.time(4)

    def table(self, subgroup):
        c = self.canon(subgroup)
        if c not in self._cache:
            g = self.gen(subgroup)
            allab = self.base
            n = int(g.integers(2, len(allab) + 1))
            lab = allab[g.permutation(len(allab))[:n]]
            self._cache[c] = (np.array([g.permutation(n) for _ in range(144)]), lab, int(g.integers(n)))
        return self._cache[c]

    def load_sparse_tpm(self, subgroup):
        self.requests.append(dict(subgroup))
        p, lab, s0 = self.table(subgroup)
        m = perm_mats(p)
        t, f, to = np.where(m > 0)
        tpm = SparseTPM(t, f, to, m[t, f, to], n_states=m.shape[1], n_times=m.shape[0])
        return tpm, lab.copy(), np.array(['HWH', 'HOH', 'active', 'sleep']), np.eye(len(lab))[s0]


@S.scenario(60, 900, weight=5)
def sparse_calendar(ctx):
    res = ctx.randint(1, 3)
    # label = 7-ary digits: persons in HWH, HOH, active
    allab = np.array(sorted({a + 7 * b + 49 * c for a in range(res + 1) for b in range(res + 1 - a) for c in range(res + 1)}))
    allab = allab[ctx.rng.permutation(len(allab))[:ctx.randint(2, min(9, len(allab)))]]
    data = SparseData(ctx, allab)
    aware = bool(ctx.rng.random() < .85)
    opts = ctx.choice([{}, {'use_week_ends_days': True}, {'use_week_ends_days': False, 'use_7days': True},
                       {'use_quarters': True}, {'use_week_ends_days': False}, {'use_week_ends_days': False, 'use_7days': True, 'use_quarters': True}]) if aware else {}
    start = random_start(ctx)
    hh, steps = ctx.many(6), ctx.choice([30, 150, 300, 430])
    sub = {'n_residents': res}
    multi = bool(ctx.rng.random() < .4)
    ctx.case(res=res, labels=allab, aware=aware, opts=opts, start=str(start), hh=hh, steps=steps, salt=data.salt, multi=multi)
    kw = dict(opts, start_datetime=start) if aware else {}
    if multi:
        sim = SubgroupsActivitySimulator([sub, dict(sub)], [hh, 0], data=data, **kw)
        inner = sim.simulators[0]
    else:
        inner = sim = SparseTransitStatesSimulator(hh, sub, data=data, logger=SimLogger('get_occupancy', aggregated=False), **kw)
    ctx.eq(sub, {'n_residents': res}, 'subgroup-untouched')
    eff = dict({'use_week_ends_days': True}, **opts)

    def key(day):
        k = {'weekday': 0, 'quarter': None}
        k.update(day_key(day, eff))
        return dict(sub, **k)
    first = dt.datetime.combine(diary_day(start, dt.time(4)), dt.time(4)) if aware else None
    _, lab, s0 = data.table(sub)
    state = lab[s0]

    def enter(state, day):
        lab = data.table(key(day))[1]
        if state not in lab:
            ctx.event('label_lost')
            return lab[0]
        return state

    def advance(state, k):
        if aware:
            t = first + k * STEP
            day = diary_day(t, dt.time(4))
            slot = k % 144
            if slot == 0:
                state = enter(state, day)
                ctx.event('refresh')
                if day.isoweekday() > 5:
                    ctx.event('weekend')
                if eff.get('use_quarters') and (day.month - 1) // 3 != ((day - DAY).month - 1) // 3:
                    ctx.event('quarter_change')
            p, lab, _ = data.table(key(day))
        else:
            slot = k % 144
            p, lab, _ = data.table(sub)
        ctx.event('transition_exact', hh)
        return lab[p[slot][list(lab).index(state)]]
    k = 0
    if aware:
        state = enter(state, first.date())
        while first + k * STEP < start:
            state = advance(state, k)
            k += 1
            ctx.event('warmup_step')
    digits = ['HWH', 'HOH', 'active', 'sleep']

    def compare():
        ok = ctx.eq(inner.state_labels[inner.current_states], np.full(hh, state), 'trajectory', 'step %d' % k)
        d = [state // 7 ** i % 7 for i in range(4)]
        i = ctx.randint(0, 3)
        ctx.eq(sim.get_n_doing_activity(digits[i]), np.full(hh, d[i]), 'activity-digit', digits[i])
        ctx.eq(sim.get_n_doing_state(i), np.full(hh, d[i]), 'state-digit', digits[i])
        ctx.eq(sim.get_occupancy(), np.full(hh, res - d[0] - d[1]), 'occupancy', 'step %d' % k)
        ctx.eq(sim.get_active_occupancy(), np.full(hh, min(res - d[0] - d[1], d[2])), 'active-occupancy', 'step %d' % k)
        return ok
    compare()
    occ = []
    for i in range(steps):
        occ.append(res - state % 7 - state // 7 % 7)
        state = advance(state, k)
        k += 1
        sim.step()
        ctx.state(k % 144, aware, tuple(sorted(opts)))
        if not compare():
            return
    if not multi:
        ctx.eq(sim.logger.get('get_occupancy'), np.repeat(np.array(occ)[:, None], hh, axis=1), 'log')


class CrestData(Keyed):
    refresh_time = dt.time(0)

    def perms(self, subgroup):
        c = self.canon(subgroup)
        if c not in self._cache:
            g = self.gen(subgroup)
            n = subgroup['n_residents']
            lab = np.array([10 * a + b for a in range(n + 1) for b in range(n + 1)])
            self._cache[c] = (np.array([g.permutation(len(lab)) for _ in range(144)]), lab, int(g.integers(len(lab))))
        return self._cache[c]

    def load_tpm(self, subgroup):
        self.requests.append(dict(subgroup))
        p, lab, s0 = self.perms(subgroup)
        return perm_mats(p), lab.copy(), np.eye(len(lab))[s0]

    def load_population_subgroups(self, population_type):
        if population_type != 'resident_number':
            raise ValueError(population_type)
        return [{'n_residents': i} for i in (1, 2, 3)], np.array(self.base), 1000


@S.scenario(50, 700, weight=6)
def crest_calendar(ctx):
    pdf = rand_pdf(ctx.rng, 3)
    data = CrestData(ctx, pdf)
    start = random_start(ctx)
    n, steps = ctx.many(12), ctx.choice([30, 150, 300, 450, 900])
    algo = ctx.choice(['real_population', 'monte_carlo', None])
    ctx.case(pdf=pdf, start=str(start), n=n, steps=steps, salt=data.salt, algo=algo)
    sim = Crest4StatesModel(n, data=data, start_datetime=start, logger=SimLogger('get_occupancy', aggregated=False),
                            **({'population_sampling_algo': algo} if algo else {}))
    ctx.eq(sum(s.n_households for s in sim.simulators), n, 'households')
    ctx.eq(len(sim.n_residents), n, 'n-residents')
    counts = {s.n_residents: s.n_households for s in sim.simulators}
    ctx.check(all(pdf[r - 1] > 0 for r in counts), 'zero-probability-subgroup', str(counts))
    state = {}

    def key(r, day):
        return {'n_residents': r, 'weekday': [1, 2, 3, 4, 5] if day.isoweekday() <= 5 else [6, 7]}
    for r in counts:
        _, lab, s0 = data.perms(key(r, start))
        state[r] = lab[s0]

    def advance(t):
        slot = (t.hour * 60 + t.minute) // 10
        for r in counts:
            p, lab, _ = data.perms(key(r, t))
            state[r] = lab[p[(slot + 1) % 144][list(lab).index(state[r])]]
        ctx.event('transition_exact', n)
        if slot == 0:
            ctx.event('refresh')
            if t.isoweekday() > 5:
                ctx.event('weekend')
    t = dt.datetime.combine(start.date(), dt.time(0))
    while t < start:
        advance(t)
        t += STEP
        ctx.event('warmup_step')
    occ = []
    for i in range(steps + 1):
        labs = np.concatenate([np.full(s.n_households, state[s.n_residents]) for s in sim.simulators])
        if not ctx.eq(sim.get_states_labeled(), labs, 'trajectory', str(t)):
            return
        ctx.eq(sim.get_occupancy(), labs // 10, 'occupancy')
        ctx.eq(sim.get_active_occupancy(), np.minimum(labs // 10, labs % 10), 'active-occupancy')
        if i == steps:
            break
        occ.append(labs // 10)
        advance(t)
        t += STEP
        sim.step()
        ctx.state(t.isoweekday(), t.hour, len(counts))
        ctx.eq(sim.current_time, t, 'clock')
    ctx.eq(sim.logger.get('get_occupancy'), np.array(occ), 'log')


# -- shipped data -----------------------------------------------------------------

CREST = {}


@S.scenario(16, 160, weight=6)
def shipped_crest(ctx):
    from demod.datasets.CREST.loader import Crest
    data = Crest()
    start = random_start(ctx)
    n, steps = ctx.choice([20, 200]), ctx.choice([100, 300])
    ctx.case(start=str(start), n=n, steps=steps)
    sim = Crest4StatesModel(n, data=data, start_datetime=start)
    t = start
    for _ in range(steps):
        prev = [np.array(s.current_states) for s in sim.simulators]
        sim.step()
        slot = (t.hour * 60 + t.minute) // 10
        for s, p in zip(sim.simulators, prev):
            key = s.n_residents, '1,2,3,4,5' if t.isoweekday() <= 5 else '6,7'
            if key not in CREST:
                # in the files, the first matrix leads from the first to the second slot of the day
                CREST[key] = np.load(os.path.join(data.parsed_path, '4_States', 'tpm__n_residents_%d__weekday_%s.npy' % key))
            pr = CREST[key][slot][p, np.array(s.current_states)]
            ctx.event('transition_support', len(p))
            ctx.check((pr > 0).all(), 'impossible-transition', lambda: '%s n_residents %d' % (t, s.n_residents))
        t += STEP
        ctx.state('crest', slot)


@S.scenario(16, 160, weight=6)
def shipped_sparse(ctx):
    from demod.datasets.GermanTOU.loader import GTOU
    data = GTOU('Sparse9States')
    start = random_start(ctx)
    pool = [{'n_residents': r} for r in range(1, 6)] + [{'n_residents': r, 'household_type': h} for r in range(1, 6) for h in range(1, 5)]
    days = [{'quarter': None, 'weekday': w} for w in ([1, 2, 3, 4, 5], [6, 7])]
    have = set(os.listdir(data.parsed_path_activity))
    pool = [b for b in pool if all(subgroup_string({**b, **d}) + '.npz' in have for d in [{}] + days)]
    base = ctx.choice(pool)
    res = base['n_residents']
    n, steps = ctx.choice([5, 60]), ctx.choice([100, 300])
    aware = bool(ctx.rng.random() < .7)
    ctx.case(start=str(start), base=base, n=n, steps=steps, aware=aware)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sim = SparseTransitStatesSimulator(n, dict(base), data=data, **({'start_datetime': start} if aware else {}))
        t = start
        k = 0 if not aware else sim.current_time_step
        cache = {}
        for _ in range(steps):
            prev = np.array(sim.state_labels[sim.current_states])
            sim.step()
            slot = k % 144
            day = diary_day(t, dt.time(4))
            sg = {**base, 'weekday': [1, 2, 3, 4, 5] if day.isoweekday() <= 5 else [6, 7], 'quarter': None} if aware else dict(base)
            kk = subgroup_string(sg)
            if kk not in cache:
                tpm, lab, _, _ = data.load_sparse_tpm(sg)
                cache[kk] = (tpm, {v: i for i, v in enumerate(lab)}, [None] * 144)
            tpm, pos, mats = cache[kk]
            if mats[slot] is None:
                mats[slot] = tpm[slot]
            m = mats[slot]
            if aware and slot == 0:
                ctx.event('refresh')
                prev = np.array([p if p in pos else lab[0] for p in prev])
            f = np.array([pos[p] for p in prev])
            to = np.array([pos[p] for p in sim.state_labels[sim.current_states]])
            dead = m[f].sum(axis=1) == 0
            ctx.event('transition_support', n)
            ctx.check(((m[f, to] > 0) | dead).all(), 'impossible-transition', lambda: '%s slot %d' % (t, slot))
            t += STEP
            k += 1
            ctx.state('sparse', slot, aware)
