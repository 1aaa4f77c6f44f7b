"""P09 semi-Markov simulators keep each state for the drawn duration."""
import datetime as dt
import os

import numpy as np

from vlib.core import Spec
from vlib.stats import ALPHA, gof, rand_pdf
from checks.p07 import IndividualData, perm_mats, day_key, diary_day, random_start, DAY, STEP
from demod.simulators.base_simulators import SimLogger
from demod.simulators.activity_simulators import SemiMarkovSimulator, SubgroupsIndividualsActivitySimulator
from demod.utils.subgroup_handling import subgroup_string

S = Spec('P09', 'Semi-Markov chains with random or one-valued transition and duration distributions (durations depending on the '
         'new state or on both), random starts, warm-ups and run lengths, also inside household simulators across day-type changes; '
         'non-trivial = distinct chain and run.',
         required=['transition_exact', 'episode', 'episode_stat', 'both_states', 'refresh', 'log', 'warmup_step'])


def onehot(idx, size):
    return np.eye(size)[idx]


@S.scenario(200, 3500)
def predictable(ctx):
    n, T, D = ctx.randint(1, 5), ctx.randint(1, 10), ctx.randint(1, 8)
    hh, warm, steps = ctx.many(20), ctx.choice([0, 0, 3, 11]), ctx.randint(1, 60)
    perms = ctx.rng.integers(0, n, (T, n))
    both = bool(ctx.rng.random() < .5)
    durs = ctx.rng.integers(0, D, (T, n, n) if both else (T, n))
    d0 = ctx.rng.integers(0, D, n)
    s0 = ctx.randint(0, n - 1)
    ctx.case(n=n, T=T, D=D, hh=hh, warm=warm, steps=steps, perms=perms, durs=durs, d0=d0, s0=s0)
    tpm, dpdf, d0pdf = perm_mats(perms), onehot(durs, D), onehot(d0, D)
    keep = tpm.copy(), dpdf.copy(), d0pdf.copy()
    log = SimLogger('current_states', aggregated=False)
    sim = SemiMarkovSimulator(hh, n, tpm, dpdf, labels=['a%d' % i for i in range(n)], logger=log)
    sim.initialize_starting_state(onehot(s0, n), d0pdf, start_time_step=warm)
    if both:
        ctx.event('both_states')
    state, left = s0, max(int(d0[s0]), 1)       # left = observations still to come in this state, this one included

    def advance(k):
        nonlocal state, left
        left -= 1
        ctx.event('transition_exact', hh)
        if left == 0:
            t = (k + 1) % T
            new = int(perms[t][state])
            left = max(int(durs[t][state][new] if both else durs[t][new]), 1)
            state = new
            ctx.event('episode', hh)
    for k in range(warm):
        advance(k)
        ctx.event('warmup_step')
    if not ctx.eq(sim.current_states, np.full(hh, state), 'start'):
        return
    hist = [state]
    for k in range(warm, warm + steps):
        sim.step()
        advance(k)
        if not ctx.eq(sim.current_states, np.full(hh, state), 'trajectory', 'step %d' % k):
            return
        ctx.eq(np.asarray(sim.get_n_doing_activity('a%d' % state), int), np.ones(hh, int), 'n-doing')
        hist.append(state)
        ctx.state(n, T, D, both, left, k % T)
    ctx.event('log')
    ctx.eq(sim.logger.get('current_states'), np.repeat(np.array(hist[:-1])[:, None], hh, axis=1), 'log')
    ctx.eq(sim.current_time_step, warm + steps, 'time-step')
    for got, want in zip((tpm, dpdf, d0pdf), keep):
        ctx.eq(got, want, 'inputs-untouched')


@S.scenario(20, 200)
def refused(ctx):
    """Durations for other states than the chain's, and durations or starts that are no distributions."""
    n, T, D, hh = ctx.randint(1, 5), ctx.randint(1, 4), ctx.randint(2, 6), ctx.many(5)
    both = bool(ctx.rng.random() < .5)
    kind = ctx.choice(['more', 'fewer', 'sum', 'negative', 'start'])
    off = ctx.choice([.5, .9, 1.2, 2.])
    ctx.case(n=n, T=T, D=D, hh=hh, both=both, kind=kind, off=off)
    tpm, s0 = perm_mats(ctx.rng.integers(0, n, (T, n))), onehot(ctx.randint(0, n - 1), n)
    m = n + 1 if kind == 'more' else n - 1 if kind == 'fewer' else n
    dpdf, d0 = onehot(ctx.rng.integers(0, D, (T, m, m) if both else (T, m)), D), onehot(ctx.rng.integers(0, D, n), D)
    at = tuple(ctx.rng.integers(0, k) for k in dpdf.shape[:-1]) if m else ()
    if kind == 'sum':
        dpdf[at] *= off
    elif kind == 'negative':
        dpdf[at] = 0
        dpdf[at][:2] = [1 + off, -off]
    elif kind == 'start':
        s0 = s0 * off

    def build():
        sim = SemiMarkovSimulator(hh, n, tpm, dpdf)
        sim.initialize_starting_state(s0, d0)
        for _ in range(3 * T):
            sim.step()
    ctx.event('refusal')
    ctx.raises(Exception, build, kind)


@S.scenario(30, 400, weight=3)
def statistics(ctx):
    """Stationary matrices: every complete episode is drawn from the pdf of its (previous, new) state."""
    n, D, hh, steps = ctx.randint(2, 4), ctx.randint(2, 7), 400, 80
    tpm = np.array([[rand_pdf(ctx.rng, n) for _ in range(n)]])
    for s in range(n):                      # no self transition, as documented
        tpm[0, s, s] = 0
        if tpm[0, s].sum() == 0:
            tpm[0, s, (s + 1) % n] = 1
        tpm[0, s] /= tpm[0, s].sum()
    both = bool(ctx.rng.random() < .5)
    dpdf = np.array([[rand_pdf(ctx.rng, D) for _ in range(n)] for _ in range(n)])[None] if both else \
        np.array([[rand_pdf(ctx.rng, D) for _ in range(n)]])
    d0pdf = np.array([rand_pdf(ctx.rng, D) for _ in range(n)])
    p0 = rand_pdf(ctx.rng, n)
    ctx.case(n=n, D=D, both=both, tpm=tpm, p0=p0)
    if both:
        ctx.event('both_states')
    sim = SemiMarkovSimulator(hh, n, tpm, dpdf)
    sim.initialize_starting_state(p0, d0pdf)
    rec = [np.array(sim.current_states)]
    for _ in range(steps):
        sim.step()
        rec.append(np.array(sim.current_states))
    rec = np.array(rec).T
    first = np.zeros((n, D + 1), int)
    dur = np.zeros((n, n, D + 1), int)
    trans = np.zeros((n, n), int)
    for row in rec:
        cut = np.flatnonzero(np.diff(row)) + 1
        b = np.r_[0, cut]
        for i in range(len(cut)):
            length = cut[i] - b[i]
            if length > D:
                ctx.check(False, 'too-long', 'episode of %d slots, longest possible %d' % (length, D))
                return
            s = row[b[i]]
            ctx.event('episode_stat')
            if i == 0:
                first[s, length] += 1
            elif b[i] <= steps - D:          # never censored: its end is always observed
                dur[row[b[i] - 1], s, length] += 1
            trans[s, row[cut[i]]] += 1
    ctx.check(gof(np.bincount(rec[:, 0], minlength=n), p0) > ALPHA, 'initial-states')

    def lengths(pdf):
        out = np.zeros(D + 1)
        out[1:len(pdf)] = pdf[1:]
        out[1] += pdf[0]
        return out
    for s in range(n):
        ctx.check(gof(first[s], lengths(d0pdf[s])) > ALPHA, 'initial-durations', lambda: '%s vs %s' % (first[s], d0pdf[s]))
        ctx.check(gof(trans[s], tpm[0, s]) > ALPHA, 'transitions', lambda: '%s vs %s' % (trans[s], tpm[0, s]))
        for p in range(n):
            want = lengths(dpdf[0, p, s] if both else dpdf[0, s])
            ctx.check(gof(dur[p, s], want) > ALPHA, 'durations', lambda: '%d->%d %s vs %s' % (p, s, dur[p, s], want))
    ctx.state(n, D, both)


class SemiData(IndividualData):
    def table(self, subgroup):
        c = 'd' + self.canon(subgroup)
        if c not in self._cache:
            g = self.gen(subgroup)
            n = len(self.labels)
            self._cache[c] = (g.integers(0, 25, (144, n, n) if self.base else (144, n)), g.integers(0, 25, n))
        return self._cache[c]

    def load_tpm_with_duration(self, subgroup):
        p, lab, s0 = self.perms(subgroup)
        d, d0 = self.table(subgroup)
        self.requests.append(dict(subgroup))
        return perm_mats(p), np.eye(25)[d], lab.copy(), np.eye(len(lab))[s0], np.eye(25)[d0]


@S.scenario(40, 600, weight=6)
def individuals_calendar(ctx):
    labels = ['away', 'sleeping', 'work', 'tv'][:ctx.randint(3, 4)]
    refresh = ctx.choice([dt.time(4), dt.time(0)])
    opts = ctx.choice([{}, {'use_week_ends_days': True}, {'use_7days': True}, {'use_quarters': True},
                       {'use_week_sat_sun': True, 'use_quarters': True}])
    data = SemiData(ctx, labels, bool(ctx.rng.random() < .5), refresh)
    start = random_start(ctx)
    n = ctx.randint(1, 3)
    couple = bool(ctx.rng.random() < .6)
    sub = {'n_residents': 2, 'household_type': 2} if couple else {'n_residents': 1}
    steps = ctx.choice([40, 200, 320])
    ctx.case(labels=len(labels), refresh=str(refresh), opts=opts, start=str(start), n=n, couple=couple, steps=steps, salt=data.salt, both=data.base)
    sim = SubgroupsIndividualsActivitySimulator([sub], [n], subsimulator=SemiMarkovSimulator, data=data, start_datetime=start, **opts)
    sgs = [{'household_position': 1}, {'household_position': 2}] if couple else [{}]
    state = []
    for sg in sgs:
        _, lab, s0 = data.perms(sg)
        state.append([lab[s0], max(int(data.table(sg)[1][s0]), 1)])

    def advance(t):
        day = diary_day(t, refresh)
        slot = int((t - dt.datetime.combine(day, refresh)) / STEP)
        if slot == 0:
            ctx.event('refresh')
        key = day_key(day, opts) if opts else {}
        i = (slot + 1) % 144
        for st, sg in zip(state, sgs):
            st[1] -= 1
            ctx.event('transition_exact', n)
            if st[1] == 0:
                p, lab, _ = data.perms(dict(sg, **key))
                d, _ = data.table(dict(sg, **key))
                old = list(lab).index(st[0])
                new = p[i][old]
                st[0] = lab[new]
                st[1] = max(int(d[i][old][new] if data.base else d[i][new]), 1)
                ctx.event('episode', n)
    t = dt.datetime.combine(diary_day(start, refresh), refresh)
    while t < start:
        advance(t)
        t += STEP
    for k in range(steps + 1):
        for a in labels:
            want = sum(st[0] == a for st in state)
            if not ctx.eq(sim.get_n_doing_activity(a), np.full(n, want), 'trajectory', '%s %s' % (t, a)):
                return
        if k == steps:
            break
        advance(t)
        t += STEP
        sim.step()
        ctx.state(t.isoweekday(), t.hour, couple)


@S.scenario(12, 120, weight=4)
def shipped(ctx):
    """On the shipped time-use data every move is possible at its slot and no episode is shorter or longer than drawn."""
    from demod.datasets.GermanTOU.loader import GTOU
    data = GTOU(ctx.choice(['DemodActivities_0', 'DemodActivities_0', '4_States']))
    have = set(os.listdir(data.parsed_path_activity))
    sub = ctx.choice([s for s in ({'household_position': 1}, {'household_position': 2}, {'household_position': 3}, {'n_residents': 1})
                      if subgroup_string(s) + '_with_duration.npz' in have])
    tpm, dpdf, lab, p0, d0 = data.load_tpm_with_duration(sub)
    hh, steps = 60, 200
    ctx.case(sub=sub, hh=hh, steps=steps, k=ctx.randint(0, 10**9))
    sim = SemiMarkovSimulator(hh, len(lab), tpm, dpdf, labels=lab)
    sim.initialize_starting_state(p0, d0)
    cur = np.array(sim.current_states)
    ctx.check((p0[cur] > 0).all(), 'start-support')
    age = np.zeros(hh, int)
    born = np.full(hh, -1)
    frm = np.full(hh, -1)
    for k in range(steps):
        sim.step()
        new = np.array(sim.current_states)
        i = (k + 1) % len(tpm)
        moved = new != cur
        ctx.event('transition_exact', hh)
        ctx.check((tpm[i][cur[moved], new[moved]] > 0).all(), 'impossible-transition', 'slot %d' % i)
        for j in np.flatnonzero(moved):
            length = age[j] + 1
            if born[j] < 0:
                pdf = d0[cur[j]]
            else:
                pdf = dpdf[born[j], frm[j], cur[j]] if dpdf.ndim == 4 else dpdf[born[j], cur[j]]
            ok = length < len(pdf) and (pdf[length] > 0 or (length == 1 and pdf[0] > 0))
            # a self transition of positive probability may prolong an episode
            if not ok and (tpm[:, cur[j], cur[j]] > 0).any():
                ok = True
                ctx.event('prolonged')
            ctx.check(ok, 'impossible-duration', lambda: 'state %s slot %d length %d' % (lab[cur[j]], born[j], length))
            ctx.event('episode')
            born[j], frm[j], age[j] = i, cur[j], -1
        age += 1
        cur = new
        ctx.state('shipped', i)
