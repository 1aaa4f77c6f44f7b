"""P10 the sparse transition-probability store behaves as the dense one it stands for."""
import os
import warnings

import numpy as np

from vlib.core import Spec
from vlib.stats import fixed_draws, gof, rand_pdf, ALPHA
from demod.simulators import sparse_simulators
from demod.simulators.base_simulators import SimLogger
from demod.simulators.sparse_simulators import SparseStatesSimulator
from demod.utils.sparse import SparseTPM

S = Spec('P10', 'Random sparse transition sets (unsorted entries, unused trailing states or times, dead states), edit sequences, '
         'save/load cycles; every operation is mirrored on a dense array; non-trivial = distinct matrix and operations.',
         required=['transition', 'read', 'write', 'roundtrip', 'dead_state', 'rejected', 'beside_dead', 'hostile_draw', 'simulated', 'decoded', 'restarted', 'whole_numbers'])


def dense(ctx, nt, ns, dead=False, density=.5):
    D = np.zeros((nt, ns, ns))
    for t in range(nt):
        for s in range(ns):
            D[t, s] = rand_pdf(ctx.rng, ns, zeros=1 - density, degenerate=.2)
    if dead:
        t = ctx.randint(0, nt - 1)
        for s in ctx.rng.choice(ns, ctx.randint(1, max(1, ns - 1)), replace=False):
            D[t, s] = 0
    return D


def certain(ctx, nt, ns):
    D = np.zeros((nt, ns, ns))
    t, s = np.indices((nt, ns))
    D[t, s, ctx.rng.integers(0, ns, (nt, ns))] = 1
    return D


def sparse(ctx, D, **kw):
    t, i, j = np.nonzero(D)
    v = D[t, i, j]
    order = np.arange(len(t))
    if ctx.randint(0, 1):
        order = ctx.rng.permutation(len(t))
    if np.all(v == 1) and ctx.randint(0, 1):   # certain moves, given as whole numbers
        v = v.astype(int)
        ctx.event('whole_numbers')
    return SparseTPM(t[order], i[order], j[order], v[order], **kw)


def same(ctx, tpm, D, key):
    for t in range(len(D)):
        ctx.event('read')
        if not ctx.eq(tpm[t], D[t], key, t):
            return False
    return True


@S.scenario(200, 3000)
def indexing(ctx):
    nt, ns = ctx.randint(1, 6), ctx.randint(1, 7)
    D = dense(ctx, nt, ns)
    if ctx.randint(0, 3) == 0:
        D = certain(ctx, nt, ns)
    explicit = bool(ctx.randint(0, 1))
    ops = ctx.randint(1, 12)
    ctx.case(nt=nt, ns=ns, D=D, explicit=explicit, ops=ops, seed=ctx.randint(0, 9**9))
    tpm = sparse(ctx, D, **(dict(n_states=ns, n_times=nt) if explicit else {}))
    if not explicit:
        ns2 = 1 + max(np.nonzero(D)[1].max(), np.nonzero(D)[2].max())
        ctx.eq(tpm.n_states, ns2, 'inferred-states')
        if ns2 < ns:
            return
    ctx.eq(tuple(tpm.shape), (nt, ns, ns), 'shape')
    ctx.eq((tpm.n_times, tpm.n_states), (nt, ns), 'sizes')
    same(ctx, tpm, D, 'getitem')
    for op in range(ops):
        t = ctx.randint(-2 * nt, 2 * nt)
        if ctx.randint(0, 1):
            new = dense(ctx, 1, ns)[0]
            if ctx.randint(0, 3) == 0:
                new = np.zeros((ns, ns))
            tpm[t] = new
            D[t % nt] = new
            ctx.event('write')
            same(ctx, tpm, D, 'after-setitem')
        else:
            ctx.eq(tpm[t], D[t % nt], 'periodic-index', t)
    it = [m for m in tpm]
    ctx.eq(len(it), nt, 'iteration-length')
    ctx.eq(np.array(it), D, 'iteration')
    ctx.eq(np.array([m for m in tpm]), D, 'iteration-restarts')
    ctx.raises(ValueError, lambda: tpm.__setitem__(0, np.ones((ns + 1, ns + 1))), 'set-wrong-size')
    ctx.raises(TypeError, lambda: tpm['a'], 'get-type')
    same(ctx, tpm, D, 'after-rejection')
    ctx.state(nt, ns, ops)


@S.scenario(220, 3000)
def sampling(ctx):
    nt, ns = ctx.randint(1, 4), ctx.choice([1, 2, 4, 8, 30])
    D = dense(ctx, nt, ns, density=ctx.choice([.15, .5, 1.]))
    n = ctx.choice([1, 10, 20000])
    time = ctx.randint(-nt, 3 * nt)
    ctx.case(nt=nt, ns=ns, n=n, time=time, D=D)
    tpm = sparse(ctx, D, n_states=ns, n_times=nt)
    if ctx.randint(0, 2) == 0:      # edited store
        if ctx.randint(0, 2) == 0:
            D = certain(ctx, nt, ns)
            tpm = sparse(ctx, D, n_states=ns, n_times=nt)
        t = ctx.randint(0, nt - 1)
        D[t] = dense(ctx, 1, ns)[0]
        tpm[t] = D[t]
    states = ctx.rng.integers(0, ns, n)
    if ctx.randint(0, 2) == 0:
        states = np.full(n, ctx.randint(0, ns - 1))
    keep = states.copy()
    out = tpm.sparse_monte_carlo(time, states)
    ctx.eq(states, keep, 'states-kept')
    ctx.eq(np.shape(out), (n,), 'shape')
    P = D[time % nt]
    ctx.event('transition', n)
    ctx.check(np.all(P[keep, out] > 0), 'impossible-transition',
              lambda: [(int(a), int(b)) for a, b in zip(keep, out) if P[a, b] <= 0][:5])
    if n > 1000:
        for s in np.unique(keep):
            c = np.bincount(np.asarray(out)[keep == s].astype(int), minlength=ns)
            ctx.check(gof(c, P[s]) > ALPHA, 'frequency', lambda: (int(s), c.tolist(), P[s].tolist()))
    ctx.state(nt, ns, n)


@S.scenario(100, 1000)
def dead_states(ctx):
    """A state with no way out continues as the declared replacement state."""
    nt, ns = ctx.randint(1, 3), ctx.randint(2, 8)
    D = dense(ctx, nt, ns)
    t = ctx.randint(0, nt - 1)
    repl = ctx.randint(0, ns - 1)
    dead = [s for s in range(ns) if s != repl and ctx.randint(0, 1)]
    for s in dead:
        D[t, s] = 0
    n = ctx.choice([5, 4000])
    ctx.case(nt=nt, ns=ns, t=t, repl=repl, dead=dead, n=n, D=D)
    tpm = sparse(ctx, D, n_states=ns, n_times=nt, dead_state_value=repl)
    states = ctx.rng.integers(0, ns, n)
    keep = states.copy()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = tpm.sparse_monte_carlo(t, states)
    has_dead = bool(np.isin(keep, dead).any())
    ctx.event('dead_state', has_dead)
    ctx.eq(bool(w), has_dead, 'dead-state-announced')
    ctx.eq(states, keep, 'states-kept')
    eff = np.where(np.isin(keep, dead), repl, keep)
    P = D[t]
    ctx.check(np.all(P[eff, out] > 0), 'impossible-transition')
    if n > 1000:
        for s in np.unique(keep):
            e = repl if s in dead else s
            c = np.bincount(np.asarray(out)[keep == s].astype(int), minlength=ns)
            ctx.check(gof(c, P[e]) > ALPHA, 'frequency', lambda: (int(s), c.tolist()))


@S.scenario(60, 800)
def unreplaced(ctx):
    """A state with no way out and no replacement does not disturb the other states."""
    nt, ns = ctx.randint(1, 3), ctx.randint(2, 8)
    D = dense(ctx, nt, ns)
    t = ctx.randint(0, nt - 1)
    dead = [s for s in range(ns) if ctx.rng.random() < .4][:ns - 1]
    D[t, dead] = 0
    n = 4000
    ctx.case(nt=nt, ns=ns, t=t, dead=dead, D=D)
    tpm = sparse(ctx, D, n_states=ns, n_times=nt)
    states = ctx.rng.integers(0, ns, n)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = np.asarray(tpm.sparse_monte_carlo(t, states))
    ctx.eq(bool(w), bool(dead), 'dead-state-announced')
    alive = ~np.isin(states, dead)
    ctx.check((D[t][states[alive], out[alive]] > 0).all(), 'disturbed-by-dead')
    for s in np.unique(states[alive]):
        c = np.bincount(out[states == s].astype(int), minlength=ns)
        ctx.check(gof(c, D[t, s]) > ALPHA, 'frequency-beside-dead', lambda: (int(s), c.tolist(), D[t, s].tolist()))
    ctx.event('beside_dead', alive.sum() if dead else 0)


@S.scenario(80, 1000)
def hostile_draws(ctx):
    """The lowest and the highest draw there is stay among the possible transitions."""
    nt, ns = ctx.randint(1, 3), ctx.choice([2, 3, 8, 30])
    D = dense(ctx, nt, ns, density=ctx.choice([.15, .5, 1.]))
    t, n = ctx.randint(0, nt - 1), 60
    draw = ctx.choice([0., 5e-324, 2. ** -53, 1. - 2. ** -53, 1. - 1e-12])
    ctx.case(nt=nt, ns=ns, t=t, draw=draw, D=D)
    tpm = sparse(ctx, D, n_states=ns, n_times=nt)
    states = ctx.rng.integers(0, ns, n)
    with fixed_draws(draw):
        out = np.asarray(tpm.sparse_monte_carlo(t, states))
    ctx.check((D[t][states, out] > 0).all(), 'impossible-at-the-edge',
              lambda: 'draw %r: %s' % (draw, [(int(a), int(b)) for a, b in zip(states, out) if D[t][a, b] <= 0][:5]))
    ctx.event('hostile_draw', n)


@S.scenario(120, 1000)
def roundtrip(ctx):
    nt, ns = ctx.randint(1, 6), ctx.randint(1, 7)
    D = dense(ctx, nt, ns, dead=bool(ctx.randint(0, 1)))
    if ctx.randint(0, 2) == 0 and ns > 1:       # last state never used
        D[:, -1, :] = 0
        D[:, :, -1] = 0
    if ctx.randint(0, 2) == 0 and nt > 1:       # last time empty
        D[-1] = 0
    if not D.any():
        D[0, 0, 0] = 1
    dead = ctx.choice([None, 0, ns - 1])
    ctx.case(nt=nt, ns=ns, dead=dead, D=D)
    tpm = sparse(ctx, D, n_states=ns, n_times=nt, dead_state_value=dead)
    path = os.path.join(ctx.tmpdir(), 'x')
    tpm.save(path)
    back = SparseTPM.load(path)
    ctx.event('roundtrip')
    ctx.eq((back.n_times, back.n_states), (nt, ns), 'sizes')
    ctx.eq(tuple(back.shape), (nt, ns, ns), 'shape')
    ctx.eq(back.dead_state_value is None, dead is None, 'dead-state')
    if dead is not None:
        ctx.eq(back.dead_state_value, dead, 'dead-state')
    same(ctx, back, D, 'content')


@S.scenario(80, 800)
def simulators(ctx):
    """A simulator built on a sparse store starts from its distribution and follows its matrices, day after day."""
    nt, ns = ctx.choice([1, 2, 3, 5]), ctx.choice([1, 2, 4, 9])
    D = dense(ctx, nt, ns, density=ctx.choice([.3, .7, 1.]))
    pdf = rand_pdf(ctx.rng, ns, zeros=.4)
    n = ctx.choice([1, 7, 4000])
    labels = None if ctx.randint(0, 2) == 0 else ctx.rng.permutation(40)[:ns] * 10
    steps = ctx.randint(1, 3 * nt + 1)
    ctx.case(nt=nt, ns=ns, n=n, D=D, pdf=pdf, labels=labels, steps=steps)
    log = SimLogger('current_states', aggregated=False)
    sim = SparseStatesSimulator(n, sparse(ctx, D, n_states=ns, n_times=nt), pdf, **({} if labels is None else {'labels': labels}), logger=log)
    ctx.eq(list(sim.state_labels), list(range(ns) if labels is None else labels), 'labels')
    hist = [np.array(sim.current_states)]
    for _ in range(steps):
        sim.step()
        hist.append(np.array(sim.current_states))
    ctx.eq(np.asarray(sim.logger.get('current_states')), np.array(hist[:-1]), 'recorded')
    ctx.check(all(h.shape == (n,) for h in hist), 'shape')
    ctx.check(np.all(pdf[hist[0]] > 0), 'impossible-start')
    if n > 1000:
        ctx.check(gof(np.bincount(hist[0], minlength=ns), pdf) > ALPHA, 'start-frequency')
    for t in range(steps):
        P, a, b = D[t % nt], hist[t], hist[t + 1]
        ctx.event('simulated', n)
        ctx.check(np.all(P[a, b] > 0), 'impossible-simulated', t)
        if n > 1000:
            for s in np.unique(a):
                ctx.check(gof(np.bincount(b[a == s], minlength=ns), P[s]) > ALPHA, 'simulated-frequency', t)
    # starting again, with the default verifications
    again = rand_pdf(ctx.rng, ns, zeros=.4)
    k = ctx.randint(0, nt)
    sim.initialize_starting_state(again, **ctx.choice([{}, {'checkcdf': True}, {'checkcdf': False}]), start_time_step=0)
    ctx.eq(sim.current_time_step, 0, 'restarted-clock')
    ctx.check(np.all(again[sim.current_states] > 0), 'impossible-restart')
    fresh = [np.array(sim.current_states)]
    for t in range(k):
        sim.step()
        fresh.append(np.array(sim.current_states))
        ctx.check(np.all(D[t % nt][fresh[t], fresh[t + 1]] > 0), 'impossible-after-restart', t)
    ctx.event('restarted')
    hist.append(np.array(sim.current_states))
    bad = D.copy()
    i = np.unravel_index(ctx.choice(np.flatnonzero(bad > .1)), bad.shape)
    bad[i] *= ctx.choice([.5, 1.5, 1.001])
    wrong = SparseStatesSimulator(n, sparse(ctx, bad, n_states=ns, n_times=nt), pdf)
    ctx.raises(ValueError, lambda: wrong.initialize_starting_state(again), 'unnormalised-refused')
    ctx.raises(ValueError, lambda: wrong.initialize_starting_state(again, checkcdf=True), 'unnormalised-refused')
    names = np.array(['sleep', 'active', 'HWH', 'HOH', 'cook', 'tv', 'iron', 'wash', 'elec'])[:ctx.randint(1, 9)]
    digits = ctx.rng.integers(0, 7, (ns, len(names)))
    size = sparse_simulators.MAX_PEOPLE_HOUSEHOLD
    sim.assign_sparse_tpm_and_labels(sparse(ctx, D, n_states=ns, n_times=nt), digits @ (size ** np.arange(len(names))))
    sim.activity_labels = names
    for k, name in enumerate(names):
        want = digits[hist[-1], k]
        ctx.eq(np.asarray(sim.get_n_doing_state(k)), want, 'doing-number')
        ctx.eq(np.asarray(sim.get_n_doing_state(str(name))), want, 'doing-name')
        ctx.eq(np.asarray(sim.get_n_doing_activity(str(name))), want, 'doing-activity')
        ctx.event('decoded')
    both = sim.get_n_doing_state([str(n_) for n_ in names])
    ctx.eq(np.asarray(both), digits[hist[-1]].T, 'doing-list')
    ctx.raises(ValueError, lambda: sim.get_n_doing_state('unknown'), 'doing-unknown')
    ctx.raises(TypeError, lambda: sim.get_n_doing_state(1.5), 'doing-type')
    ctx.raises(TypeError, lambda: SparseStatesSimulator(n, D, pdf), 'dense-refused')
    ctx.raises(ValueError, lambda: SparseStatesSimulator(n, sparse(ctx, D, n_states=ns, n_times=nt), pdf, labels=list(range(ns + 1))), 'labels-refused')
    ctx.raises(AssertionError, lambda: SparseStatesSimulator(n, sparse(ctx, D, n_states=ns, n_times=nt), np.append(pdf, 0.)), 'start-refused')
    ctx.event('refused')
    ctx.state(nt, ns, n, steps)


@S.scenario(40, 300)
def lengths(ctx):
    L = [ctx.randint(1, 9)] * 4
    k = ctx.randint(0, 3)
    L[k] = L[k] + ctx.choice([d for d in (-1, 1, 2, 4, 8) if L[k] + d > 0])
    ctx.case(L=L)
    a = [np.zeros(n, dtype=int) for n in L[:3]] + [np.ones(L[3])]
    ctx.raises(ValueError, lambda: SparseTPM(*a), 'length-mismatch')
    ctx.event('rejected')
