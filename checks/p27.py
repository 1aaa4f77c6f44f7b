"""P27 statistics estimated from diaries equal direct counting."""
import json
from collections import Counter, defaultdict

import numpy as np
import pandas as pd

from vlib.core import Spec
from demod.utils import parse_helpers as ph

S = Spec('P27', 'Random diaries (1-12 persons, 2-20 times, 1-5 states, constant rows, unused labels, wrap-around episodes); '
         'a per-person loop recounts every transition and episode; non-trivial = distinct diary and options.',
         required=['transition', 'episode', 'tpm_row', 'unvisited_row', 'wrapped_episode', 'constant_diary', 'household_transition'])


def diaries(ctx, contiguous=True):
    n, T, k = ctx.randint(1, 12), ctx.randint(2, 20), ctx.randint(1, 5)
    if ctx.rng.random() < .04:      # many diaries, or long ones
        n, T = ctx.choice([(ctx.randint(260, 600), 12), (3, ctx.randint(260, 330))])
        ctx.event('large')
    stick = ctx.choice([0, .5, .9])
    X = ctx.rng.integers(0, k, (n, T))
    for t in range(1, T):
        m = ctx.rng.random(n) < stick
        X[m, t] = X[m, t - 1]
    if ctx.randint(0, 2) == 0:
        X[ctx.randint(0, n - 1)] = ctx.randint(0, k - 1)
    if contiguous:       # states 0..k-1 all used
        X = np.unique(X, return_inverse=True)[1].reshape(X.shape)
    X = X.astype(ctx.choice([int, int, int, np.uint8, np.int8, np.uint16, np.int32]))
    ctx.event('narrow_integers', X.dtype != int)
    return X, n, T, int(X.max()) + 1


def ref_transitions(X, ignore, same=False):
    """[(time, person, new, old)] by the definition."""
    out = []
    n, T = X.shape
    for t in range(T):
        for p in range(n):
            old = X[p, t - 1] if t else (X[p, 0] if ignore else X[p, -1])
            if same or old != X[p, t]:
                out.append((t, p, X[p, t], old))
    return out


def ref_durations(X, trans, ignore):
    n, T = X.shape
    per = defaultdict(list)
    for i, (t, p, new, old) in enumerate(trans):
        per[p].append(i)
    d = [0] * len(trans)
    for p, idx in per.items():
        for a, b in zip(idx, idx[1:]):
            d[a] = trans[b][0] - trans[a][0]
        last, first = trans[idx[-1]], trans[idx[0]]
        if first[3] == last[2]:      # the episode continues from the end to the start
            d[idx[-1]] = first[0] + T - last[0]
        else:
            d[idx[-1]] = 0 if ignore else T - last[0]
    return d


def rows(d, *names):
    return sorted(zip(*[np.asarray(d[n]).tolist() for n in names]))


@S.scenario(250, 4000)
def transitions(ctx):
    X, n, T, k = diaries(ctx)
    ignore, same, dur = (bool(ctx.randint(0, 1)) for _ in range(3))
    if same:
        dur = False
    text = bool(ctx.randint(0, 1)) and not same
    ctx.case(X=X, ignore=ignore, same=same, dur=dur, text=text)
    lab = np.array(['s%d' % i for i in range(k)])
    arg = lab[X] if text else X
    keep = arg.copy()
    got = ph.states_to_transitions(arg, return_duration=dur, include_same_state=same, ignore_end_start_transitions=ignore)
    ctx.eq(arg, keep, 'input-kept')
    want = ref_transitions(X, ignore, same)
    conv = (lambda s: str(lab[s])) if text else int
    ctx.event('transition', len(want))
    ctx.eq(sorted((a, b, str(c), str(d)) for a, b, c, d in rows(got, 'times', 'persons', 'new_states', 'old_states')) ==
           sorted((t, p, str(conv(a)), str(conv(b))) for t, p, a, b in want), True, 'transitions',
           (rows(got, 'times', 'persons', 'new_states', 'old_states')[:5], want[:5]))
    ctx.check(np.all(np.diff(got['times']) >= 0), 'chronological')
    if dur:
        wd = ref_durations(X, want, ignore)
        ctx.event('episode', len(wd))
        ctx.event('wrapped_episode', sum(d > T - w[0] for d, w in zip(wd, want)))
        key = {(w[0], w[1]): d for w, d in zip(want, wd)}
        g = {(t, p): d for t, p, d in rows(got, 'times', 'persons', 'durations')}
        ctx.check(g == key, 'durations', lambda: (g, key))
    ctx.state(n, T, k, len(want))


def ref_tpm(X, k, first):
    n, T = X.shape
    C = np.zeros((T, k, k))
    for t in range(T):
        for p in range(n):
            C[t, X[p, t - 1], X[p, t]] += 1
    if first == 'last':
        C[0] = C[-1]
    s = C.sum(axis=2)
    P = np.zeros_like(C)
    for t in range(T):
        for i in range(k):
            P[t, i] = C[t, i] / s[t, i] if s[t, i] else np.eye(k)[i]
    return P, s


@S.scenario(250, 4000)
def tpm(ctx):
    X, n, T, k = diaries(ctx, contiguous=ctx.rng.random() < .6)       # states that nobody is in
    first = ctx.choice(['last', 'nothing'])
    extra = ctx.randint(0, 2)
    labels = None if not extra and ctx.randint(0, 1) else ['l%d' % i for i in range(k + extra)]
    ctx.case(X=X, first=first, labels=labels)
    keep = X.copy()
    got = ph.states_to_tpms(X, first_tpm_modification_algo=first, labels=labels)
    ctx.eq(X, keep, 'input-kept')
    kk = len(labels) if labels else k
    want, s = ref_tpm(X, kk, first)
    ctx.event('tpm_row', T * kk)
    ctx.event('unvisited_row', int((s == 0).sum()))
    ctx.close(got, want, 'tpm')
    ctx.close(np.asarray(got).sum(axis=-1), np.ones((T, kk)), 'stochastic')
    ctx.raises(TypeError, lambda: ph.states_to_tpms(X, first_tpm_modification_algo='nope'), 'unknown-algorithm')


def to_pdf(C):
    out = np.zeros_like(C)
    for i in np.ndindex(C.shape[:-1]):
        if C[i].sum():
            out[i] = C[i] / C[i].sum()
        else:
            out[i + (0,)] = 1
    return out


@S.scenario(250, 4000)
def tpm_with_durations(ctx):
    X, n, T, k = diaries(ctx)
    first, ignore = ctx.choice(['last', 'nothing']), bool(ctx.randint(0, 1))
    extra = ctx.randint(0, 1)
    labels = list(range(k + extra)) if extra else None
    ctx.case(X=X, first=first, ignore=ignore, labels=labels)
    keep = X.copy()
    P, D, DP = ph.states_to_tpms_with_durations(X, first, labels, ignore)
    ctx.eq(X, keep, 'input-kept')
    K = k + extra
    tr = ref_transitions(X, ignore)
    du = ref_durations(X, tr, ignore)
    C, E, EP = np.zeros((T, K, K)), np.zeros((T, K, T + 1)), np.zeros((T, K, K, T + 1))
    for (t, p, new, old), d in zip(tr, du):
        C[t, old, new] += 1
        E[t, new, d] += 1
        EP[t, old, new, d] += 1
    if first == 'last':
        C[0], E[0], EP[0] = C[-1].copy(), E[-1].copy(), EP[-1].copy()
    for i in range(K):
        m = int(np.sum(np.all(X == i, axis=1)))
        ctx.event('constant_diary', m)
        C[0, i, i], E[0, i, T], EP[0, i, i, T] = m, m, m
    want = np.zeros_like(C)
    for t in range(T):
        for i in range(K):
            s = C[t, i].sum()
            want[t, i] = C[t, i] / s if s else np.eye(K)[i]
            ctx.event('unvisited_row', not s)
            ctx.event('tpm_row')
    ctx.close(P, want, 'tpm')
    ctx.close(D, to_pdf(E), 'durations')
    ctx.close(DP, to_pdf(EP), 'durations-with-previous')
    ctx.event('episode', len(tr))


@S.scenario(200, 3000)
def initial_durations(ctx):
    X, n, T, k = diaries(ctx)
    X = X[:, :]
    ctx.case(X=X)
    got = ph.get_initial_durations_pdfs(X)
    C = np.zeros((k, T + 1))
    for p in range(n):
        d = 0
        while d < T and X[p, d] == X[p, 0]:
            d += 1
        C[X[p, 0], d if d < T else T] += 1
    ctx.event('episode', n)
    ctx.close(got, to_pdf(C), 'initial-durations')


@S.scenario(150, 1500)
def counts(ctx):
    shape = ctx.choice([(3, 4), (2, 3, 5), (1, 6), (1, 1)])
    C = ctx.rng.integers(0, 4, shape).astype(float) * (ctx.rng.random(shape) < .6)
    ctx.case(C=C)
    given = C.copy()
    got = ph.counts_to_pdf(given, ensure_valid_pdf=True)
    ctx.close(got, to_pdf(C), 'pdf')
    ctx.eq(given, C, 'counts-modified')
    raw = ph.counts_to_pdf(C.copy(), ensure_valid_pdf=False)
    s = C.sum(axis=-1)
    ctx.check(np.all(np.isnan(raw[s == 0])), 'empty-is-nan')
    ctx.close(raw[s > 0], to_pdf(C)[s > 0], 'pdf-raw')
    ctx.event('unvisited_row', int((s == 0).sum()))
    ctx.event('tpm_row', int(s.size))


@S.scenario(120, 1500)
def households(ctx):
    X, n, T, k = diaries(ctx)
    X2 = np.where(ctx.rng.random(X.shape) < .5, X + 10, ctx.rng.integers(0, k, X.shape))
    hh, day = ctx.rng.integers(100, 103, n), ctx.rng.integers(1, 3, n)
    sec = bool(ctx.randint(0, 1))
    ctx.case(X=X, X2=X2 if sec else None, hh=hh, day=day)
    got = ph.group_hh_transitions(X, hh, day, X2 if sec else None)
    want = Counter()
    if not sec:
        for t, p, new, old in ref_transitions(X, False):
            want[(t, hh[p], day[p], new, old)] += 1
    else:
        for t in range(T):
            for p in range(n):
                op, os_ = (X[p, max(t - 1, 0)], X2[p, max(t - 1, 0)])
                a, b = X[p, t], X2[p, t]
                if op not in (a, b):
                    want[(t, hh[p], day[p], a, op)] += 1
                if os_ not in (a, b):
                    want[(t, hh[p], day[p], b, os_)] += 1
    ctx.event('household_transition', sum(want.values()))
    g = rows(got, 'times', 'households', 'day_nrs', 'new_states', 'old_states', 'counts')
    ctx.check(g == sorted(tuple(int(x) for x in key) + (c,) for key, c in want.items()), 'household-transitions',
              lambda: (g[:6], sorted(want.items())[:6]))


def nested(ctx, depth):
    """Anything that may be saved, with what json should read."""
    r = ctx.randint(0, 13 if depth else 7)
    x = ctx.randint(-5, 300)
    if r <= 7:
        return [(x, x), (x / 7., x / 7.), ('v %d' % x, 'v %d' % x), (None, None), (np.int32(x), x), (np.float64(x / 3.), x / 3.), (np.bool_(x > 99), x > 99),
                (np.str_('s%d' % x), 's%d' % x)][r]
    if r == 8:
        a = ctx.rng.integers(0, 9, (2, ctx.randint(0, 3)))
        return a, a.tolist()
    if r == 9:
        a = np.array(['u%d' % i for i in range(ctx.randint(0, 3))])
        return a, a.tolist()
    if r == 10:
        a = [ctx.rng.random() < .5 for _ in range(3)]
        return np.array(a), [bool(v) for v in a]
    items = [nested(ctx, depth - 1) for _ in range(ctx.randint(0, 4))]
    if r == 11:
        return {'k%d' % i: a for i, (a, _) in enumerate(items)}, {'k%d' % i: b for i, (_, b) in enumerate(items)}
    return (list if r == 12 else tuple)(a for a, _ in items), [b for _, b in items]


@S.scenario(150, 1500)
def conversions(ctx):
    raw = ctx.rng.integers(0, 9, (ctx.randint(1, 5), ctx.randint(1, 9)))
    kind = ctx.choice(['none', 'dict', 'array'])
    merge = {i: ['a', 'b', 'z', 'c'][i % ctx.choice([2, 3, 4])] for i in range(9)}
    ctx.case(raw=raw, kind=kind, merge=merge)
    arg = None if kind == 'none' else merge if kind == 'dict' else np.array([merge[i] for i in range(9)])
    st, lab = ph.convert_states(raw, arg)
    want = raw if kind == 'none' else np.vectorize(lambda x: merge[x])(raw)
    ctx.eq(np.asarray(lab)[st], want, 'labels-of-states')
    ctx.eq(list(lab), sorted(set(want.ravel().tolist())), 'labels-unique')
    ctx.eq(ph.translate_1d(raw[0], merge), [merge[x] for x in raw[0]], 'translate')
    obj, plain = nested(ctx, 3)
    text = json.dumps(ph.make_jsonable(obj), sort_keys=True)
    ctx.eq(text, json.dumps(plain, sort_keys=True), 'json')
    obj = {'a': np.arange(3), 'b': [np.float64(1.5), {'c': np.array([[1, 2], [3, 4]])}, 'x y', None], 3: np.int64(4), 's': pd.Series([1, 2])}
    ctx.check(ph.make_jsonable(obj) == {'a': [0, 1, 2], 'b': [1.5, {'c': [[1, 2], [3, 4]]}, 'x y', None], 3: 4, 's': [1, 2]}, 'jsonable',
              lambda: ph.make_jsonable(obj))
    ctx.raises(NotImplementedError, lambda: ph.make_jsonable({1, 2}), 'jsonable-unknown')
    sp = ph.remove_spaces({'a b': ['c d', {'e ': ' f g'}], 'n': 3.5, 'l': ['x', 1]})
    ctx.check(sp == {'ab': ['cd', {'e': 'fg'}], 'n': 3.5, 'l': ['x', 1]}, 'no-spaces', lambda: sp)
    back = ph.lists_to_numpy_array({'a': [1, 2], 'b': {'c': [.5]}, 'd': 'e'})
    ctx.check(isinstance(back['a'], np.ndarray) and isinstance(back['b']['c'], np.ndarray) and back['d'] == 'e' and
              back['a'].tolist() == [1, 2] and back['b']['c'].tolist() == [.5], 'to-arrays', lambda: back)
    shape = ctx.choice([4, 4, 1, 90]), ctx.choice([6, 1, 40])
    bulbs = np.where(ctx.rng.random(shape) < .6, ctx.rng.choice([20., 40., 60.], shape), ctx.choice([0., np.nan]))
    bulbs[0, 0] = 40.
    (m, sd), (cons, pen) = ph.bulbs_stats_from_config(bulbs)
    n = np.array([sum(1 for v in r if v > 0) for r in bulbs])
    c = Counter(v for r in bulbs for v in r if v > 0)
    ctx.close([m, sd], [n.mean(), n.std()], 'bulbs-per-house')
    ctx.close(cons, sorted(c), 'bulb-powers')
    ctx.close(pen, [c[v] / sum(c.values()) for v in sorted(c)], 'bulb-shares')
