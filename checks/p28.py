"""P28 state-pattern metrics equal their definitions."""
from collections import Counter, defaultdict

import numpy as np

from vlib.core import Spec
from demod.metrics import states as ms
from demod.metrics.errors import RMSE

S = Spec('P28', 'Random state patterns (constant rows, wrap-around episodes, one row or time, strings, states absent in one set); '
         'each metric is recomputed from its definition by plain loops; non-trivial = distinct patterns.',
         required=['episode', 'wrapped_episode', 'constant_pattern', 'absent_state', 'edit_distance', 'metric', 'narrow_integers'])


def pat(ctx, n=None, T=None, k=None):
    n_, T_ = n, T
    n, T, k = n or ctx.randint(1, 9), T or ctx.randint(1, 24), k or ctx.randint(1, 5)
    if ctx.rng.random() < .03:      # many diaries, or minutes of a day
        n, T = ctx.choice([(n if n_ else ctx.randint(260, 600), T if T_ else min(T, 12)), (n if n_ else min(n, 3), T if T_ else ctx.randint(260, 1440))])
        ctx.event('large')
    stick = ctx.choice([0, .6, .95])
    X = ctx.rng.integers(0, k, (n, T))
    for t in range(1, T):
        m = ctx.rng.random(n) < stick
        X[m, t] = X[m, t - 1]
    X = X.astype(ctx.choice([int, int, int, np.uint8, np.int8, np.uint16, np.int32]))
    ctx.event('narrow_integers', X.dtype != int)
    return X


def episodes(row):
    """Cyclic run lengths: [(state, length)]."""
    T = len(row)
    b = [t for t in range(T) if row[t] != row[t - 1]]
    if not b:
        return [(row[0], T)]
    return [(row[s], (e - s) % T or T) for s, e in zip(b, b[1:] + b[:1])]


@S.scenario(400, 6000)
def durations(ctx):
    X = pat(ctx)
    text = bool(ctx.randint(0, 1))
    A = np.array(['aa', 'b', 'cc', 'd', 'e'])[X] if text else X
    ctx.case(X=X, text=text)
    keep = A.copy()
    d, s = ms.get_states_durations(A)
    ctx.eq(A, keep, 'input-kept')
    want = [e for r in A for e in episodes(r.tolist())]
    ctx.event('episode', len(want))
    ctx.event('constant_pattern', sum(len(set(r.tolist())) == 1 for r in A))
    ctx.event('wrapped_episode', sum(r[0] == r[-1] and len(set(r.tolist())) > 1 for r in A))
    ctx.check(Counter(zip(np.asarray(s).tolist(), np.asarray(d).tolist())) == Counter(want), 'episodes',
              lambda: (list(zip(s.tolist(), d.tolist())), want))
    ctx.eq(int(np.sum(d)), A.size, 'durations-cover-everything')
    by = ms.get_durations_by_states(A)
    w = defaultdict(list)
    for st, L in want:
        w[st].append(L)
    ctx.check({str(k): sorted(np.asarray(v).tolist()) for k, v in by.items()} == {str(k): sorted(v) for k, v in w.items()},
              'by-state', lambda: by)
    c = ms.count(A)
    ctx.check({str(a): int(b) for a, b in c} == {str(a): b for a, b in Counter(A.ravel().tolist()).items()}, 'count', lambda: c)
    ctx.state(X.shape, len(want))


@S.scenario(250, 4000)
def comparisons(ctx):
    T = ctx.randint(1, 20)
    X, Y = pat(ctx, T=T), pat(ctx, T=T)
    ctx.case(X=X, Y=Y)
    err = np.array([abs(sum(X[:, t].tolist()) / len(X) - sum(Y[:, t].tolist()) / len(Y)) for t in range(T)])
    ctx.close(ms.average_state_metric(X, Y), err.mean(), 'average-state')
    ctx.close(ms.average_state_metric(X, Y, average_over_timestep=False), err, 'average-state-per-time')
    ctx.close(ms.average_state_metric(Y, X), err.mean(), 'average-state-symmetric')
    full = ms.state_duration_distribution_metric(X, Y, average_over_timestep=False)
    mean = ms.state_duration_distribution_metric(X, Y)
    ex, ey = [e for r in X.tolist() for e in episodes(r)], [e for r in Y.tolist() for e in episodes(r)]
    sx, sy = {s for s, _ in ex}, {s for s, _ in ey}
    ctx.event('absent_state', len(sx ^ sy))
    ctx.event('metric')
    if not ctx.check(set(full) == sx | sy and set(mean) == sx | sy, 'states-compared', lambda: (full, sx, sy)):
        return
    for st in sx | sy:
        def cdf(ep):
            L = [d for s, d in ep if s == st]
            return np.array([sum(d <= t for d in L) / len(L) if L else 0. for t in range(T + 1)])
        e = np.abs(cdf(ex) - cdf(ey))
        ctx.close(full[st], e, 'duration-distribution')
        ctx.close(mean[st], e.mean(), 'duration-distribution-mean')
    same = ms.state_duration_distribution_metric(X, X)
    ctx.check(all(abs(v) < 1e-12 for v in same.values()), 'identical-is-zero')
    a, b = ctx.rng.normal(size=T), ctx.rng.normal(size=T)
    if ctx.randint(0, 1):
        a, b = (ctx.rng.integers(0, 120, T).astype(ctx.choice([np.uint8, np.int8, np.uint16, np.int32, int, np.uint64])) for _ in 'ab')
    ctx.close(RMSE(a, b), (sum((x - y) ** 2 for x, y in zip(a.tolist(), b.tolist())) / T) ** .5, 'rmse')
    ctx.close(RMSE(a, a), 0., 'rmse-zero')
    shape = ctx.choice([(4,), (3, 2, 2), (2, 5)])
    P = ctx.rng.random(shape) * (ctx.rng.random(shape) < .5)
    ctx.close(ms.sparsity(P), sum(v == 0 for v in P.ravel()) / P.size, 'sparsity')


def lev(a, b):
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[-1] + 1, prev[j - 1] + (x != y)))
        prev = cur
    return prev[-1]


@S.scenario(200, 3000)
def edit_distance(ctx):
    a, b = (ctx.rng.integers(0, ctx.choice([2, 4, 10]), ctx.randint(1, 30)) for _ in 'ab')
    ctx.case(a=a, b=b)
    ctx.eq(ms.levenshtein_edit_distance(a, b), lev(a.tolist(), b.tolist()), 'distance')
    ctx.eq(ms.levenshtein_edit_distance(b, a), ms.levenshtein_edit_distance(a, b), 'symmetric')
    ctx.eq(ms.levenshtein_edit_distance(a, a), 0, 'identity')
    ctx.event('edit_distance')


@S.scenario(200, 3000)
def graph(ctx):
    X = pat(ctx, T=ctx.randint(2, 15))
    n, T = X.shape
    ctx.case(X=X)
    size, density, centrality, homophily = ms.graph_metrics(X)
    nodes = {(t, X[p, t]) for p in range(n) for t in range(T)}
    edges = Counter((t, X[p, t - 1], X[p, t]) for p in range(n) for t in range(T))
    ctx.eq(size, len(nodes), 'network-size')
    ctx.close(centrality, sum(edges.values()) / len(edges), 'centrality')
    ctx.close(homophily, sum(c for (t, a, b), c in edges.items() if a == b) / (n * T), 'homophily')
    ctx.check(density > 0, 'density-positive')
    ctx.check(density <= 1 + 1e-12, 'density-at-most-one', lambda: density)
    ns = len({s for _, s in nodes})
    ctx.close(density * (T - 1) * ns ** 2, len(edges), 'density-numerator')
    ctx.event('metric')
