"""P29 load-profile metrics equal their definitions."""
import datetime as dt
import math

import numpy as np

from vlib.core import Spec
from demod.metrics import loads as ml
from demod.utils import converters as cv

S = Spec('P29', 'Random load profiles (integer and float watts, flat profiles, one household, one time step, explicit thresholds '
         'and bins); each metric recomputed by plain loops; non-trivial = distinct profiles.',
         required=['metric', 'histogram', 'rejected', 'one_dimensional', 'narrow_integers', 'long'])


def prof(ctx, n=None, T=None):
    if ctx.rng.random() < .04:
        a, b = ctx.choice([(300, 30), (2, 1440)])
        n, T = n or a, T or b
        ctx.event('large')
    n, T = n or ctx.randint(1, 8), T or ctx.randint(2, 30)
    if ctx.randint(0, 1):
        kind = ctx.choice([int, int, int, np.uint8, np.uint16, np.int16, np.int32, np.uint64])
        ctx.event('narrow_integers', kind is not int)
        return ctx.rng.integers(0, 4 if ctx.randint(0, 1) else 250 if kind is np.uint8 else 3000, (n, T)).astype(kind)
    return ctx.rng.gamma(.5, 500, (n, T)) * (ctx.rng.random((n, T)) < .8)


@S.scenario(300, 5000)
def totals(ctx):
    P = prof(ctx)
    n, T = P.shape
    if P.sum() == 0:
        P = P + 1
    if ctx.rng.random() < .25:      # of houses that also produce
        Q = P - ctx.rng.integers(0, 900, P.shape) * (ctx.rng.random(P.shape) < .3)
        if Q.sum(axis=0).max() > 1:
            P = Q
    step = dt.timedelta(seconds=ctx.choice([1, 60, 600, 900, 3600, .5]))
    ctx.case(P=P, step=step)
    keep = P.copy()
    ctx.close(ml.total_energy_consumed(P, step), [sum(float(v) * step.total_seconds() for v in r) for r in P], 'energy')
    ctx.close(ml.total_energy_consumed(P), [sum(float(v) * 60 for v in r) for r in P], 'energy-default-step')
    mx = max(sum(float(P[p, t]) for p in range(n)) for t in range(T))
    D = sum(float(max(float(v) for v in r)) for r in P) / mx
    ctx.close(ml.diversity_factor(P), D, 'diversity')
    ctx.check(ml.diversity_factor(P) >= 1 - 1e-9, 'diversity-at-least-one')
    ctx.close(ml.coincidence_factor(P), 1 / D, 'coincidence')
    ctx.close(ml.simultaneity_factor(P), 1 / D, 'simultaneity')
    ctx.close(ml.time_coincident_demand(P), mx / n, 'coincident-demand')
    ctx.eq(P, keep, 'input-kept')
    ctx.event('metric', 6)
    J = ctx.rng.normal(size=5) * 1e7
    ctx.close(cv.joules_to_kwh(J), J / 3600000, 'joules-to-kwh')
    ctx.close(cv.kwh_to_joules(cv.joules_to_kwh(J)), J, 'unit-round-trip')
    ctx.state(n, T, P.dtype.kind)


@S.scenario(300, 5000)
def duration_curve(ctx):
    P = prof(ctx)
    one = bool(ctx.randint(0, 2) == 0)
    if one:
        P = P[0]
        ctx.event('one_dimensional')
    th = None
    if ctx.randint(0, 1):
        th = list(ctx.rng.choice(np.r_[P.ravel(), ctx.rng.uniform(-10, 3500, 5)], ctx.randint(1, 8)))
    ctx.case(P=P, th=th)
    keep = P.copy()
    L, D = ml.load_duration(P, th) if th is not None else ml.load_duration(P)
    wl = sorted(th) if th is not None else sorted(set(P.ravel().tolist()))
    ctx.eq(P, keep, 'input-kept')
    ctx.close(L, wl, 'loads')
    R = P.reshape(1, -1) if one else P
    ctx.eq(D, np.array([[sum(v >= l for v in r) for l in wl] for r in R.tolist()]), 'durations')
    ctx.event('metric')


@S.scenario(12, 60)
def long_profiles(ctx):
    """Profiles of months of minutes, or of many households."""
    n, T = ctx.choice([(1, 525600), (2, 70000), (3, 140000), (700, 300)])
    levels = ctx.choice([2, 5, 9])
    P = ctx.rng.integers(0, levels, (n, T)).astype(ctx.choice([int, np.int32, np.uint16, float])) * ctx.choice([1, 100])
    P[:, 0] = 1
    ctx.case(n=n, T=T, levels=levels, kind=str(P.dtype), seed=ctx.randint(0, 10 ** 9))
    F = P.astype(float)
    L, D = ml.load_duration(P)
    wl = np.unique(F)
    ctx.close(L, wl, 'loads')
    ctx.eq(np.asarray(D).astype(int), np.array([[np.count_nonzero(r >= l) for l in wl] for r in F]), 'durations')
    ctx.close(ml.total_energy_consumed(P), [math.fsum(r) * 60 for r in F], 'energy')
    tot = np.array([math.fsum(c) for c in F.T]) if n < 10 or T < 1000 else F.sum(0)
    ctx.close(ml.diversity_factor(P), math.fsum(r.max() for r in F) / tot.max(), 'diversity')
    ctx.close(ml.time_coincident_demand(P), tot.max() / n, 'coincident-demand')
    C, edges = ml.cumulative_changes_in_demand(P, bins=10, normalize=False)
    ch = np.abs(np.diff(F, axis=1)).ravel()
    ctx.close(edges, np.linspace(0, ch.max(), 11), 'edges')
    inner = np.asarray(edges)[1:]
    off = np.min(np.abs(np.unique(ch)[:, None] - inner[None, :-1])) if ch.max() else 0
    if off > 1e-6 * max(1., ch.max()):
        ctx.close(C, [np.count_nonzero(ch <= e + 1e-9) / len(ch) for e in inner], 'changes')
    ctx.close(C[-1], 1., 'all-changes')
    ctx.event('long')


@S.scenario(300, 5000)
def changes(ctx):
    P = prof(ctx)
    if np.all(np.diff(P.astype(float), axis=1) == 0):
        P[0, 0] += 5
    norm, form = bool(ctx.randint(0, 1)), ctx.choice(['default', 'bins', 'edges'])
    ch = [abs(float(a) - float(b)) for r in P.tolist() for a, b in zip(r, r[1:])]
    m = max(ch)
    if norm:
        ch = [c / m for c in ch]
        m = 1.
    bins = ctx.randint(1, 40)
    kw, edges = {}, None
    if form == 'bins':
        kw['bins'] = bins
    elif form == 'edges':
        edges = np.r_[0, np.sort(ctx.rng.uniform(0, m, ctx.randint(0, 6))), m * ctx.choice([1, 1.0, 1.3])]
        kw['bin_edges'] = edges
    ctx.case(P=P, norm=norm, form=form, edges=edges, bins=bins)
    keep = P.copy()
    cdf, be = ml.cumulative_changes_in_demand(P, normalize=norm, **kw)
    ctx.eq(P, keep, 'input-kept')
    n = {'default': 100, 'bins': bins, 'edges': None if edges is None else len(edges) - 1}[form]
    if form != 'edges':
        edges = np.linspace(0, m, n + 1)
    ctx.close(be, edges, 'edges')
    ctx.event('histogram')
    if not ctx.eq(np.shape(cdf), (n,), 'cdf-length'):
        return
    ctx.close(cdf[-1], 1., 'cdf-ends-at-one')
    ctx.check(np.all(np.diff(cdf) >= -1e-12), 'cdf-increasing')
    tol = 1e-9 * m     # values on an edge may fall on either side
    for i in range(n):
        lo = sum(c < edges[i + 1] - tol for c in ch) / len(ch)
        hi = sum(c <= edges[i + 1] + tol for c in ch) / len(ch)
        if not ctx.check(lo - 1e-9 <= cdf[i] <= hi + 1e-9, 'cdf', lambda: (i, cdf[i], lo, hi)):
            break
    top = ctx.choice([.5, .9])
    ctx.raises(ValueError, lambda: ml.cumulative_changes_in_demand(P, normalize=norm, bin_edges=[0, m * top]), 'edges-too-small')
    lowest = min(ch)
    ctx.raises(ValueError, lambda: ml.cumulative_changes_in_demand(P, normalize=norm, bin_edges=[lowest + m * .1, m * 1.5 + 1]), 'edges-too-high')
    ctx.event('rejected', 2)


@S.scenario(150, 1500)
def similarity(ctx):
    T = ctx.randint(2, 12)
    A, B = prof(ctx, T=T).astype(float), prof(ctx, T=T).astype(float)
    ctx.case(A=A, B=B)
    eu = lambda x, y: sum((a - b) ** 2 for a, b in zip(x, y)) ** .5
    ci = lambda x, y: sum(abs(a - b) for a, b in zip(x, y))
    ctx.close(ml.profiles_similarity(A, B), [[eu(a, b) for b in B] for a in A], 'euclidean')
    ctx.close(ml.profiles_similarity(A, B, 'cityblock'), [[ci(a, b) for b in B] for a in A], 'metric-argument')
    ctx.close(ml.profiles_similarity(A, B, metric=ci), [[ci(a, b) for b in B] for a in A], 'callable-metric')
    if len(A) > 1:
        pairs = [eu(A[i], A[j]) for i in range(len(A)) for j in range(i + 1, len(A))]
        ctx.close(ml.profiles_variety(A), sum(pairs) / len(pairs), 'variety')
        ctx.close(ml.profiles_variety(A, average=False), pairs, 'variety-pairs')
        ctx.close(ml.profiles_variety(A, metric='cityblock'),
                  np.mean([ci(A[i], A[j]) for i in range(len(A)) for j in range(i + 1, len(A))]), 'variety-metric')
    ctx.event('metric', 3)
