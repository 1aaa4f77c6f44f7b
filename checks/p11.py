"""P11 population sampling: exactly the requested number, closest to the distribution."""
import numpy as np

from vlib.core import Spec
from vlib.stats import gof, rand_pdf, ALPHA
from demod.simulators.util import sample_population

S = Spec('P11', 'Random shares (exact zeros, certain groups, ties) and sample sizes for both algorithms; '
         'non-trivial = distinct (shares, size, algorithm).',
         required=['quota_sample', 'random_sample', 'rejected'])


@S.scenario(400, 8000)
def quota(ctx):
    m, n = ctx.choice([1, 2, 3, 5, 20, 60]), ctx.choice([1, 2, 3, 10, 11, 97, 1000, 12345])
    pdf = rand_pdf(ctx.rng, m)
    if ctx.randint(0, 3) == 0:
        pdf = np.full(m, 1. / m)
    ctx.case(pdf=pdf, n=n)
    keep = pdf.copy()
    got = sample_population(n, pdf) if ctx.randint(0, 1) else sample_population(n, pdf, population_sampling_algo='real_population')
    ctx.event('quota_sample')
    ctx.eq(pdf, keep, 'input-kept')
    if not ctx.eq(np.shape(got), (m,), 'one-count-per-group'):
        return
    ctx.eq(int(np.sum(got)), n, 'total')
    ctx.check(np.all(got >= 0), 'non-negative')
    # evenly spaced quantiles: within one individual of the share of n - 1 intervals (plus the borders)
    ctx.check(np.all(np.abs(got - pdf * n) <= 2 + 1e-6), 'proportional', lambda: (got.tolist(), (pdf * n).tolist()))
    cum = np.abs(np.cumsum(got) - np.cumsum(pdf) * n)
    ctx.check(np.all(cum <= 1 + 1e-6), 'cumulated-proportional', lambda: cum.tolist())
    first = int(np.argmax(pdf > 0))
    z = (pdf == 0)
    ctx.check(not np.any(np.asarray(got)[z]), 'empty-group', lambda: (got.tolist(), pdf.tolist()))
    ctx.eq(sample_population(n, pdf), got, 'deterministic')
    ctx.state(m, n, first)


@S.scenario(200, 3000)
def random(ctx):
    m, n = ctx.choice([1, 2, 5, 20]), ctx.choice([1, 10, 5000, 50000])
    pdf = rand_pdf(ctx.rng, m)
    ctx.case(pdf=pdf, n=n)
    got = sample_population(n, pdf, population_sampling_algo='monte_carlo')
    ctx.event('random_sample')
    if not ctx.eq(np.shape(got), (m,), 'one-count-per-group'):
        return
    ctx.eq(int(np.sum(got)), n, 'total')
    ctx.check(not np.any(np.asarray(got)[pdf == 0]), 'empty-group')
    ctx.check(gof(got, pdf) > ALPHA, 'frequency', lambda: (got.tolist(), (pdf * n).tolist()))


@S.scenario(40, 300)
def rejected(ctx):
    import contextlib
    import io
    pdf = rand_pdf(ctx.rng, 4, degenerate=0)
    ctx.case(pdf=pdf)
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.raises(ValueError, lambda: sample_population(10, pdf * ctx.choice([.9, 1.1, .5])), 'not-one')
        bad = np.array([.7, -.2, .3, .2])
        ctx.raises(ValueError, lambda: sample_population(10, bad), 'negative')
        ctx.raises(NotImplementedError, lambda: sample_population(10, pdf, population_sampling_algo='nope'), 'algorithm')
    ctx.event('rejected', 3)
