"""P06 categorical sampling draws from the stated distribution."""
import numpy as np

from vlib.core import Spec
from vlib.stats import fixed_draws, gof, rand_pdf, ALPHA
from demod.utils import monte_carlo as mc
from demod.utils import distribution_functions as df

S = Spec('P06', 'Random distributions with exact zeros, certain outcomes, one category, many categories, drawn in bulk; '
         'an offline checker tests support, frequencies and independence; non-trivial = distinct distribution.',
         required=['draw', 'impossible_category', 'hostile_draw', 'certain_category', 'rescaled', 'rejected', 'lag'],
         assumptions=['frequencies are judged by chi-square at 1e-9, so only distortions larger than sampling noise show'])


@S.scenario(160, 2500)
def one_distribution(ctx):
    m = ctx.choice([1, 2, 3, 5, 24, 100])
    pdf = rand_pdf(ctx.rng, m)
    n = ctx.choice([1, 7, 40000]) if ctx.index % 3 else 120000
    ctx.case(pdf=pdf, n=n)
    for name, fn, arg in (('pdf', mc.monte_carlo_from_1d_pdf, pdf), ('cdf', mc.monte_carlo_from_1d_cdf, np.cumsum(pdf))):
        keep = arg.copy()
        out = fn(arg, n_samples=n)
        ctx.eq(arg, keep, 'input-kept')
        if not ctx.check(np.shape(out) == (n,) and np.asarray(out).dtype.kind in 'iu', 'shape', lambda: np.shape(out)):
            continue
        if not ctx.check(out.min() >= 0 and out.max() < m, 'range', lambda: (out.min(), out.max())):
            continue
        ctx.event('draw', n)
        c = np.bincount(out, minlength=m)
        ctx.check(not np.any(c[pdf == 0]), 'impossible:' + name, lambda: c)
        ctx.event('impossible_category', int((pdf == 0).sum()))
        ctx.event('certain_category', int((pdf == 1).sum()))
        ctx.check(gof(c, pdf) > ALPHA, 'frequency:' + name, lambda: (c.tolist(), (pdf * n).tolist()))
        if n > 10000 and m > 1:     # consecutive draws are independent
            j = np.zeros((m, m))
            np.add.at(j, (out[:-1:2], out[1::2]), 1)
            ctx.check(gof(j.ravel(), np.outer(pdf, pdf).ravel()) > ALPHA, 'independence:' + name)
    ctx.eq(len(mc.monte_carlo_from_1d_pdf(pdf)), 1, 'default-one-sample')
    ctx.state(m, tuple(np.round(pdf, 2)))


@S.scenario(160, 2500)
def many_distributions(ctx):
    """Row i of the result follows row i of the input."""
    m, k = ctx.choice([1, 2, 4, 10]), ctx.choice([1, 2, 3, 6])
    pdfs = np.array([rand_pdf(ctx.rng, m) for _ in range(k)])
    reps = ctx.choice([1, 5000, 20000])
    which = ctx.rng.integers(0, k, k * reps)
    ctx.case(pdfs=pdfs, reps=reps)
    big = pdfs[which]
    for name, fn, arg in (('pdf', mc.monte_carlo_from_pdf, big), ('cdf', mc.monte_carlo_from_cdf, np.cumsum(big, axis=1))):
        keep = arg.copy()
        out = fn(arg)
        ctx.eq(arg, keep, 'input-kept')
        if not ctx.check(np.shape(out) == (len(which),) and np.asarray(out).dtype.kind in 'iu', 'shape', lambda: np.shape(out)):
            continue
        ctx.event('draw', len(which))
        if not ctx.check(np.all((out >= 0) & (out < m)), 'range'):
            continue
        ctx.check(np.all(pdfs[which, out] > 0), 'impossible:' + name, 'drew a category of probability zero')
        ctx.event('impossible_category', int((big == 0).sum()))
        ctx.event('certain_category', int((big == 1).sum()))
        for r in range(k):
            c = np.bincount(out[which == r], minlength=m)
            ctx.check(gof(c, pdfs[r]) > ALPHA, 'frequency:' + name, lambda: (r, c.tolist(), pdfs[r].tolist()))
        if reps > 1000 and m > 1:
            # neighbouring rows use independent draws
            a, b = which[:-1:2], which[1::2]
            x, y = out[:-1:2], out[1::2]
            r, s = a[0], b[0]
            sel = (a == r) & (b == s)
            j = np.zeros((m, m))
            np.add.at(j, (x[sel], y[sel]), 1)
            ctx.check(gof(j.ravel(), np.outer(pdfs[r], pdfs[s]).ravel()) > ALPHA, 'independence:' + name)
    ctx.state(m, k, reps)


@S.scenario(12, 60)
def large_populations(ctx):
    """However many draws, no draw repeats or follows an earlier one: the autocorrelation of the outcomes is flat at every lag."""
    m = ctx.choice([2, 5, 40])
    n = ctx.choice([30000, 200000, 1000000 // m])
    pdf = np.full(m, 1 / m) if ctx.randint(0, 1) else .5 / m + .5 * ctx.rng.dirichlet(np.full(m, 3.))
    ctx.case(m=m, n=n, pdf=pdf)
    if ctx.randint(0, 1):
        out = mc.monte_carlo_from_1d_pdf(pdf, n_samples=n)
    elif ctx.randint(0, 1):
        out = mc.monte_carlo_from_cdf(np.broadcast_to(np.cumsum(pdf), (n, m)))
    else:
        out = mc.monte_carlo_from_pdf(np.broadcast_to(pdf, (n, m)))
    ctx.event('draw', n)
    ctx.check(gof(np.bincount(out, minlength=m), pdf) > ALPHA, 'frequency')
    v = ctx.rng.permutation(m)[out].astype(float)     # arbitrary scores, so that no pairing of categories hides
    v -= v.mean()
    f = np.fft.rfft(v, 2 * n)
    ac = np.fft.irfft(f * np.conj(f), 2 * n)[:n]
    lags = np.arange(1, n - 10000)
    z = ac[lags] / (v.var() * np.sqrt(n - lags))
    k = int(np.argmax(np.abs(z)))
    ctx.event('lag', len(lags))
    ctx.check(abs(z[k]) < 9, 'independence', 'draws %d apart are correlated (z = %.1f)' % (lags[k], z[k]))
    ctx.state(m, n, tuple(np.round(pdf, 2)))


@S.scenario(40, 400)
def hostile_draws(ctx):
    """Whatever the generator gives, also exactly 0: no category of probability zero."""
    m, n = ctx.choice([2, 3, 5, 24]), 50
    pdf = rand_pdf(ctx.rng, m, degenerate=0.)
    if (pdf > 0).sum() < 2:
        pdf = np.full(m, 1. / m)
    if ctx.rng.random() < .6:
        pdf[0] = 0.
        pdf /= pdf.sum()
    low = ctx.choice([0., 5e-324, 1e-300, 2. ** -53])
    if 0 < low and (pdf[pdf > 0] <= 2 * low).any():
        low = 0.
    if ctx.rng.random() < .3:        # the highest draw there is, with a sum of exactly one
        pdf = ctx.rng.multinomial(1024, pdf) / 1024.
        low = 1. - 2. ** -53
    ctx.case(pdf=pdf, low=low)

    with fixed_draws(low):
        outs = [mc.monte_carlo_from_1d_pdf(pdf, n_samples=n), mc.monte_carlo_from_1d_cdf(np.cumsum(pdf), n_samples=n),
                mc.monte_carlo_from_pdf(np.tile(pdf, (n, 1))), mc.monte_carlo_from_cdf(np.tile(np.cumsum(pdf), (n, 1)))]
    for o in outs:
        ctx.check((pdf[np.asarray(o)] > 0).all(), 'impossible-at-the-edge', lambda: 'draw %s of %s gives %s' % (low, pdf, o[:3]))
    ctx.event('hostile_draw', 4 * n)
    ctx.state(m, low, float(pdf[0]))


@S.scenario(120, 1500)
def rescaling(ctx):
    m, shape = ctx.choice([1, 2, 5, 30]), ctx.choice([(), (3,), (2, 4)])
    pdf = np.array([rand_pdf(ctx.rng, m) for _ in range(int(np.prod(shape)) if shape else 1)]).reshape(shape + (m,))
    eps = ctx.choice([1e-1, 1e-2, 1e-6])
    f = 1 + ctx.rng.uniform(-.9, .9, shape + (1,)) * eps
    ctx.case(shape=shape, m=m, eps=eps, pdf=pdf)
    for nm, fn, arr in (('pdf', df.rescale_pdf, pdf), ('cdf', df.rescale_cdf, np.cumsum(pdf, axis=-1))):
        bad = arr * f
        keep = bad.copy()
        out = fn(bad, epsilon=eps)
        ctx.eq(bad, keep, 'input-kept')
        ctx.close(out, arr, 'rescaled:' + nm, rtol=1e-9)
        ctx.event('rescaled')
        cdf = np.cumsum(out, axis=-1) if nm == 'pdf' else out
        ctx.close(cdf[..., -1], np.ones(shape), 'ends-at-one:' + nm)
        off = arr * (1 + ctx.choice([-1, 1]) * eps * 1.5)
        ctx.raises(ValueError, lambda: fn(off, epsilon=eps), 'too-far:' + nm)
        one_bad = arr.reshape(-1, m).copy()
        one_bad[ctx.randint(0, len(one_bad) - 1)] *= 1 + ctx.choice([-1, 1]) * eps * 1.5
        ctx.raises(ValueError, lambda: fn(one_bad, epsilon=eps), 'one-row-too-far:' + nm)
        ctx.event('rejected', 2)
    cdf = np.cumsum(pdf, axis=-1)
    ctx.check(df.check_valid_cdf(cdf) is True or df.check_valid_cdf(cdf), 'valid-accepted')


@S.scenario(150, 1500)
def cdf_validation(ctx):
    m, shape = ctx.choice([2, 3, 10]), ctx.choice([(), (4,), (2, 3)])
    cdf = np.cumsum([rand_pdf(ctx.rng, m, degenerate=0) for _ in range(int(np.prod(shape)) if shape else 1)], axis=1).reshape(shape + (m,))
    kind = ctx.choice(['ok', 'short', 'long', 'decreasing', 'negative', 'above'])
    flat = cdf.reshape(-1, m)
    r = ctx.randint(0, len(flat) - 1)
    ctx.case(kind=kind, shape=shape, m=m, row=r, cdf=cdf)
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == 'ok':
            ctx.check(df.check_valid_cdf(flat.reshape(cdf.shape)), 'valid-accepted')
            return
        i = ctx.randint(0, m - 2)
        d = ctx.choice([1e-4, .1, .5])
        if kind == 'short':
            flat[r] *= 1 - d
        elif kind == 'long':
            flat[r, -1] = 1 + d
        elif kind == 'decreasing':
            flat[r, i] = flat[r, i + 1] + d / 2
        elif kind == 'negative':
            flat[r, :i + 1] = -d
        else:
            flat[r, i:-1] = 1 + d
        ctx.raises(ValueError, lambda: df.check_valid_cdf(flat.reshape(cdf.shape)), 'invalid:' + kind)
        ctx.event('rejected')
