"""P17 resolution of ownership and target tables for appliances."""
import warnings

import numpy as np

from vlib.core import Spec
from demod.utils import appliances as ap

S = Spec('P17', 'Random appliance types (parented names, repeats) and tables with numbered and missing entries; pairs of first '
         'ownership and mean number; non-trivial = distinct types and table.',
         required=['resolved', 'parent', 'second', 'missing_number', 'default', 'split', 'merged', 'refused'])

ROOTS = ['hob', 'tv', 'fridge', 'freezer', 'washing_machine', 'machine']
PRE = ['big', 'red', 'electric']


def rand_type(ctx):
    return '_'.join([ctx.choice(PRE) for _ in range(ctx.choice([0, 0, 1, 2]))] + [ctx.choice(ROOTS)])


def closest(t, table):
    parts = t.split('_')
    for k in range(len(parts)):
        if '_'.join(parts[k:]) in table:
            return '_'.join(parts[k:])
    return None


def value(ctx):
    """A number as users write them, or as numpy stores them."""
    if ctx.rng.random() < .15:
        return ctx.randint(0, 1)
    v = float(np.round(ctx.rng.random(), 3))
    return np.array(v) if ctx.rng.random() < .1 else v


@S.scenario(400, 8000)
def tables(ctx):
    types = [rand_type(ctx) for _ in range(ctx.randint(1, 12))]
    table = {}
    for t in set([rand_type(ctx) for _ in range(6)] + [t for t in types if ctx.rng.random() < .5]):
        table[t] = value(ctx)
        for k in range(2, ctx.randint(1, 4) + 1):
            table['%s_%d' % (t, k)] = value(ctx)
    ctx.case(types=types, table=table)
    what = ctx.choice(['ownership', 'target', 'other'])
    default = np.round(ctx.rng.random(len(types)), 3)
    key = {'ownership': 'equipped_prob', 'target': 'target_switchons', 'other': 'target_minutes'}[what]
    app = {'type': np.array(types), key: default, 'number': len(types)}
    order = list(table.items())
    ctx.rng.shuffle(order)
    given = dict(order)
    keep = dict(given)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if what == 'ownership':
            got = ap.get_ownership_from_dict(app, given)
        elif what == 'target':
            got = ap.get_target_from_dict(app, given)
        else:
            got = ap.get_target_from_dict(app, given, default_key=key)
    count, want, n_default = {}, [], 0
    for i, t in enumerate(types):
        c = closest(t, table)
        if c is None:
            want.append(default[i])
            n_default += 1
            ctx.event('default')
            continue
        if c != t:
            ctx.event('parent')
        k = count[c] = count.get(c, 0) + 1
        if k > 1:
            ctx.event('second')
        name = c if k == 1 else '%s_%d' % (c, k)
        if name not in table:
            ctx.event('missing_number')
        want.append(table.get(name, 0.))
    ctx.eq(np.asarray(got, float), np.array(want), 'values', str(types))
    ctx.event('resolved', len(types))
    ctx.check((len(w) > 0) == (n_default > 0), 'warning', lambda: '%d warnings, %d defaults' % (len(w), n_default))
    ctx.eq(given == keep, True, 'table-untouched')
    ctx.eq(list(app['type']), types, 'types-untouched')
    ctx.state(what, tuple(want))
    for t in types:
        c = ap.find_closest_type(t, list(table))
        ctx.eq(c, closest(t, table) or False, 'closest-type', t)
        ctx.eq(ap.remove_start(t), t.split('_', 1)[1] if '_' in t else False, 'remove-start', t)


@S.scenario(300, 5000)
def numbers(ctx):
    p1 = float(ctx.choice([0., 1., ctx.rng.random(), ctx.rng.random(), .5]))
    number = float(ctx.choice([p1, p1 + ctx.rng.random(), p1 + ctx.randint(0, 4), ctx.randint(1, 6), p1 + 3 * ctx.rng.random()]))
    if number < p1:
        number = p1
    ctx.case(p1=p1, number=number)
    got = np.asarray(ap.assign_ownership_from_prob1_and_number(p1, number), float)
    ctx.check(got[0] == p1, 'first', lambda: str(got))
    ctx.check(abs(got.sum() - number) < 1e-9, 'sum', lambda: '%s sums to %s' % (got, got.sum()))
    ctx.check(((got >= 0) & (got <= 1)).all(), 'probabilities', lambda: str(got))
    # at most one further appliance is uncertain, the certain ones come first
    rest = got[1:]
    ctx.check((np.diff(rest) <= 1e-12).all() and ((rest > 1e-12) & (rest < 1 - 1e-12)).sum() <= 1, 'order', lambda: str(got))
    ctx.event('split')
    nan = np.asarray(ap.assign_ownership_from_prob1_and_number(p1, ctx.choice([np.nan, float('nan'), np.float64('nan'), np.array([np.nan])[0]])), float)
    ctx.check(nan[0] == p1 and abs(nan.sum() - p1) < 1e-9, 'unknown-number', lambda: str(nan))


@S.scenario(60, 500)
def refused(ctx):
    p = float(np.round(ctx.rng.uniform(.1, .9), 3))
    bad = [(p, p / 2), (-p, 1.), (1 + p, 3.), (0., -p), (p, -1.)]
    ctx.case(p=p)
    for a, b in bad:
        ctx.raises(ValueError, lambda: ap.assign_ownership_from_prob1_and_number(a, b), 'impossible', str((a, b)))
    ctx.raises(ValueError, lambda: ap.assign_ownership_from_prob1_and_number(p, 2., algo='x'), 'algo')
    ctx.event('refused', 6)


@S.scenario(150, 2000)
def merged(ctx):
    n1, n2 = ctx.randint(1, 6), ctx.randint(1, 6)
    keys = ['type', 'power', 'water', 'flag', 'delay']
    k1, k2 = [[k for k in keys if ctx.rng.random() < .7] + ['name'] for _ in range(2)]
    mk = lambda n, ks: dict({k: np.array(['t%d' % v for v in ctx.rng.integers(0, 99, n)]) if k in ('type', 'name') else
                             ctx.rng.random(n) < .5 if k == 'flag' else ctx.rng.random(n) for k in ks}, number=n)
    a, b = mk(n1, k1), mk(n2, k2)
    ctx.case(n1=n1, n2=n2, k1=k1, k2=k2, a=a, b=b)
    before = [{k: np.array(v).copy() for k, v in d.items()} for d in (a, b)]
    m = ap.merge_appliance_dict(a, b)
    ctx.eq(sorted(m), sorted((set(k1) & set(k2)) | {'number'}), 'keys')
    ctx.eq(m['number'], n1 + n2, 'number')
    for k in set(k1) & set(k2):
        ctx.eq(m[k], np.concatenate([a[k], b[k]]), 'content', k)
    for d, o in zip((a, b), before):
        for k in d:
            ctx.eq(d[k], o[k], 'untouched', k)
    ctx.event('merged')
