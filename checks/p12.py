"""P12 subgroup keys, strings, time attributes and their split into persons."""
import datetime as dt
import itertools
import warnings

import numpy as np

from vlib.core import Spec
from demod.utils import subgroup_handling as sh
from demod.utils.subgroup_handling import Subgroup

S = Spec('P12', 'Random subgroups (household type, residents, age, income, weekday lists, quarter; shuffled key order), dates over '
         'several years and every combination of day-type options; non-trivial = distinct subgroup, date and options.',
         required=['string', 'persons', 'add_time', 'order', 'rejected', 'type4'])

KEYS = {'n_residents': [1, 2, 3, 5], 'household_type': [1, 2, 3, 4], 'age': [0, 25, 60], 'gender': [1, 2], 'income': ['low', 'high'],
        'household_position': [1, 2, 3], 'life_situation': [1, 4]}
TIME = {'weekday': [[1, 2, 3, 4, 5], [6, 7], 1, 7], 'quarter': [1, 4]}


def rand_sub(ctx, keys, p=.5):
    return {k: ctx.choice(keys[k]) for k in keys if ctx.rng.random() < p}


def shuffled(ctx, d):
    ks = list(d)
    return {k: (list(d[k]) if isinstance(d[k], list) else d[k]) for k in [ks[i] for i in ctx.rng.permutation(len(ks))]}


@S.scenario(300, 5000)
def strings(ctx):
    a = rand_sub(ctx, {**KEYS, **TIME})
    b = rand_sub(ctx, {**KEYS, **TIME}) if ctx.rng.random() < .6 else dict(a)
    if ctx.rng.random() < .4 and b:
        k = ctx.choice(sorted(b))
        b[k] = ctx.choice({**KEYS, **TIME}[k])
    sub = shuffled(ctx, a)
    ctx.case(a=a, b=b)
    keep = repr(sub)
    s = sh.subgroup_string(sub)
    ctx.event('string')
    want = '__'.join('%s_%s' % (k, ','.join(map(str, v)) if isinstance(v, list) else v) for k, v in sorted(a.items()))
    ctx.eq(s, want, 'format')
    ctx.eq(repr(sub), keep, 'untouched')
    ctx.eq(sh.subgroup_string(Subgroup(shuffled(ctx, a))), s, 'order-independent')
    ctx.check((sh.subgroup_string(b) == s) == (a == b), 'injective', lambda: '%s %s' % (s, sh.subgroup_string(b)))
    so = sh.sort_subgroup(sub)
    ctx.check(so == a and list(so) == sorted(a), 'sorted', repr(so))
    given = Subgroup(sub) if ctx.rng.random() < .5 else sub
    r = sh.remove_time_attributues(given)
    ctx.eq(dict(given), a, 'untouched-by-removal')
    ctx.check(dict(r) == {k: v for k, v in a.items() if k not in TIME}, 'time-removed', repr(r))
    ctx.eq(repr(sub), keep, 'untouched-by-removal')
    if 'weekday' in a:
        ctx.eq(bool(sh.is_weekend(sub)), a['weekday'] == [6, 7], 'is-weekend')
        ctx.eq(bool(sh.is_weekday(sub)), a['weekday'] == [1, 2, 3, 4, 5], 'is-weekday')
        if isinstance(a['weekday'], list):
            sh.check_weekend_day_format(sub)
        else:
            ctx.event('rejected')
            ctx.raises(ValueError, lambda: sh.check_weekend_day_format(sub), 'weekday-format')
    ctx.state(tuple(sorted(a)))


@S.scenario(150, 2500)
def ordering(ctx):
    """Subgroups of persons can be sorted and counted, as the household simulators do."""
    subs = [Subgroup(shuffled(ctx, rand_sub(ctx, KEYS))) for _ in range(ctx.randint(1, 5))]
    pool = [Subgroup(shuffled(ctx, subs[ctx.randint(0, len(subs) - 1)])) for _ in range(ctx.randint(1, 12))]
    ctx.case(pool=[dict(p) for p in pool], k=len(pool))
    arr = np.empty(len(pool), dtype=object)
    arr[:] = pool
    u, c = np.unique(arr, return_counts=True)
    ctx.event('order', len(pool))
    distinct = []
    for p in pool:
        if p not in distinct:
            distinct.append(p)
    ctx.eq(len(u), len(distinct), 'distinct', [dict(x) for x in u])
    for x, k in zip(u, c):
        ctx.eq(int(k), sum(p == x for p in pool), 'count', dict(x))
    for a, b in itertools.combinations(distinct, 2):
        ctx.check((a > b) != (b > a), 'antisymmetric', lambda: '%s %s' % (dict(a), dict(b)))
    for a, b, d in itertools.permutations(distinct[:5], 3):
        ctx.check(not (a > b and b > d) or a > d, 'transitive', lambda: '%s %s %s' % (dict(a), dict(b), dict(d)))
    ctx.check(not any(p > Subgroup(p) for p in pool), 'irreflexive')
    ctx.raises(TypeError, lambda: pool[0] > 3, 'not-a-dict')
    cp = pool[0].copy()
    ctx.check(isinstance(cp, Subgroup) and cp == pool[0] and cp is not pool[0], 'copy')
    ctx.state(len(distinct))


@S.scenario(250, 4000)
def persons(ctx):
    base = rand_sub(ctx, {k: KEYS[k] for k in ('income', 'gender')}, .4)
    t = ctx.choice([None, 1, 2, 3, 4, 5])
    n = {None: ctx.randint(1, 6), 5: ctx.randint(1, 6), 1: 1, 2: 2, 3: ctx.randint(2, 5), 4: ctx.randint(3, 6)}[t]
    sub = dict(base, n_residents=n)
    if t is not None:
        sub['household_type'] = t
    if ctx.rng.random() < .4:
        sub['hh_mean_age'] = ctx.choice([20, 40])
    if ctx.rng.random() < .2:
        sub['age'] = 33
    if t in (1, 2) and ctx.rng.random() < .3:
        del sub['n_residents']
    sub = shuffled(ctx, sub)
    ctx.case(sub=sub)
    keep = repr(sub)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = sh.subgroup_households_to_persons(Subgroup(sub) if ctx.rng.random() < .5 else sub)
    ctx.event('persons', len(out))
    common = {k: v for k, v in sub.items() if k not in ('n_residents', 'household_type')}
    if n == 1:
        if 'age' not in common and 'hh_mean_age' in common:
            common['age'] = common.pop('hh_mean_age')
        want = [common]
    elif t in (None, 5):
        want = [common] * n
        ctx.check(any('subgroup' in str(x.message) for x in w), 'warned')
    else:
        pos = {2: [1, 2], 3: [1] + [3] * (n - 1), 4: [1, 2] + [3] * (n - 2)}[t]
        want = [dict(common, household_position=p) for p in pos]
    if t == 4:
        ctx.event('type4')
    ctx.check(sorted(map(lambda d: repr(sorted(d.items())), want)) == sorted(map(lambda d: repr(sorted(d.items())), out)),
              'persons', lambda: '%s want %s' % ([dict(o) for o in out], want))
    ctx.check(all(isinstance(o, Subgroup) for o in out), 'type')
    ctx.eq(repr(sub), keep, 'untouched')
    many = [sub, {'n_residents': 1}]
    res = sh.subgroup_households_to_persons(many) if t not in (None, 5) or n == 1 else None
    if res is not None:
        ctx.check(len(res) == 2 and len(res[0]) == len(want) and len(res[1]) == 1, 'list-input')
    ctx.state(t, n)


@S.scenario(250, 4000)
def calendar(ctx):
    date = dt.datetime(2012, 1, 1) + dt.timedelta(days=ctx.randint(0, 3000), minutes=ctx.randint(0, 1439))
    opts = {k: bool(ctx.rng.random() < .4) for k in ('use_week_ends_days', 'use_week_sat_sun', 'use_7days', 'use_quarters')}
    base = rand_sub(ctx, KEYS)
    old = rand_sub(ctx, TIME)
    ctx.case(date=str(date), opts=opts, base=base, old=old)
    sub = Subgroup({**base, **old})
    if opts['use_week_ends_days'] + opts['use_week_sat_sun'] + opts['use_7days'] > 1:
        ctx.event('rejected')
        ctx.raises(ValueError, lambda: sh.add_time(sub, date, **opts), 'conflicting-options')
        return
    out = sh.add_time(sub, date, **opts)
    ctx.event('add_time')
    wd = date.isoweekday()
    want = dict(base)
    if opts['use_week_ends_days']:
        want['weekday'] = [1, 2, 3, 4, 5] if wd <= 5 else [6, 7]
    elif opts['use_week_sat_sun']:
        want['weekday'] = [1, 2, 3, 4, 5] if wd <= 5 else wd
    elif opts['use_7days']:
        want['weekday'] = wd
    if opts['use_quarters']:
        want['quarter'] = (date.month + 2) // 3
    ctx.check(dict(out) == want, 'time-attributes', lambda: '%s want %s' % (dict(out), want))
    out2 = sh.add_time(Subgroup(base), date)
    ctx.check(out2['weekday'] == ([1, 2, 3, 4, 5] if wd <= 5 else [6, 7]) and 'quarter' not in out2, 'defaults', repr(out2))
    ctx.state(wd, date.month, tuple(opts.values()))
