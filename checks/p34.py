"""P34 time-use diaries become the statistics of their subgroup."""
import importlib.util
import json
import os
import shutil
import sys
import warnings

import numpy as np

from vlib.core import Spec
from checks.store import root
import demod
from demod.datasets.GermanTOU import loader as gtou
from demod.metrics.states import get_durations_by_states
from demod.utils.parse_helpers import get_initial_durations_pdfs, states_to_tpms, states_to_tpms_with_durations

S = Spec('P34', 'Random surveys in the layout of the German time-use survey (households with 1 to 6 residents, incomplete households, missing days, unknown locations, travels), '
         'parsed for random subgroups and compared with direct counting; non-trivial = distinct survey and subgroup.',
         required=['members', 'missing_day', 'incomplete', 'different_days', 'kind_weekday', 'kind_quarter', 'kind_n_residents', 'kind_household_type', 'kind_hh_work_type', 'kind_life_situation',
                   'kind_salary', 'kind_hh_revenue', 'kind_household_position', 'kind_age', 'kind_hh_mean_age', 'kind_geburtsland', 'kind_gender', 'codes', 'secondary', 'back_home', 'unknown_end',
                   'tpm', 'tpm_durations', 'sparse', 'profiles', 'starts', 'durations', 'probabilities', 'never_away'],
         assumptions=['Surveys have numbered households, the persons of a household and the days of a person in order, three diaries per person or two when one is missing.',
                      'From diaries to transition matrices and durations: as decided by P27 and P28.'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gtou_codes.json')) as f:
    CODES = {name: {int(k): v for k, v in d.items()} for name, d in json.load(f).items()}
ALL = [c for c in sorted(CODES['home']) if c]
TRAVEL = [c for c in ALL if c >= 900 and c < 997]
MODULE = 'demod.datasets.GermanTOU.parser'
WORK = ['1_fulltime', '1_halftime', '2_fulltime', '1_fulltime_1_halftime', '3_fulltime', 'other']


def survey(ctx, households, codes=None, indoors=False):
    """Random survey: households, persons and diaries as lists of dictionaries."""
    r = ctx.rng
    hh, persons, diaries = [], [], []
    pick = codes or [int(c) for c in r.choice(ALL, ctx.randint(4, 25), replace=False)] + [110]
    if indoors:
        # nobody leaves home
        pick = [c for c in pick if not travelling(c)]
    full = ctx.choice([.85, 1.])
    travel_rate = 0. if indoors else ctx.choice([0., .03, .03, .1])
    for h in range(1, households + 1):
        n = int(r.choice([1, 1, 2, 2, 2, 3, 4, 5, 6]))
        recorded = n if r.random() < full else int(r.integers(1, n + 1))
        hh.append(dict(id_hhx=h, ha1x=n, anz_erw=int(r.integers(1, 8)), hhtyp=int(r.integers(1, 6)), hd15x=int(r.integers(1, 6))))
        missing = r.random() < .15
        day_types = [int(x) for x in r.integers(1, 8, 3)]
        same = r.random() < .8
        quarter = int(r.integers(1, 5))
        for p in range(1, recorded + 1):
            pid = len(persons) + 1
            person = dict(id_persx=pid, id_hhx=h, alterx=int(r.integers(10, 80)), pb3=int(r.choice([1, 2, 6, 8, 8, 8, 10, 10, 11])), pe23x=int(r.integers(1, 6)), ha6x=int(r.integers(1, 10)),
                          ha8x=int(r.integers(1, 3)), ha3=int(r.integers(1, 3)))
            persons.append(person)
            gone = int(r.integers(1, 4)) if missing and r.random() < .5 else 0
            days = [d for d in (1, 2, 3) if d != gone]
            for d in days:
                prim, sec = [], []
                while len(prim) < 144:
                    c = int(r.choice(pick)) if r.random() > travel_rate * 8 else int(r.choice(TRAVEL))
                    prim += [c] * int(r.integers(1, [6, 30, 30][int(r.integers(3))]) if c < 900 else r.integers(1, 4))
                while len(sec) < 144:
                    sec += [int(r.choice([0, 0, 0, int(r.choice(pick))]))] * int(r.integers(1, 30))
                last = d == days[-1]
                diaries.append(dict(id_hhx=h, id_persx=pid, persx=p, tagnr=d, fehl_tag=gone, selbtag=1 if same else 2, quartal=quarter, wtagfei=day_types[d - 1], tc5=0,
                                    tc7=1 if indoors else int(r.choice([1, 1, 1, 2, -1])), tc8=1 if indoors else int(r.choice([1, 1, 2, -1] if last else [1, 1, 2, -1, -2])), prim=prim[:144], sec=sec[:144]))
    return hh, persons, diaries


def write(where, hh, persons, diaries):
    """The three files, and the parser reading them."""
    raw = os.path.join(where, 'raw_data')
    os.makedirs(raw, exist_ok=True)
    for name, rows in (('hh', hh), ('pers', persons)):
        with open(os.path.join(raw, 'zve13_puf_%s.csv' % name), 'w') as f:
            f.write(';'.join(rows[0]) + '\n')
            for x in rows:
                f.write(';'.join(str(v) for v in x.values()) + '\n')
    plain = [k for k in diaries[0] if k not in ('prim', 'sec')]
    with open(os.path.join(raw, 'zve13_puf_takt.csv'), 'w') as f:
        f.write(';'.join(plain + ['tb%d_%d' % (k, i) for k in range(1, 6) for i in range(1, 145)]) + '\n')
        for d in diaries:
            f.write(';'.join(str(v) for v in [d[k] for k in plain] + d['prim'] + d['sec'] + [0] * 432) + '\n')
    for name in ('Sparse9States', '4_States', 'DemodActivities_0', 'Bottaccioli2018'):
        open(os.path.join(raw, name + '.zip'), 'w').close()
    shutil.copy(os.path.join(os.path.dirname(gtou.__file__), 'parser.py'), os.path.join(where, 'parser.py'))
    spec = importlib.util.spec_from_file_location(MODULE, os.path.join(where, 'parser.py'))
    module = importlib.util.module_from_spec(spec)
    sys.modules[MODULE] = module
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        spec.loader.exec_module(module)
    return type('GTOUx', (gtou.GTOU,), dict(DATASET_NAME=where))


def quiet(fn, *a, **k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return fn(*a, **k)


def travelling(c):
    return c in TRAVEL


def at_home(ctx, d, start_of_next):
    """Who is at home when: home ratings of the activities, locations at both ends, travels."""
    home = CODES['home']
    rating = [home[p] + home[s] for p, s in zip(d['prim'], d['sec'])]
    moves = [travelling(p) or travelling(s) for p, s in zip(d['prim'], d['sec'])]
    last = max([i for i, m in enumerate(moves) if m], default=None)
    end = start_of_next if d['tc8'] == -2 else d['tc8']
    here = d['tc7'] == 1 or d['tc7'] == -1 and rating[0] >= 0
    before = False
    out = []
    for i in range(144):
        was = i > 0 and moves[i - 1]
        if moves[i] and not was:
            before, here = here, False
        if was and not moves[i]:
            here = rating[i] + (-1 if before else 1) >= 0
            if last == i - 1:
                here = end == 1 or end == -1 and rating[-1] >= 0
                ctx.event('unknown_end', end == -1)
            ctx.event('back_home', here)
        out.append(here)
    return out


def chosen(diaries, hh, persons, sub):
    """The diaries of the subgroup."""
    by_hh, by_person = {h['id_hhx']: h for h in hh}, {p['id_persx']: p for p in persons}
    recorded, members, gone = {}, {}, set()
    for d in diaries:
        recorded[d['id_hhx']] = max(recorded.get(d['id_hhx'], 0), d['persx'])
        if d['fehl_tag']:
            gone.add((d['id_hhx'], d['fehl_tag']))
    for p in persons:
        members.setdefault(p['id_hhx'], []).append(p)

    def ok(d):
        h, p = by_hh[d['id_hhx']], by_person[d['id_persx']]
        if recorded[d['id_hhx']] != h['ha1x'] or (d['id_hhx'], d['tagnr']) in gone or not (d['selbtag'] == 1 or h['ha1x'] == 1):
            return False
        for k, v in sub.items():
            many = v if isinstance(v, list) else [v]
            if k == 'weekday' and d['wtagfei'] not in many or k == 'quarter' and d['quartal'] != v or k == 'n_residents' and h['ha1x'] not in many:
                return False
            if k == 'household_type' and h['hhtyp'] != v or k == 'life_situation' and p['pb3'] not in many or k == 'salary' and p['pe23x'] != v or k == 'hh_revenue' and h['hd15x'] != v:
                return False
            if k == 'household_position' and p['ha6x'] != v or k == 'geburtsland' and p['ha8x'] != v or k == 'gender' and p['ha3'] != v:
                return False
            if k == 'age' and not v[0] <= p['alterx'] < v[1]:
                return False
            if k == 'hh_mean_age' and not v[0] <= np.mean([m['alterx'] for m in members[d['id_hhx']]]) < v[1]:
                return False
            if k == 'hh_work_type':
                if v == '1_retired':
                    if h['ha1x'] != 1 or p['pb3'] != 8:
                        return False
                elif v == '2_retired':
                    if h['ha1x'] != 2 or any(m['pb3'] != 8 for m in members[d['id_hhx']]):
                        return False
                elif h['anz_erw'] != 2 + WORK.index(v):
                    return False
        return True
    return [i for i, d in enumerate(diaries) if ok(d)]


def subgroup(ctx, two):
    """A random subgroup; `two` tells whether all two-person households answered in full."""
    r = ctx.rng
    if r.random() < .15:
        return {}
    kinds = dict(weekday=lambda: [[1, 2, 3, 4, 5], [6, 7], int(r.integers(1, 8)), sorted(int(x) for x in r.choice(range(1, 8), 3, replace=False))][int(r.integers(4))], quarter=lambda: int(r.integers(1, 5)),
                 n_residents=lambda: int(r.integers(1, 5)) if r.random() < .8 else [1, int(r.integers(2, 4))], household_type=lambda: int(r.integers(1, 6)),
                 hh_work_type=lambda: str(r.choice(WORK + ['1_retired'] * 3 + ['2_retired'] * 3 * two)), life_situation=lambda: 8 if r.random() < .7 else [2, 10],
                 salary=lambda: int(r.integers(1, 6)), hh_revenue=lambda: int(r.integers(1, 6)), household_position=lambda: int(r.integers(1, 10)), age=lambda: (20, int(r.integers(30, 70))),
                 hh_mean_age=lambda: (20, float(r.integers(40, 70) + r.choice([0, .5]))), geburtsland=lambda: int(r.integers(1, 3)), gender=lambda: int(r.integers(1, 3)))
    ks = list(r.choice(sorted(kinds), 1 + int(r.random() < .35), replace=False))
    if r.random() < .3 and 'weekday' not in ks:
        ks[0] = 'weekday'    # what users ask for most
    return {k: kinds[k]() for k in ks}


def labelled(d, home, name):
    """The activity of each step: away, or the main one, or the secondary one where the main one is 'other'."""
    codes = CODES[name]
    out = []
    for p, s, h in zip(d['prim'], d['sec'], home):
        a = codes[p] if h and p else 'away'
        if a == 'other' and s and codes[s] != 'other':
            a = codes[s]
        out.append(a)
    return out


def homes(ctx, diaries):
    return [at_home(ctx, d, diaries[(i + 1) % len(diaries)]['tc7']) for i, d in enumerate(diaries)]


@S.scenario(90, 1000)
def activities(ctx):
    """Which diaries a subgroup has, and what people do where."""
    where = root(ctx)
    hh, persons, diaries = survey(ctx, ctx.randint(8, 40) if ctx.index != 5 else 130)
    cls = write(where, hh, persons, diaries)
    here = homes(ctx, diaries)
    two = all(sum(p['id_hhx'] == h['id_hhx'] for p in persons) == 2 for h in hh if h['ha1x'] == 2)
    ctx.case(households=len(hh), diaries=len(diaries))
    ctx.event('missing_day', any(d['fehl_tag'] for d in diaries))
    ctx.event('incomplete', any(h['ha1x'] > sum(p['id_hhx'] == h['id_hhx'] for p in persons) for h in hh))
    ctx.event('different_days', any(d['selbtag'] != 1 for d in diaries))
    for _ in range(6 if not ctx.thorough else 12):
        sub = subgroup(ctx, two)
        name = ctx.choice(['Bottaccioli2018', 'DemodActivities_0'])
        want = chosen(diaries, hh, persons, sub)
        if not want:
            continue
        loader = cls(name)
        before = repr(sub)
        states, ids, days = quiet(loader.get_states, sub, return_hh=True, return_day=True)
        ctx.eq(repr(sub), before, 'subgroup-changed')
        ctx.eq([int(x) for x in ids], [diaries[i]['id_hhx'] for i in want], 'members', sub)
        ctx.eq([int(x) for x in days], [diaries[i]['tagnr'] for i in want], 'member-days', sub)
        if np.shape(states) == (len(want), 144):
            for row, i in zip(states, want):
                expect = labelled(diaries[i], here[i], name)
                bad = [k for k in range(144) if str(row[k]) != expect[k]]
                ctx.check(not bad, 'activity', lambda: '%s: diary %d at step %d is %r instead of %r (main %s, secondary %s, locations %s %s)' % (
                    name, i, bad[0], str(row[bad[0]]), expect[bad[0]], diaries[i]['prim'][max(0, bad[0] - 2):bad[0] + 2], diaries[i]['sec'][bad[0]], diaries[i]['tc7'], diaries[i]['tc8']))
                ctx.event('secondary', any(CODES[name][p] == 'other' and e not in ('other', 'away') for p, e in zip(diaries[i]['prim'], expect)))
        else:
            ctx.check(False, 'shape', str(np.shape(states)))
        ctx.event('members', len(want))
        for k in sub:
            ctx.event('kind_' + k)
        ctx.state(ctx.index, before)


@S.scenario(8, 40)
def codes(ctx):
    """Every code of the survey is the activity it stands for."""
    where = root(ctx)
    hh, persons, diaries = survey(ctx, 2, [110])
    hh[0]['ha1x'] = hh[1]['ha1x'] = 1
    persons = [p for p in persons if p['id_hhx'] == 1][:1] + [p for p in persons if p['id_hhx'] == 2][:1]
    mine = [p['id_persx'] for p in persons]
    diaries = [d for d in diaries if d['id_persx'] in mine]
    at_homes = [c for c in ALL if not travelling(c)]
    i = 0
    for d in diaries:
        d.update(fehl_tag=0, selbtag=1, persx=1, tc7=1, tc8=1, sec=[0] * 144)
        d['prim'] = [at_homes[(i + k) % len(at_homes)] for k in range(144)]
        i += 144 - ctx.randint(0, 99)
    for d in diaries:
        d['tagnr'] = 1 + [x for x in diaries if x['id_persx'] == d['id_persx']].index(d)
    cls = write(where, hh, persons, diaries)
    ctx.case(index=ctx.index)
    for name in ('Bottaccioli2018', 'DemodActivities_0'):
        got = quiet(cls(name).get_states, {})
        want = [[CODES[name][p] for p in d['prim']] for d in diaries]
        ctx.eq([[str(x) for x in row] for row in got], want, 'codes', name)
        ctx.event('codes', len(diaries) * 144)
    ctx.state(ctx.index)


def group(diaries, want, rows):
    """Sums over the household members on each day, ordered by day and household."""
    out = {}
    for i in want:
        k = (diaries[i]['tagnr'], diaries[i]['id_hhx'])
        out[k] = out.get(k, 0) + np.asarray(rows[i])
    return np.array([out[k] for k in sorted(out)])


def indexed(states, labels):
    at = {x: i for i, x in enumerate(labels)}
    return np.vectorize(lambda x: at[x])(states)


def first(states, n):
    return np.bincount(states[:, 0], minlength=n) / len(states)


@S.scenario(88, 1000)
def statistics(ctx):
    """Transition matrices, profiles, durations, starts and probabilities of a subgroup."""
    where = root(ctx)
    few = ctx.randint(0, 3) == 0
    indoors = few and ctx.randint(0, 1) == 0
    hh, persons, diaries = survey(ctx, 130 if ctx.index == 7 else ctx.randint(3, 30) if not few else ctx.randint(1, 4), indoors=indoors)
    cls = write(where, hh, persons, diaries)
    here = homes(ctx, diaries)
    awake = [[CODES['active'][p] for p in d['prim']] for d in diaries]
    which = ctx.index % 4
    subs = []
    for _ in range(6):
        s = {} if few else subgroup(ctx, False)
        if s not in subs and len(subs) < 2 and chosen(diaries, hh, persons, s):
            subs.append(s)
    ctx.case(households=len(hh), subgroups=subs, kind=which)
    loader = cls(['4_States', 'Bottaccioli2018', 'DemodActivities_0', 'Sparse9States'][which])
    for sub in subs:
        want = chosen(diaries, hh, persons, sub)
        if which == 0:
            states = group(diaries, want, [10 * np.array(h, int) + np.array(a, int) for h, a in zip(here, awake)])
            matrices(ctx, loader, sub, states, sorted(set(states.ravel().tolist())), [])
            profiles(ctx, loader, sub, diaries, want, here, awake)
        elif which in (1, 2):
            name = ['Bottaccioli2018', 'DemodActivities_0'][which - 1]
            states = np.array([labelled(diaries[i], here[i], name) for i in want])
            present = sorted(set(states.ravel().tolist()))
            extra = set(CODES[name].values()) | {'away'}
            if name == 'DemodActivities_0':
                extra -= {'only main activity'}
            matrices(ctx, loader, sub, states, present, sorted(extra - set(present)))
            activity_statistics(ctx, loader, sub, states)
        else:
            sparse(ctx, loader, sub, diaries, want, here)
        ctx.state(ctx.index, repr(sub), which)


def matrices(ctx, loader, sub, states, present, absent):
    for again in range(2):
        tpm, labels, pdf = quiet(loader.load_tpm, dict(sub))
        names = labels.tolist()
        ctx.eq(sorted(names), sorted(present + absent), 'labels')
        if sorted(names) != sorted(present + absent):
            return
        ctx.eq(sorted(names[:len(present)]), sorted(present), 'labels-first')
        x = indexed(states, names)
        ctx.close(pdf, first(x, len(names)), 'initial', atol=1e-12)
        kw = dict(labels=np.array(names)) if absent or isinstance(present[0], str) else {}
        ctx.close(tpm, quiet(states_to_tpms, x, first_tpm_modification_algo='last', **kw), 'tpm', atol=1e-12)
        ctx.event('tpm')
    tpm, durations, labels, pdf, start = quiet(loader.load_tpm_with_duration, dict(sub))
    names = labels.tolist()
    ctx.eq(sorted(names), sorted(present + absent), 'labels')
    x = indexed(states, names)
    algo = 'last' if not isinstance(present[0], str) else 'nothing'
    a, b, _ = quiet(states_to_tpms_with_durations, x, first_tpm_modification_algo=algo, **kw)
    ctx.close(tpm, a, 'tpm-durations', atol=1e-12)
    ctx.close(durations, b, 'durations-pdf', atol=1e-12)
    ctx.close(pdf, first(x, len(names)), 'initial', atol=1e-12)
    ctx.close(start, quiet(get_initial_durations_pdfs, x), 'initial-durations', atol=1e-12)
    ctx.event('tpm_durations')


def runs(row):
    """Number of times each activity starts in the day, which goes round."""
    out = {}
    for k in range(len(row)):
        if row[k] != row[k - 1]:
            out[row[k]] = out.get(row[k], 0) + 1
    return out


def activity_statistics(ctx, loader, sub, states):
    for again in range(2):
        probs = quiet(loader.load_activity_probabilities, dict(sub))
        present = sorted(set(states.ravel().tolist()))
        never = [a for a in ('away', 'sleeping') if a not in present]
        ctx.eq(sorted(k for k in probs if k not in never), sorted(present + ['active_occupancy']), 'probability-activities')
        for a in present:
            ctx.close(probs[a], (states == a).mean(axis=0), 'probability', a, atol=1e-12)
        ctx.close(probs['active_occupancy'], ((states != 'away') & (states != 'sleeping')).mean(axis=0), 'probability-active', atol=1e-12)
        ctx.event('probabilities')
        ctx.event('never_away', 'away' in never)
    starts = quiet(loader.load_daily_activity_starts, dict(sub))
    counts = [runs(row) for row in states.tolist()]
    begun = sorted({a for c in counts for a in c})
    ctx.eq(sorted(k for k in starts if k != 'active_occupancy'), begun, 'starts-activities')
    for a in begun + ['active_occupancy']:
        # active occupancy starts when sleep or absence ends, which is as often as they start
        n = [c.get(a, 0) if a != 'active_occupancy' else c.get('sleeping', 0) + c.get('away', 0) for c in counts]
        want = np.bincount(n) / len(states)
        ctx.close(float(np.sum(starts[a])), 1., 'starts-distribution', a, atol=1e-9)
        ctx.close(starts[a], want, 'starts', a, atol=1e-12)
        ctx.event('starts')
    durations = quiet(loader.load_activity_duration, dict(sub))
    want = quiet(get_durations_by_states, states)
    ctx.eq(sorted(durations), sorted(str(k) for k in want), 'duration-activities')
    for a, d in want.items():
        ctx.close(durations[a], np.bincount(d) / len(d), 'duration', a, atol=1e-12)
        ctx.event('durations')


def sparse(ctx, loader, sub, diaries, want, here):
    """Persons at home and active, away for work or school, and away for something else."""
    rows = []
    for d, h in zip(diaries, here):
        row = []
        for p, s, at in zip(d['prim'], d['sec'], h):
            work = any(200 <= c < 400 or 900 <= c <= 940 for c in (p, s))
            active = CODES['energy'][p] != 'not active' and CODES['energy'][s] != 'not active'
            row.append(int(active) if at else 7 if work else 49)
        rows.append(row)
    states = group(diaries, want, rows)
    for again in range(2):
        tpm, labels, names, pdf = quiet(loader.load_sparse_tpm, dict(sub))
        ctx.eq([str(x) for x in names], ['active', 'HWH', 'HOH'], 'sparse-activities')
        got = [int(x) for x in np.asarray(labels)]
        ctx.eq(sorted(got), sorted(set(states.ravel().tolist())), 'sparse-labels')
        if sorted(got) != sorted(set(states.ravel().tolist())):
            return
        x = indexed(states, got)
        n = len(got)
        ctx.close(pdf, first(x, n), 'sparse-initial', atol=1e-12)
        for t in [0, 143] + [ctx.randint(1, 142) for _ in range(12)]:
            c = np.zeros((n, n))
            np.add.at(c, (x[:, t], x[:, (t + 1) % 144]), 1)
            c = c / np.maximum(c.sum(axis=1, keepdims=True), 1)
            m = np.asarray(tpm[t])
            ctx.close(m[:n, :n], c, 'sparse-tpm', 'step %d' % t, atol=1e-9)
        ctx.event('sparse')


NAMES = dict(watching_tv='Act_TV', cooking='Act_Cooking', laundry='Act_Laundry', self_washing='Act_WashDress', ironing='Act_Iron', cleaning='Act_HouseClean', dishwashing='Act_Dishwashing',
             electronics='Act_Elec')


def profiles(ctx, loader, sub, diaries, want, here, awake):
    """Probability that somebody does the activity when a number of occupants is active."""
    got = quiet(loader.load_activity_probability_profiles, dict(sub))
    ctx.eq(sorted(got), sorted(list(NAMES) + ['level', 'active_occupancy']), 'profile-activities')
    merged = [10 * np.array(h, int) + np.array(a, int) for h, a in zip(here, awake)]
    total = group(diaries, want, merged)
    active = np.minimum(total % 10, total // 10)
    ctx.close(got['level'], np.ones((144, 6)), 'profile-level')
    ctx.close(got['active_occupancy'], np.tile([0., 1, 1, 1, 1, 1], (144, 1)), 'profile-active')
    for act, code in NAMES.items():
        doing = group(diaries, want, [np.array([CODES['crest'][p] == code or CODES['crest'][s] == code for p, s in zip(d['prim'], d['sec'])], int) for d in diaries])
        expect = np.zeros((144, 6))
        for n in range(1, 6):
            these = active == n
            expect[:, n] = np.sum(these & (doing > 0), axis=0) / np.maximum(these.sum(axis=0), 1)
        ctx.close(got[act], expect, 'profile', act, atol=1e-12)
        ctx.event('profiles')
