"""P31 raw sources are read into the data they contain."""
import datetime as dt
import os
import warnings

import numpy as np
import openpyxl
import pandas as pd

from vlib.core import Spec
from checks.store import root
import demod
from demod.datasets.DESTATIS.loader import Destatis
from demod.datasets.ExampleData.example_loader import ExampleLoader
from demod.datasets.ExcellInputFile.loader import InputFileLoader
from demod.datasets.FfE_Open_Data import FfE_DataLoader
from demod.datasets.Germany.loader import GermanDataHerus
from demod.datasets.GermanTOU.loader import GTOU
from demod.datasets.tracebase.loader import Tracebase
from demod.utils.appliances import assign_ownership_from_prob1_and_number

S = Spec('P31', 'Random input workbooks, appliance penetration tables, measured load traces and load profiles in the layouts of the shipped sources, read by the dataset '
         'loaders and compared cell by cell; non-trivial = distinct source contents.',
         required=['workbook_germany', 'workbook_input', 'unnamed_column', 'spaces', 'shipped_workbook', 'ownership', 'ownership_by_revenue', 'ownership_by_family',
                   'ownership_fallback', 'missing_figure', 'trace', 'trace_on', 'trace_steps', 'ffe', 'example', 'delegated', 'shipped', 'published'],
         assumptions=['Workbooks keep the rows and the named columns of the shipped ones; appliance penetration tables keep the rows and columns of the shipped one.',
                      'Measured traces have increasing times within one day; a last step of zeros after the trace is accepted.'])

HERE = os.path.join(os.path.dirname(demod.__file__), 'datasets')
FLAGS = ('inactive_switch_off', 'uses_water', 'probabilistic')


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


def bare(x):
    return x.replace(' ', '') if isinstance(x, str) else x


def cells(ws, header, last=None):
    """The named columns of a table of the sheet."""
    out = {}
    for c in range(1, ws.max_column + 1):
        name = ws.cell(header, c).value
        if name is not None:
            out[bare(name)] = [bare(ws.cell(r, c).value) for r in range(header + 1, (last or ws.max_row) + 1)]
    return out


def same(got, want):
    """Equal cell by cell, an empty cell being NaN."""
    got = list(got)
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if w is None or isinstance(w, str) and w.startswith('#'):
            if not (g is None or g != g or g == 'nan'):
                return False
        elif isinstance(w, str):
            if str(g) != w:
                return False
        elif isinstance(g, str) or not np.isclose(float(g), float(w), rtol=1e-9, atol=1e-12):
            return False
    return True


def table(ctx, got, want, key, flags=()):
    ctx.eq(int(got['number']), len(want['name']), key + '-number')
    ctx.eq(sorted(set(map(str, got)) - {'number'}), sorted(want), key + '-columns')
    for k, w in want.items():
        if k in flags:
            w = [bool(x) for x in w]
        ctx.check(same(np.asarray(got[k]).tolist(), w), key + '-values', lambda: '%s: %r instead of %r' % (k, list(got[k])[:20], w[:20]))
        if k in flags:
            ctx.eq(np.asarray(got[k]).dtype.kind, 'b', key + '-flag', k)


def judge(ctx, loader, path, germany):
    """All that a loader gives equals what the workbook's cells contain."""
    wb = openpyxl.load_workbook(path, data_only=True)
    app = cells(wb['Appliances'], 15)
    got = quiet(loader.load_appliance_dict)
    table(ctx, got, app, 'appliances', FLAGS if germany else FLAGS[:2])
    want = dict(zip(app['type'], app.get('target_cycle_year', ())))
    got = quiet(loader.load_yearly_target_switchons, {}) if want else {}
    ctx.eq(sorted(map(str, got)), sorted(want), 'targets-types')
    for k in want:
        ctx.check(same([got[k]], [want[k]]), 'targets', '%s: %r instead of %r' % (k, got[k], want[k]))
    table(ctx, quiet(loader.load_buildings_dict, {}), cells(wb['Buildings'], 5), 'buildings')
    table(ctx, quiet(loader.load_heating_system_dict, {}), cells(wb['Heating Systems'], 5), 'heating')
    ws = wb['Lighting']

    def column(c, a, b):
        return np.array([ws.cell(r, c).value for r in range(a, b + 1)], float)
    got = quiet(loader.load_crest_lighting)
    for k, w in dict(calibration_scalar=ws['F24'].value, irradiance_threshold_mean=ws['F4'].value, irradiance_threshold_std=ws['G4'].value,
                     effective_occupancy=column(5, 37, 42), durations_minutes_low=column(3, 55, 63), durations_minutes_high=column(4, 55, 63),
                     durations_cdf=column(5, 55, 63)).items():
        ctx.close(got[k], w, 'lighting', k, rtol=1e-9)
    watts, share = quiet(loader.load_bulbs)
    ctx.close(np.asarray(share, float), column(4, 77, ws.max_row), 'bulbs-penetration', rtol=1e-9)
    ctx.close(np.asarray(watts, float), column(5, 77, ws.max_row), 'bulbs-consumption', rtol=1e-9)
    mean, std = quiet(loader.load_installed_bulbs_stats)
    ctx.close([float(mean), float(std)], [float(ws['D70'].value), float(ws['D71'].value)], 'bulbs-installed', rtol=1e-9)
    if not germany:
        ws = wb['bulbs']
        want = np.array([[np.nan if ws.cell(i, j).value is None else ws.cell(i, j).value for j in range(3, ws.max_column + 1)]
                         for i in range(11, ws.max_row + 1)], float)
        used = np.isfinite(want)
        want = want[:used.any(1).nonzero()[0][-1] + 1, :used.any(0).nonzero()[0][-1] + 1]
        ctx.close(np.asarray(quiet(loader.load_bulbs_config), float), want, 'bulbs-config', rtol=1e-12)
        ctx.event('bulbs_config')
    ctx.event('unnamed_column', any(wb['Appliances'].cell(15, c).value is None and wb['Appliances'].cell(16, c).value is not None for c in range(1, 20)))
    ctx.event('spaces', any(isinstance(c.value, str) and ' ' in c.value for c in wb['Appliances'][15]))


def spaced(r, word):
    return word + ' ' * int(r.random() < .4) if r.random() < .9 else ' ' + word


def words(r):
    return str(r.choice(['a', 'Heat pump', 'level', 'washing ', 'tv', 'Mains gas', 'cooking', 'active_occupancy', 'x y z']))


def number(r):
    return [lambda: int(r.integers(0, 2)), lambda: float(np.round(r.random(), 4)), lambda: int(r.integers(0, 10 ** 6)), lambda: float(r.normal() * 100)][int(r.integers(4))]()


def sheet(wb, r, title, header, names, text, rows):
    """A table with named and unnamed columns in a random order below some notes."""
    ws = wb.create_sheet(title)
    for _ in range(int(r.integers(0, 6))):
        ws.cell(int(r.integers(1, header)), int(r.integers(1, 9)), words(r))
    columns = list(names)
    r.shuffle(columns)
    at = 1 + int(r.random() < .7)
    for n in columns:
        while r.random() < .25:
            for i in range(rows):
                ws.cell(header + 1 + i, at, number(r))
            at += 1
        ws.cell(header, at, spaced(r, n))
        for i in range(rows):
            if n == 'name':
                v = 'N%d' % i
            elif n == 'type':
                v = words(r) + str(int(r.integers(0, rows)))
            elif n in FLAGS or n == 'is_combi':
                v = int(r.random() < .5)
            elif n in text:
                v = words(r) if r.random() < .9 else None
            else:
                v = number(r) if r.random() < .93 else None
            if v is not None:
                ws.cell(header + 1 + i, at, v)
        at += 1
    return ws


@S.scenario(64, 1500)
def workbook(ctx):
    """Random workbooks, read directly and through the stored German data."""
    r = ctx.rng
    where = root(ctx)
    os.mkdir(os.path.join(where, 'raw_data'))
    germany = bool(r.random() < .5)
    version = ctx.choice(['v0.1', 'vBottaccioli'])
    path = os.path.join(where, 'raw_data', 'data_%s.xlsx' % version)
    ctx.case(germany=germany, version=version)
    wb = openpyxl.Workbook()
    names = ['name', 'type', 'equipped_prob', 'related_activity', 'inactive_switch_off', 'mean_elec_consumption', 'uses_water', 'mean_duration', 'target_cycle_year']
    names += [n for n in ('probabilistic', 'standby_consumption', 'after_activity', 'mean_water_consumption', 'switch_on_probabilities') if r.random() < .6]
    sheet(wb, r, 'Appliances', 15, names, ('related_activity', 'after_activity'), ctx.randint(1, 30))
    sheet(wb, r, 'Buildings', 5, ['name', 'equipped_prob', 'floor_area', 'int_capacitance', 'height'], (), ctx.randint(1, 9))
    sheet(wb, r, 'Heating Systems', 5, ['name', 'equipped_prob', 'is_combi', 'fuel_type', 'fuel_flow_rate', 'heat_output_sh', 'cyl_volume'], ('fuel_type',), ctx.randint(1, 7))
    ws = wb.create_sheet('Lighting')

    def fill(c, a, b):
        for i in range(a, b + 1):
            ws.cell(i, c, float(np.round(r.random() * 100, 4)))
    ws['F4'], ws['G4'], ws['F24'] = 60.25 + ctx.randint(0, 30), 10.5 + ctx.randint(0, 9), float(np.round(r.random(), 4)) + .00001
    ws['E36'] = 'occupancy'
    ws['C54'] = ws['D54'] = '(minutes)'
    ws['E54'] = 'probability'
    ws['D76'], ws['E76'] = 'Penetration', 'Consumption[W]'
    ws['B70'], ws['B71'] = 'mean', 'std'
    fill(5, 37, 42 + ctx.randint(0, 3))
    for c in (3, 4, 5):
        fill(c, 55, 63)
    fill(4, 70, 71)
    last = 77 + ctx.randint(0, 6)
    for c in (4, 5):
        fill(c, 77, last)
    ws = wb.create_sheet('bulbs')
    ws['A1'], ws['C3'], ws['B7'], ws['A10'] = words(r), words(r), 'Bulb nb', 'House Nb'
    wide = ctx.randint(1, 9)
    for i in range(ctx.randint(1, 12)):
        for j in range(wide):
            if r.random() < .7 or i == 0:
                ws.cell(11 + i, 3 + j, number(r))
    wb.save(path)
    if germany:
        cls = type('G', (GermanDataHerus,), dict(DATASET_NAME=where))
        loader = quiet(cls, version)
        judge(ctx, loader, path, True)
        # and again from what was stored
        judge(ctx, quiet(cls, version), path, True)
        ctx.event('workbook_germany')
    else:
        judge(ctx, InputFileLoader(path), path, False)
        ctx.event('workbook_input')
    ctx.state('workbook', version, germany, ctx.index)


@S.scenario(3, 3)
def shipped_workbooks(ctx):
    """What is shipped: parsed data as the workbooks beside them, and the example workbook."""
    which = ctx.index % 3
    ctx.case(which=which)
    if which < 2:
        version = ['v0.1', 'vBottaccioli'][which]
        path = os.path.join(HERE, 'Germany', 'raw_data', 'data_%s.xlsx' % version)
        where = root(ctx)
        os.mkdir(os.path.join(where, 'raw_data'))
        os.link(path, os.path.join(where, 'raw_data', os.path.basename(path)))
        judge(ctx, quiet(type('G', (GermanDataHerus,), dict(DATASET_NAME=where)), version), path, True)
    else:
        judge(ctx, InputFileLoader(), os.path.join(HERE, 'ExcellInputFile', 'inputs.xlsx'), False)
    ctx.event('shipped_workbook')
    ctx.state('shipped', which)


RAW = []


def penetration():
    if not RAW:
        RAW.append(pd.read_excel(os.path.join(HERE, 'DESTATIS', 'raw_data', 'appliances_penetration.ods'), header=None))
    return RAW[0]


def column_of(top, mid, low=None):
    """The column below these headings."""
    df = penetration()
    a = [c for c in range(df.shape[1]) if str(df.iloc[0, c]).startswith(top)]
    start = a[0]
    end = next(c for c in range(start, df.shape[1]) if all(str(df.iloc[i, c]) == 'nan' for i in range(3)))
    seen = None
    for c in range(start, end):
        if str(df.iloc[1, c]) != 'nan':
            seen = str(df.iloc[1, c])
        if seen.startswith(mid) and (low is None or str(df.iloc[2, c]) == low):
            return c
    raise LookupError((top, mid, low))


TYPE, FAMILY, SIZE, INCOME = 'Davon nach dem Haushaltstyp', 'Darunter nach Alleinerziehenden', 'Davon mit ... Person', 'Darunter nach dem monatlichen'


def subgroup_column(r):
    k = int(r.integers(6))
    extra = {}
    if r.random() < .3:
        extra['weekday'] = [1, 2, 3, 4, 5]
    if r.random() < .2:
        extra['quarter'] = int(r.integers(1, 5))
    if k == 0:
        g = [None, 1, 2][int(r.integers(3))]
        sub = dict(household_type=1, n_residents=1)
        if g:
            sub['gender'] = g
        return {**sub, **extra}, column_of(TYPE, 'davon Allein' if g else 'Allein- lebende', {None: None, 1: 'Männer', 2: 'Frauen'}[g]), 'family'
    if k == 1:
        return {**dict(household_type=2, n_residents=2), **extra}, column_of(TYPE, 'davon Paare', 'ohne Kind'), 'family'
    if k == 2:
        t, n, col = [(3, 2, ('davon mit Kind(ern) 1)', '1')), (3, 3, ('davon mit Kind(ern) 1)', '2 und mehr')), (3, 4, ('davon mit Kind(ern) 1)', '2 und mehr')),
                     (4, 3, ('davon mit Kind(ern) 2)', '1')), (4, 4, ('davon mit Kind(ern) 2)', '2')), (4, 5, ('davon mit Kind(ern) 2)', '3 und mehr'))][int(r.integers(6))]
        return {**dict(household_type=t, n_residents=n), **extra}, column_of(FAMILY, *col), 'family'
    if k == 3:
        n = int(r.integers(1, 6))
        sub = dict(n_residents=n)
        if n < 3 and r.random() < .5:
            sub['household_type'] = 5
            return {**sub, **extra}, column_of(SIZE, str(n)), 'fallback'
        return {**sub, **extra}, column_of(SIZE, str(n)), 'size'
    if k == 4:
        bounds = [0, 900, 1300, 1500, 2000, 2600, 3600, 5000, 18000]
        i = int(r.integers(8))
        v = bounds[i] if r.random() < .5 else int(r.integers(bounds[i], bounds[i + 1]))
        v = v or 1
        return {**dict(household_revenue=v), **extra}, column_of(INCOME, 'unter 900') + i, 'revenue'
    y = [2008, 2013, 2018][int(r.integers(3))]
    return {**dict(year=y), **extra}, column_of('Deutschland', str(y)), 'year'


def ownership_of(df, col):
    """From the numbers per 100 households and the percentages of the column."""
    split = next(i for i in range(len(df)) if str(df.iloc[i, 1]).startswith('% of equipped'))
    numbers = [i for i in range(3, split) if isinstance(df.iloc[i, 0], str)]
    # the rows of both parts come in the same order
    first = {t: i for t, i in ((str(df.iloc[i, 1]), i) for i in range(split - 1, 2, -1)) if t != 'nan'}
    shift = split + 1 - first['Locomotion mediums']
    out, missing = {}, 0

    def num(v):
        return float(v) / 100 if not isinstance(v, str) and v is not None else float('nan')
    for i in numbers:
        name = df.iloc[i, 0].replace(' ', '')
        n, p = num(df.iloc[i, col]), num(df.iloc[i + shift, col])
        missing += np.isnan(n) or np.isnan(p)
        for j, q in enumerate(assign_ownership_from_prob1_and_number(p, n)):
            out[name if j == 0 else '%s_%d' % (name, j + 1)] = 0. if np.isnan(q) else float(q)
    return out, missing


@S.scenario(24, 300, weight=3)
def ownership(ctx):
    """Appliance ownership of subgroups from shipped and random penetration tables."""
    r = ctx.rng
    where = root(ctx)
    os.mkdir(os.path.join(where, 'raw_data'))
    path = os.path.join(where, 'raw_data', 'appliances_penetration.ods')
    shipped = ctx.index % 4 == 0
    ctx.case(shipped=shipped)
    df = penetration().copy()
    if shipped:
        os.link(os.path.join(HERE, 'DESTATIS', 'raw_data', 'appliances_penetration.ods'), path)
    else:
        # other figures in the same table: keep the percentages below the numbers
        df = df.iloc[:, :68].astype(object)
        digits = int(r.integers(0, 4))
        for c in range(2, 68):
            for i in range(7, 56):
                v = df.iloc[i, c]
                if isinstance(v, (int, float)) and v == v:
                    p = float(np.round(r.random() * 95 + 1, digits))
                    df.iloc[i + 51, c] = '-' if r.random() < .05 else p
                    df.iloc[i, c] = '-' if r.random() < .05 else float(np.round(p * (1 + r.random()), digits))
        df.to_excel(path, header=False, index=False, engine='odf')
    cls = type('D', (Destatis,), dict(DATASET_NAME=where))
    loader = cls()
    for _ in range(16 if not ctx.thorough else 30):
        sub, col, how = subgroup_column(r)
        before = repr(sub)
        got = quiet(loader.load_appliance_ownership_dict, sub)
        want, missing = ownership_of(df, col)
        ctx.eq(repr(sub), before, 'subgroup-changed')
        ctx.eq(sorted(map(str, got)), sorted(want), 'ownership-appliances', sub)
        ctx.close([float(got[k]) for k in sorted(want)], [want[k] for k in sorted(want)], 'ownership', '%s: column %d' % (sub, col), rtol=1e-9, atol=1e-12)
        ctx.event('ownership')
        ctx.event('ownership_by_revenue', how == 'revenue')
        ctx.event('ownership_by_family', how == 'family')
        ctx.event('ownership_fallback', how == 'fallback')
        ctx.event('missing_figure', missing > 0)
        ctx.state('ownership', ctx.index, before)
    for bad in (dict(n_residents=6), dict(n_residents=-1), dict(household_revenue=-100)):
        ctx.raises((AssertionError, ValueError), lambda: quiet(loader.load_appliance_ownership_dict, dict(bad)), 'ownership-refused', str(bad))


ON_FILES = ['dev_995BAC_2012.06.11.csv', 'dev_B7E6F4_2012.02.03.csv', 'dev_11F01E_2011.12.10.csv', 'dev_7297E3_2012.01.16.csv', 'dev_B7E43D_2012.01.24.csv',
            'dev_D337C2_2011.12.26.csv', 'dev_995FCC_2012.01.21.csv', 'Washingmachine_2011.11.30.csv', 'Microwave_2012.01.02.csv']
TYPES = {'Dishwasher': 'dishwasher', 'Washingmachine': 'washingmachine', 'LaundryDryer': 'dryer', 'Iron': 'iron', 'MicrowaveOven': 'microwave', 'Refrigerator': 'fridge',
         'Projector': 'projector', 'VideoProjector': 'projector', 'WaterKettle': 'kettle', 'USBHub': None, 'Breadcutter': None}


@S.scenario(60, 1500)
def traces(ctx):
    """Measured traces: seconds interpolated, averaged over the steps, cropped to the running time."""
    r = ctx.rng
    where = root(ctx)
    base = os.path.join(where, 'raw_data', 'tracebase-master', 'complete')
    os.makedirs(base)
    open(os.path.join(where, 'raw_data', 'raw_github.zip'), 'w').close()
    raw = {}
    files = list(ON_FILES) + ['other_%d.csv' % i for i in range(6)]
    r.shuffle(files)
    for t in [str(t) for t in r.choice(sorted(TYPES), ctx.randint(1, 5), replace=False)]:
        os.mkdir(os.path.join(base, t))
        for _ in range(ctx.randint(1, 3)):
            name = files.pop()
            n = ctx.randint(2, 200)
            s = np.cumsum(r.integers(1, [3, 15, 120][int(r.integers(3))], n)) + int(r.integers(0, 60000))
            s = s[s < 86400]
            w = np.round(np.where(r.random(len(s)) < .4, r.random(len(s)) * 5, r.random(len(s)) * 2000), 1)
            if r.random() < .4:
                w = np.round(w)
            if len(s) < 2 or (w <= 6).all():
                w[len(w) // 2:] = 100.
            day = dt.datetime(2011, 12, 10)
            with open(os.path.join(base, t, name), 'w') as f:
                for x, v in zip(s, w):
                    f.write('%s;%s;%s\n' % ((day + dt.timedelta(seconds=int(x))).strftime('%d/%m/%Y %H:%M:%S'), v, 0))
            raw[t, name] = (s, w)
    steps = sorted({ctx.choice([1, 2, 10, 60, 60, 300, 600, 900]) for _ in range(2)})
    ctx.case(steps=steps, files={'%s/%s' % k: (v[0].tolist(), v[1].tolist()) for k, v in raw.items()})
    cls = type('T', (Tracebase,), dict(DATASET_NAME=where))
    for step in steps:
        loader = quiet(cls, step_size=dt.timedelta(seconds=step))
        for again in range(2):
            full = quiet(loader.load_real_profiles_dict, 'full')
            ctx.eq(sorted(full), sorted({TYPES[t] for t, _ in raw if TYPES[t]}), 'trace-types')
            ctx.eq(sorted((k, n) for k in full for n in full[k]), sorted((TYPES[t], n) for t, n in raw if TYPES[t]), 'trace-names')
            for (t, n), (s, w) in raw.items():
                if TYPES[t]:
                    got = np.asarray(full[TYPES[t]][n], float)
                    want = []
                    second = np.interp(np.arange(s[0], s[-1]), s, w)
                    for i in range(0, len(second), step):
                        want.append(second[i:i + step].sum() / step)
                    if len(got) == len(want) + 1 and len(second) % step == 0 and got[-1] == 0:
                        got = got[:-1]
                    ctx.close(got, want, 'trace', '%s/%s every %d s' % (t, n, step), rtol=1e-9, atol=1e-9)
                    ctx.event('trace')
        ok = all(np.any(np.asarray(full[TYPES[t]][n]) > 6) for t, n in raw if TYPES[t] and n in ON_FILES)
        if ok:
            on = quiet(loader.load_real_profiles_dict, 'switchedON')
            ctx.eq(sorted((k, n) for k in on for n in on[k]), sorted((TYPES[t], n) for t, n in raw if TYPES[t] and n in ON_FILES), 'on-names')
            for k in on:
                for n in on[k]:
                    x = np.asarray(full[k][n], float)
                    above = np.flatnonzero(x > 6)
                    ctx.close(np.asarray(on[k][n], float), x[above[0]:above[-1] + 1], 'on', '%s/%s every %d s' % (k, n, step))
                    ctx.event('trace_on')
    ctx.event('trace_steps', len(steps) > 1)
    ctx.state('traces', ctx.index)


FFE = {1: 'One full-time working person', 2: 'One pensioneer', 3: 'Two full-time working persons', 4: 'Two pensioneers', 5: 'One full-time and one part-time working person',
       6: 'Two full-time working persons, one child', 7: 'One full-time and one part-time working person, one child', 8: 'Two full-time working persons, two children',
       9: 'One full-time and one part-time working person, two children', 10: 'Two full-time working persons, three children',
       11: 'One full-time and one part-time working person, three children'}


@S.scenario(30, 400)
def profiles(ctx):
    """Load profiles of FfE and the example dataset."""
    import json
    r = ctx.rng
    where = root(ctx)
    os.mkdir(os.path.join(where, 'raw_data'))
    n = ctx.randint(1, 30)
    rows = [dict(internal_id_1=ctx.randint(1, 11), internal_id_2=i % 4, values=[float(x) for x in np.round(r.random(n) * 3, 4) + .0001]) for i in range(ctx.randint(4, 14))]
    r.shuffle(rows)
    heat = [dict(internal_id_1=ctx.randint(1, 11), values=[float(x) for x in np.round(r.random(n) * 3, 4) + .0001]) for _ in range(ctx.randint(1, 6))]
    for name, data in (('electric', rows), ('thermal', heat)):
        with open(os.path.join(where, 'raw_data', 'v_opendata_%s_load.htm' % name), 'w') as f:
            json.dump(dict(data=[data]), f)
    ctx.case(rows=rows, heat=heat)
    cls = type('F', (FfE_DataLoader,), dict(DATASET_NAME=where))
    total = [d for d in rows if d['internal_id_2'] == 0]
    for again in range(3):
        loader = cls()
        loader.allow_pickle = True
        watts = bool(r.random() < .6)
        got, labels = quiet(loader.load_electric_load_profiles, return_labels=True, convert_to_watts=watts)
        ctx.close(np.asarray(got, float), np.array([d['values'] for d in total]) * (1000. if watts else 1.), 'electric', rtol=1e-9)
        ctx.eq([d['hh_type'] for d in labels], [d['internal_id_1'] for d in total], 'electric-labels')
        got, labels = quiet(loader.load_thermal_load_profiles, return_labels=True)
        ctx.close(np.asarray(got, float), np.array([d['values'] for d in heat]), 'thermal', rtol=1e-9)
        ctx.eq([d['hh_type'] for d in labels], [d['internal_id_1'] for d in heat], 'thermal-labels')
        named = quiet(cls().load_labels_name, [d['hh_type'] for d in labels])
        ctx.eq([str(s).strip() for s in named], [FFE[d['internal_id_1']] for d in heat], 'thermal-names')
        k = ctx.randint(1, 11)
        ctx.eq(str(quiet(cls().load_labels_name, k)).strip(), FFE[k], 'name')
        ctx.event('ffe')
    a, b = r.random((2, n))
    with open(os.path.join(where, 'raw_data', 'ex_one_1_file_txt.txt'), 'w') as f:
        f.write('col1,col2\n' + ''.join('%r,%r\n' % (float(x), float(y)) for x, y in zip(a, b)))
    cls = type('E', (ExampleLoader,), dict(DATASET_NAME=where))
    for again in range(2):
        got = quiet(cls().get_example1_data, return_ex2=True)
        ctx.close(np.ravel(got[0]), a, 'example')
        ctx.close(np.ravel(got[1]), b, 'example')
        ctx.event('example')
    ctx.state('profiles', ctx.index)


# shares (in percent) and numbers of households published by DESTATIS
POPULATIONS = {
    'resident_number_2013': ([dict(n_residents=n) for n in range(1, 6)], [40.54, 34.43, 12.51, 9.21, 3.31], 39933000),
    'resident_number_2019': ([dict(n_residents=n) for n in range(1, 6)], [42.3, 33.2, 11.9, 9.1, 3.5], 41506000),
    'household_types_2019': ([dict(n_residents=n, household_type=t) for t, n in ((1, 1), (2, 2), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4), (4, 5))],
                             [17.067, 11.850, 1.007, .408, .109, 2.553, 2.370, .801], 41506000)}
POPULATIONS.update(resident_number=POPULATIONS['resident_number_2019'], crest=POPULATIONS['resident_number_2019'], household_types=POPULATIONS['household_types_2019'])
HOMES = [.01, .02, .01, .03, .04, .08, .16, .14, .16, .16, .09, .05, .03, .01, .01]
WATERS = [.04, .04, .11, .08, .13, .09, .14, .11, .08, .10, .04, .04]


def published(ctx, g, d):
    """The figures that come with the loaders."""
    for kind, (subs, shares, total) in POPULATIONS.items():
        for loader in (g, d):
            got = quiet(loader.load_population_subgroups, kind)
            ctx.eq([dict(s) for s in got[0]], subs, 'published-subgroups', kind)
            ctx.close(got[1], np.array(shares) / sum(shares), 'published-shares', kind, rtol=1e-9)
            ctx.eq(int(got[2]), total, 'published-total', kind)
            ctx.raises(Exception, lambda: quiet(loader.load_population_subgroups, 'residents_1900'), 'population-unknown')
    ctx.eq(repr(quiet(g.load_population_subgroups)), repr(quiet(g.load_population_subgroups, 'household_types_2019')), 'default-population')
    th = quiet(g.load_thermostat_dict)
    ctx.close(th['home_temperatures_cdf'], np.cumsum(HOMES), 'home-temperatures', rtol=1e-9)
    ctx.close(th['water_temperatures_cdf'], np.cumsum(WATERS), 'water-temperatures', rtol=1e-9)
    ctx.close(th['home_temperatures_values'], np.arange(13., 28.), 'home-temperatures')
    ctx.close(th['water_temperatures_values'], [42, *range(43, 62, 2), 62], 'water-temperatures')
    ctx.close([float(th['emitter_setpoints'])] + [float(th['deadband'][k]) for k in ('space_heating', 'hot_water', 'emitter')], [50, 1, 5, 5], 'deadbands')
    ctx.event('published')


@S.scenario(12, 12)
def shipped(ctx):
    """The German data are those of its sources, and the shipped distributions are distributions."""
    version, name = [('v0.1', 'Sparse9States'), ('vBottaccioli', 'Bottaccioli2018')][ctx.index % 2]
    kind = ['household_types', 'resident_number', 'resident_number_2013', 'resident_number_2019', 'crest', 'household_types_2019'][ctx.index // 2 % 6]
    ctx.case(version=version, kind=kind)
    g, t, d = quiet(GermanDataHerus, version), quiet(GTOU, name), Destatis()
    if version == 'vBottaccioli':
        ctx.raises(NotImplementedError, lambda: quiet(g.load_fisher_lighting), 'refused')
    published(ctx, g, d)
    # and parsed again
    where = root(ctx)
    os.mkdir(os.path.join(where, 'raw_data'))
    open(os.path.join(where, 'raw_data', 'data_%s.xlsx' % version), 'w').close()
    published(ctx, quiet(type('G', (GermanDataHerus,), dict(DATASET_NAME=where)), version), type('D', (Destatis,), dict(DATASET_NAME=where))())
    subs, pdf, total = quiet(g.load_population_subgroups, kind)
    subs2, pdf2, total2 = quiet(d.load_population_subgroups, kind)
    ctx.eq(repr((subs, total)), repr((subs2, total2)), 'population')
    ctx.close(pdf, pdf2, 'population')
    ctx.close(float(np.sum(pdf)), 1., 'population-pdf', atol=1e-9)
    ctx.check(np.all(np.asarray(pdf) > 0) and len(pdf) == len(subs), 'population-pdf', str(pdf))
    for sub in subs:
        a, b = quiet(g.load_appliance_ownership_dict, dict(sub)), quiet(d.load_appliance_ownership_dict, dict(sub))
        ctx.eq({k: float(v) for k, v in a.items()}, {k: float(v) for k, v in b.items()}, 'ownership-delegated')
        ctx.check(all(0 <= v <= 1 for v in a.values()), 'ownership-probability', str(sub))
        for weekday in ([1, 2, 3, 4, 5], [6, 7]):
            if 'household_type' not in sub:
                continue
            s = dict(sub, weekday=weekday)
            for m in ('load_activity_probability_profiles', 'load_sparse_tpm', 'load_tpm_with_duration', 'load_tpm', 'load_activity_probabilities', 'load_daily_activity_starts'):
                def attempt(o):
                    try:
                        return quiet(getattr(o, m), dict(s))
                    except Exception as e:
                        return type(e).__name__
                x, y = attempt(g), attempt(t)
                if isinstance(x, str) or isinstance(y, str):
                    ctx.eq(x, y, 'delegated', m)
                    continue
                ctx.eq(flat(x), flat(y), 'delegated', m)
                ctx.event('delegated')
                if m == 'load_activity_probability_profiles':
                    for k, v in x.items():
                        ctx.check(np.all((np.asarray(v) >= 0) & (np.asarray(v) <= 1)), 'profile-probability', k)
                if m == 'load_sparse_tpm':
                    ctx.close(float(np.sum(x[3])), 1., 'initial-pdf', atol=1e-9)
                    ctx.eq(len(x[1]), len(x[3]), 'labels')
        ctx.event('shipped')
    ctx.state(version, kind)


def flat(x):
    """Contents as plain numbers and texts."""
    if isinstance(x, dict):
        return {str(k): flat(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    if isinstance(x, np.ndarray):
        return [str(x.shape), x.tobytes() if x.dtype.kind != 'O' else repr(x.tolist())]
    if hasattr(x, '__dict__') and not callable(x):
        return {k: flat(v) for k, v in vars(x).items()}
    return repr(x)
