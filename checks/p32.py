"""P32 the CREST workbook becomes the CREST data."""
import os
import warnings

import numpy as np
import openpyxl

from vlib.core import Spec
from checks.store import root
from demod.datasets.CREST.loader import Crest
from demod.utils.parse_helpers import bulbs_stats_from_config

S = Spec('P32', 'Workbooks in the layout of the CREST demand model 2.2 (and, where supported, 2.3.3) are written with random or with the shipped contents and read by the CREST loader, '
         'first and again from what was stored, and compared with the contents; non-trivial = distinct workbooks.',
         required=['tpm', 'empty_row', 'start', 'appliances', 'activities', 'ownership', 'clearness', 'bulbs', 'lighting', 'heating', 'thermostat', 'buildings', 'population',
                   'shipped_back', 'stored_again', 'refused', 'indian', 'constants', 'cycle'],
         assumptions=['The workbooks keep the sheets, header rows, column titles and table sizes of the CREST demand model 2.2; 2.3.3 differs in its population title, calibration column and number of heating systems.'])

HERE = os.path.join(os.path.dirname(__import__('demod').__file__), 'datasets', 'CREST', 'parsed_data')
DAYS = {'d': [1, 2, 3, 4, 5], 'e': [6, 7]}
ACTS = ['Act_TV', 'Act_Cooking', 'Act_Laundry', 'Act_WashDress', 'Act_Iron', 'Act_HouseClean']
ACTIVITY = {'ACT_TV': 'watching_tv', 'ACT_COOKING': 'cooking', 'ACT_LAUNDRY': 'laundry', 'ACT_WASHDRESS': 'self_washing', 'ACT_IRON': 'ironing',
            'ACT_HOUSECLEAN': 'cleaning', 'LEVEL': 'level', 'ACTIVE_OCC': 'active_occupancy'}
TYPES = dict(CHEST_FREEZER='chest_freezer', FRIDGE_FREEZER='fridge_freezer', FRIDGE='fridge', UPRIGHT_FREEZER='upright_freezer', ANSWER_MACHINE='answermachine_phone',
             CD_PLAYER='cd_speaker', CLOCK='clock', PHONE='fixed_phone', HIFI='hifi_speaker', IRON='iron', VACUUM='vacuum_cleaner', FAX='fax_printer', PC='fixed_computer',
             PRINTER='printer', TV1='tv', TV2='tv', TV3='tv', VCR_DVD='dvd_console', RECEIVER='dual_box', HOB='hob', OVEN='oven', MICROWAVE='microwave', KETTLE='kettle',
             SMALL_COOKING='toaster', DISH_WASHER='dishwasher', TUMBLE_DRYER='tumble_dryer', WASHING_MACHINE='washingmachine', WASHER_DRYER='washer_dryer',
             DESWH='des_water_heater', E_INST='einst_water_heater', ELEC_SHOWER='electric_shower', BASIN='basin', SINK='sink', SHOWER='shower', BATH='bath')
BUILDING = dict(equipped_prob='Proportion of dwellings of this building type', name='Description',
                out_build_transfer_coef='Thermal transfer coefficient between outside air and external building thermal capacitance',
                build_int_transfer_coef='Thermal transfer coefficient between external building thermal capacitance and internal building thermal capacitance',
                ventilation_transfer_coef='Thermal transfer coefficient representing ventilation heat loss between outside air and internal building thermal capacitance',
                ext_capacitance='External building thermal capacitance', int_capacitance='Internal building thermal capacitance', irradiance_multiplier='Global irradiance multiplier',
                floor_area='Floor area, living space', height='Height, living space', emitters_target_temperature='Nominal temperature of emitters ',
                emitters_transfer_coef='Heat transfer coefficient of emitters', emitters_capacitance='Thermal capacitance of emitters')
HEATING = dict(equipped_prob='Proportion of dwellings with this heating system', name='Type of heating unit', is_combi='Type of system', fuel_type='Type of fuel',
               fuel_flow_rate='Fuel flow rate (nominal)', flow_rate_to_W='Calorific value of fuel flow rate', heat_output_sh='Heat output of unit',
               standby_power='Standby power', pump_power='Pump power', cyl_volume='DHW cylinder volume', cyl_loss='DHW Tank Heat Loss')


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


class Book:
    """A CREST workbook in a scratch dataset folder."""

    def __init__(self, ctx, version='2.2'):
        self.ctx, self.version, self.r = ctx, version, ctx.rng
        self.where = root(ctx)
        os.mkdir(os.path.join(self.where, 'raw_data'))
        self.wb = openpyxl.Workbook()
        self.loaders = []

    def sheet(self, name):
        ws = self.wb.create_sheet(name)
        ws.cell(1, 2, 'CREST %s' % name)
        return ws

    def load(self):
        """Two loaders: the first reads the workbook, the second what the first stored."""
        self.wb.save(os.path.join(self.where, 'raw_data', 'CREST_Demand_Model_v%s.xlsm' % self.version))
        self.cls = type('C', (Crest,), dict(DATASET_NAME=self.where))
        a, b = quiet(self.cls, self.version), quiet(self.cls, self.version)
        return a, b

    def both(self, judge):
        for i, l in enumerate(self.load()):
            judge(l)
            if i:
                self.ctx.event('stored_again')


def shipped(*path):
    return np.load(os.path.join(HERE, 'v_2.2', *path), allow_pickle=True)


def row(ws, r, c, values):
    for i, v in enumerate(values):
        if v is not None:
            ws.cell(r, c + i, v.item() if hasattr(v, 'item') else v)


@S.scenario(18, 200, weight=5)
def occupancy(ctx):
    """Transition matrices and starting states of every household size and kind of day."""
    r = ctx.rng
    n = [1, 1, 2, 2, 3, 3, 4, 5, 6][ctx.index % 9]
    day = 'de'[ctx.index // 9 % 2]
    real = ctx.index % 2 == 0
    size = (n + 1) ** 2
    ctx.case(residents=n, day=day, shipped=real)
    b = Book(ctx)
    key = '_n_residents_%d__weekday_%s.npy' % (n, ','.join(map(str, DAYS[day])))
    labels = [10 * i + j for i in range(n + 1) for j in range(n + 1)]
    if real:
        tpm, pdf = shipped('4_states', 'tpm_' + key), shipped('4_states', 'start_pdf_' + key)
        ctx.eq(shipped('4_states', 'labels_' + key).tolist(), labels, 'states')
        ctx.event('shipped_back')
    else:
        tpm = r.random((144, size, size)) * (r.random((144, size, size)) < .5)
        tpm = np.round(tpm / np.maximum(tpm.sum(axis=-1), 1e-9)[..., None], 6)
        tpm[tpm.sum(axis=-1) < .95] = 0
        pdf = r.dirichlet(np.ones(size))
    want = np.array(tpm, float)
    for t, i in np.argwhere(want.sum(axis=-1) == 0):
        want[t, i, i] = 1.
        ctx.event('empty_row')
    want = want / want.sum(axis=-1)[..., None]
    ws = b.sheet('tpm%d_w%s' % (n, day))
    row(ws, 10, 1, ['Time', 'State'] + ['%02d' % l for l in labels])
    for t in range(144):
        for i in range(size):
            ws.append([t + 1, '%02d' % labels[i]] + [float(v) for v in tpm[t, i]])
    # the other matrices, for what must not be read
    ws = b.sheet('tpm%d_w%s' % (n, 'ed'['de'.index(day)]))
    row(ws, 10, 1, ['Time', 'State'] + ['%02d' % l for l in labels])
    ws = b.sheet('Starting states')
    tables = {}
    for d, at in (('d', 5), ('e', 59)):
        row(ws, at, 2, ['Number of residents in the house', 1, 2, 3, 4, 5, 6])
        row(ws, at + 1, 2, ['State', 'Probability'])
        for k in range(1, 7):
            p = pdf if k == n and d == day else r.dirichlet(np.ones((k + 1) ** 2))
            for j, v in enumerate(p):
                tables[d, k, divmod(j, k + 1)] = float(v)
        for home in range(7):
            for active in range(7):
                row(ws, at + 2 + 7 * home + active, 2, ['%d%d' % (home, active)] + [tables.get((d, k, (home, active))) for k in range(1, 7)])

    def judge(l):
        got, lab, start = quiet(l.load_tpm, {'n_residents': n, 'weekday': DAYS[day]})
        # the workbook's matrix of a time leads to the following step, demod's leads to its own step
        ctx.close(got, np.concatenate([want[-1:], want[:-1]]), 'tpm', rtol=1e-9)
        ctx.eq([int(x) for x in lab], labels, 'states')
        ctx.close(start, pdf, 'start', rtol=1e-9)
        ctx.event('tpm')
        ctx.event('start')
    b.both(judge)
    l = quiet(b.cls, '2.2')
    for bad in ({'n_residents': n}, {'weekday': DAYS[day]}, {'n_residents': n, 'weekday': [1]}, {'n_residents': n, 'weekday': [7, 6]}, {'n_residents': 7, 'weekday': DAYS[day]},
                {'n_residents': 0, 'weekday': DAYS[day]}, {'n_residents': 2.5, 'weekday': DAYS[day]}):
        ctx.raises(ValueError, lambda: quiet(l.load_tpm, dict(bad)), 'refused', str(bad))
        ctx.event('refused')
    ctx.state('tpm', n, day, real)


@S.scenario(24, 400)
def appliances(ctx):
    """The appliances and water fixtures, and who owns them."""
    r = ctx.rng
    b = Book(ctx)
    names = list(TYPES)
    if r.random() < .7:
        head = names[:31]
        r.shuffle(head)
        names = head + names[31:]
    ctx.case(first=names[0])
    ws = b.sheet('AppliancesAndWaterFixtures')
    for i in range(2, 8):
        row(ws, i, 2, ['note %d' % i] * int(r.integers(0, 9)))
    # unit row: three columns in minutes, two in watts
    columns = [c for c in range(7, 40) if c not in (29, 31)]
    minutes = sorted(r.choice(columns, 3, replace=False))
    watts = sorted(r.choice([c for c in columns if c not in minutes], 2, replace=False))
    for c in minutes:
        ws.cell(8, int(c), '(min)')
    for c in watts:
        ws.cell(8, int(c), '(W)')
    ws.cell(8, 28, '(kWh)') if 28 not in list(minutes) + list(watts) else None
    ws.cell(8, 45, '(end)')
    table = []
    for i, name in enumerate(names):
        t = dict(name=name, type=TYPES[name], prob=float(np.round(r.random(), 3)), act=str(r.choice(list(ACTIVITY))), min0=int(r.integers(1, 99)), min1=int(r.integers(1, 99)),
                 min2=int(r.integers(0, 99)), on=float(np.round(r.random() / 9, 6)), w=int(r.integers(1, 3000)), w1=int(r.integers(0, 9)),
                 pf=None if r.random() < .2 or i > 30 else float(np.round(.4 + r.random() * .6, 2)))
        table.append(t)
        at = 9 + i if i < 31 else 46 + i - 31
        row(ws, at, 4, [name, t['prob'], t['act']])
        for c, v in zip(minutes, ('min0', 'min1', 'min2')):
            ws.cell(at, int(c), t[v])
        for c, v in zip(watts, ('w', 'w1')):
            ws.cell(at, int(c), t[v])
        ws.cell(at, 29, t['on'])
        if t['pf'] is not None:
            ws.cell(at, 31, t['pf'])
    for i in range(40, 46):
        row(ws, i, 2, ['water %d' % i] * int(r.integers(0, 9)))
    act = {v: k for k, v in ACTIVITY.items()}
    liters = [0.] * 31 + [2.3, 2.3, 25.7, 73.3]

    def judge(l):
        got = quiet(l.load_appliance_dict)
        ctx.eq([str(x) for x in got['name']], names, 'name')
        ctx.eq([str(x) for x in got['type']], [t['type'] for t in table], 'type')
        ctx.eq([act[str(x)] for x in got['related_activity']], [t['act'] for t in table], 'related-activity')
        for key, col in (('equipped_prob', 'prob'), ('mean_duration', 'min1'), ('after_cycle_delay', 'min2'), ('switch_on_prob_crest', 'on'), ('standby_consumption', 'w1')):
            ctx.close(np.asarray(got[key], float), [t[col] for t in table], 'appliance-' + key, rtol=1e-12)
        water = [i >= 31 for i in range(35)]
        ctx.close(np.asarray(got['mean_elec_consumption'], float), [0 if w else t['w'] for w, t in zip(water, table)], 'electricity', rtol=1e-12)
        ctx.close(np.asarray(got['mean_water_consumption'], float), [t['w'] if w else 0 for w, t in zip(water, table)], 'water', rtol=1e-12)
        ctx.close(np.asarray(got['mean_power_factor'], float), [1. if t['pf'] is None else t['pf'] for t in table], 'power-factor', rtol=1e-12)
        ctx.eq([bool(x) for x in got['uses_water']], water, 'uses-water')
        ctx.close(got['poisson_sampling_lambda_liters'], liters, 'liters')
        ctx.eq([bool(x) for x in got['inactive_switch_off']], [t['act'] not in ('ACT_WASHDRESS', 'LEVEL') and t['name'] != 'DISH_WASHER' for t in table], 'inactive-switch-off')
        ctx.eq(int(got['number']), 35, 'number')
        ctx.event('appliances')
        for sub in ({}, {'n_residents': int(r.integers(1, 6))}):
            own = quiet(l.load_appliance_ownership_dict, sub)
            want, seen = {}, {}
            for t in table:
                seen[t['type']] = seen.get(t['type'], 0) + 1
                want[t['type'] + ('' if seen[t['type']] == 1 else '_%d' % seen[t['type']])] = t['prob']
            ctx.eq({k: float(v) for k, v in own.items()}, want, 'ownership')
            ctx.event('ownership')
        profiles = quiet(l.load_real_profiles_dict, 'switchedON')
        ctx.eq(sorted(profiles), ['washer_dryer', 'washingmachine'], 'cycle-kinds')
        for kind, minutes in (('washingmachine', 138), ('washer_dryer', 198)):
            ctx.eq(sorted(profiles[kind]), ['CREST_' + kind], 'cycle-names')
            # CREST's cycle: fill until 8, heat until 29, wash, four spins with three rinses and more, fast spin until 138, dry until 198
            want = []
            for m in range(minutes):
                want.append(73 if m <= 8 else 2056 if m <= 29 else 73 if m <= 92 else 250 if m <= 94 else 73 if m <= 105 else 250 if m <= 107 else 73 if m <= 118 else 250 if m <= 120
                            else 73 if m <= 131 else 250 if m <= 133 else 568 if m <= 138 else 2500)
            ctx.close(np.asarray(profiles[kind]['CREST_' + kind], float).ravel(), want, 'cycle')
            ctx.event('cycle')
        ctx.raises(NotImplementedError, lambda: quiet(l.load_real_profiles_dict, 'full'), 'cycle-full')
    b.both(judge)
    ctx.state('appliances', ctx.index)


@S.scenario(24, 400)
def activities(ctx):
    """Activity profiles of weekdays and weekends, and the population."""
    r = ctx.rng
    version = '2.2' if ctx.index % 4 else '2.3.3'
    real = version == '2.2' and ctx.index % 2 == 0
    b = Book(ctx, version)
    ctx.case(version=version, shipped=real)
    ws = b.sheet('ActivityStats')
    row(ws, 12, 2, ['Number of residents', 'Probability of dwelling having this number of residents' + (', in the UK' if version == '2.3.3' else '')]
        + (['Probability of dwelling having this number of residents, in India'] if version == '2.3.3' else []))
    shares = r.dirichlet(np.ones(5))
    for i in range(5):
        row(ws, 13 + i, 2, [i + 1, float(shares[i])] + ([float(r.random())] if version == '2.3.3' else []))
    row(ws, 19, 2, ['total', 1.0])
    row(ws, 29, 2, ['Day', 'Active occupants', None] + list(range(1, 145)))
    labels = ACTS[:]
    if not real and r.random() < .7:
        r.shuffle(labels)
    want = {}
    for d, at in (('d', 30), ('e', 66)):
        for occ in range(6):
            for i, act in enumerate(labels):
                p = np.round(r.random(144), 6)
                want[d, act.upper(), occ] = p
        if real:
            f = shipped('4_states', 'activity_profiles_n_residents_2__weekday_%s.npz' % ','.join(map(str, DAYS[d])))
            for occ in range(6):
                for act in labels:
                    want[d, act.upper(), occ] = f[ACTIVITY[act.upper()]][:, occ]
            ctx.event('shipped_back')
        for occ in range(6):
            for i, act in enumerate(labels):
                row(ws, at + 6 * occ + i, 2, [0 if d == 'd' else 1, occ, act] + [float(x) for x in want[d, act.upper(), occ]])

    def judge(l):
        subs, pdf, total = quiet(l.load_population_subgroups, *([[], ['resident_number']][ctx.index // 4 % 2]))
        ctx.eq([dict(s) for s in subs], [{'n_residents': i + 1} for i in range(5)], 'population')
        ctx.close(pdf, shares, 'population-pdf', rtol=1e-12)
        ctx.eq(float(total), 25e6, 'population-total')
        ctx.event('population')
        ctx.raises(ValueError, lambda: quiet(l.load_population_subgroups, 'household_types'), 'population-unknown')
        for d in 'de':
            sub = {'n_residents': int(r.integers(1, 7)), 'weekday': DAYS[d]}
            got = quiet(l.load_activity_probability_profiles, sub)
            ctx.eq(sorted(map(str, got)), sorted(ACTIVITY.values()), 'activities')
            for act in labels:
                p = np.asarray(got[ACTIVITY[act.upper()]])
                ctx.eq(p.shape, (144, 6), 'profile-shape')
                ctx.close(p, np.transpose([want[d, act.upper(), occ] for occ in range(6)]), 'profile', act, rtol=1e-12)
            ctx.close(np.asarray(got['level']), np.ones((144, 6)), 'level')
            ctx.close(np.asarray(got['active_occupancy']), np.repeat([[0., 1, 1, 1, 1, 1]], 144, axis=0), 'active')
            ctx.event('activities')
    b.both(judge)
    if version == '2.3.3':
        ctx.event('indian')
    ctx.state('activities', version, real, ctx.index)


@S.scenario(24, 400)
def weather_and_light(ctx):
    """Clearness, places, bulbs and lighting parameters."""
    r = ctx.rng
    version = '2.2' if ctx.index % 4 else '2.3.3'
    real = version == '2.2' and ctx.index % 2 == 0
    b = Book(ctx, version)
    ctx.case(version=version, shipped=real)
    labels = [round(.01 * (i + 1), 2) for i in range(100)] + ['Clear']
    tpm = r.random((101, 101)) * (r.random((101, 101)) < .2)
    tpm[:, 50] += 1e-3
    tpm = np.round(tpm / tpm.sum(axis=1)[:, None], 5)
    tpm[0] = 0
    if real:
        tpm = np.array(shipped('climate', 'clearness_tpms.npy'))
        tpm[0] = 0
        labels = [float(v) for v in shipped('climate', 'clearness_labels.npy')]
        labels[labels.index(1.)] = 'Clear'
        ctx.event('shipped_back')
    ws = b.sheet('ClearnessIndexTPM')
    row(ws, 9, 3, labels)
    for i in range(101):
        row(ws, 10 + i, 2, [i + 1] + [float(v) for v in tpm[i]])
    want = np.array(tpm)
    want[0, 1] = 1.     # the state that does not exist leads out of itself
    want = want / want.sum(axis=1)[:, None]

    config = np.zeros((100, 38))
    for i in range(100):
        k = int(r.integers(1, 39))
        config[i, :k] = r.choice([3, 9, 12, 20, 35, 50, 60, 100], k)
    if real:
        config = np.array(shipped('bulbs', 'bulbs_config_.npy'), float)
    empty = None if r.random() < .5 else 0
    ws = b.sheet('bulbs')
    row(ws, 10, 2, ['House', *range(1, 39), 'total'])
    for i in range(100):
        row(ws, 11 + i, 2, [i + 1] + [float(v) if v > 0 else empty for v in config[i]] + [float(np.nansum(config[i]))])

    ws = b.sheet('light_config')
    light = dict(calibration_scalar=float(np.round(r.random(), 6)) + 1e-7, effective_occupancy=np.round(r.random(6) * 3, 5), durations_cdf=np.round(np.cumsum(r.dirichlet(np.ones(9))), 6),
                 durations_minutes_low=np.cumsum(r.integers(1, 20, 9)), irradiance_threshold_mean=float(r.integers(40, 90)), irradiance_threshold_std=float(r.integers(5, 20)))
    light['durations_minutes_high'] = light['durations_minutes_low'] + r.integers(0, 5, 9)
    row(ws, 4, 5, ['threshold', light['irradiance_threshold_mean'], light['irradiance_threshold_std']])
    row(ws, 24, 5, ['calibration'] + ([light['calibration_scalar'], .777] if version == '2.2' else [.777, light['calibration_scalar']]))
    row(ws, 36, 4, ['active', 'occupancy'])
    for i in range(6):
        row(ws, 37 + i, 4, [i, float(light['effective_occupancy'][i])])
    row(ws, 54, 3, ['(minutes)', '(minutes)', 'probability'])
    for i in range(9):
        row(ws, 55 + i, 3, [float(light[k][i]) for k in ('durations_minutes_low', 'durations_minutes_high', 'durations_cdf')])

    def judge(l):
        got, lab, step = quiet(l.load_clearness_tpms)
        ctx.close(got, want, 'clearness', rtol=1e-9, atol=1e-12)
        ctx.close(np.asarray(lab, float), [1. if x == 'Clear' else x for x in labels], 'clearness-labels', rtol=1e-9)
        ctx.eq(step.total_seconds(), 60., 'clearness-step')
        ctx.event('clearness')
        place = dict(country='england', latitude=52.8, longitude=-1.2, meridian=0., use_daylight_saving_time=True) if version == '2.2' else \
            dict(country='india', latitude=13.1, longitude=80.3, meridian=82.5, use_daylight_saving_time=False)
        ctx.eq(quiet(l.load_geographic_data), place, 'place')
        if version == '2.2':
            ctx.eq({k: float(v) for k, v in quiet(l.load_temperatures_arma).items()}, dict(T_mean=9.3, T_std=6.5, T_shift=-115., AR=.81, MA=.62, SD=.5), 'temperatures')
            ctx.event('constants')
        else:
            for m in (l.load_temperatures_arma, l.load_appliance_dict):
                ctx.raises(NotImplementedError, lambda: quiet(m), 'version')
            ctx.event('indian')
        con = np.nan_to_num(np.asarray(quiet(l.load_bulbs_config), float))
        ctx.close(con, np.nan_to_num(config), 'bulbs-config')
        on = np.nan_to_num(config) > 0
        mean, std = quiet(l.load_installed_bulbs_stats)
        ctx.close([mean, std], [on.sum(axis=1).mean(), on.sum(axis=1).std()], 'bulbs-number', rtol=1e-9)
        powers, shares = quiet(l.load_bulbs)
        kinds = sorted(set(config[on].tolist()))
        ctx.close(powers, kinds, 'bulbs-power')
        ctx.close(shares, [float((config[on] == k).mean()) for k in kinds], 'bulbs-share', rtol=1e-9)
        ctx.event('bulbs')
        got = quiet(l.load_crest_lighting)
        ctx.eq(sorted(got), sorted(light), 'lighting-keys')
        for k, v in light.items():
            ctx.close(np.asarray(got[k], float), np.asarray(v, float), 'lighting', k, rtol=1e-9)
        ctx.event('lighting')
    b.both(judge)
    ctx.state('weather', version, real, ctx.index)


@S.scenario(24, 400)
def heating(ctx):
    """Heating systems, thermostats and buildings."""
    r = ctx.rng
    version = '2.2' if ctx.index % 4 else '2.3.3'
    b = Book(ctx, version)
    ctx.case(version=version)
    n = 3 if version == '2.2' else 5

    def number():
        return float(np.round(r.random() * 10 ** r.integers(0, 6), 3))

    def fill(title, columns, rows, text):
        ws = b.sheet(title)
        columns = list(columns)
        extra = ['Index', 'Remark', 'Volume'][:int(r.integers(0, 4))]
        order = columns + extra
        r.shuffle(order)
        at = 1 + int(r.integers(0, 3))
        out = {c: [] for c in columns}
        for j, c in enumerate(order):
            ws.cell(2, at + j, str(c))
            ws.cell(3, at + j, 'symbol')
            ws.cell(4, at + j, 'unit')
            for i in range(rows):
                v = text[c](i) if c in text else number()
                ws.cell(5 + i, at + j, v)
                out.setdefault(str(c), []).append(v)
        return ws, out
    kinds = [1, 2, 3]
    fuels = ['Mains gas', 'Oil', 'Electricity ', 'District heat', ' Wood']
    _, hs = fill('PrimaryHeatingSystems', HEATING.values(), n + int(r.integers(0, 3)), {HEATING['is_combi']: lambda i: int(r.choice(kinds)),
                 HEATING['name']: lambda i: 'Boiler (%d)' % i, HEATING['fuel_type']: lambda i: str(r.choice(fuels))})
    hs = {k: hs[t][:n] for k, t in HEATING.items()}
    hs['is_combi'] = [k == 2 for k in hs['is_combi']]
    hs['fuel_type'] = [k.replace(' ', '') for k in hs['fuel_type']]
    hs['heat_output_dhw'] = hs['heat_output_sh']
    _, bd = fill('Buildings', BUILDING.values(), int(r.integers(1, 9)), {BUILDING['name']: lambda i: 'House %d' % i})
    bd = {k: bd[t] for k, t in BUILDING.items()}
    ws = b.sheet('HeatingControls')
    home, water = r.dirichlet(np.ones(15)), r.dirichlet(np.ones(12))
    ht, wt = 13 + np.arange(15), 40 + np.cumsum(r.integers(1, 3, 12))
    c = 2 + int(r.integers(0, 3))
    row(ws, 4, c, ['Demand temperature', 'Percentage of homes'])
    row(ws, 23, c, ['Hot water delivery temperature', 'Percentage of homes'])
    for i in range(15):
        row(ws, 5 + i, c, [int(ht[i]), float(home[i])])
    for i in range(12):
        row(ws, 24 + i, c, [int(wt[i]), float(water[i])])
    row(ws, 37, c, [99, .5])

    def table(got, want, what):
        for k, v in want.items():
            g = list(got[k])
            ctx.eq(len(g), len(v), what + '-rows', k)
            for x, y in zip(g, v):
                if isinstance(y, (str, bool)):
                    ctx.eq(type(y)(x), y, what, k)
                else:
                    ctx.close(float(x), float(y), what, k, rtol=1e-12)

    def judge(l):
        table(quiet(l.load_heating_system_dict), hs, 'heating-system')
        ctx.event('heating')
        table(quiet(l.load_buildings_dict), bd, 'building')
        ctx.event('buildings')
        th = quiet(l.load_thermostat_dict)
        ctx.close(th['home_temperatures_cdf'], np.cumsum(home), 'home-cdf', rtol=1e-9)
        ctx.close(th['water_temperatures_cdf'], np.cumsum(water), 'water-cdf', rtol=1e-9)
        ctx.close(th['home_temperatures_values'], ht, 'home-temperature')
        ctx.close(th['water_temperatures_values'], wt, 'water-temperature')
        ctx.close(float(th['emitter_setpoints']), 50., 'emitter')
        ctx.eq({k: float(v) for k, v in dict(th['deadband']).items()}, dict(space_heating=2., space_cooling=2., hot_water=5., emitter=5.), 'deadband')
        ctx.event('thermostat')
    b.both(judge)
    ctx.state('heating', version, ctx.index)
