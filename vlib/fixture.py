"""Scratch copy of the repository with stand-ins for the files the loaders would download."""
import datetime
import os
import shutil
import subprocess
import zipfile


def make(repo, work):
    """Copy `repo`'s working tree to `work`/repo and add the raw files nobody can fetch here."""
    dst = os.path.join(work, 'repo')
    os.mkdir(dst)
    tar = subprocess.Popen(['tar', '-C', repo, '--exclude=./.git', '--exclude=__pycache__',
                            '--exclude=./docs', '--exclude=./examples', '-cf', '-', '.'],
                           stdout=subprocess.PIPE)
    subprocess.run(['tar', '-C', dst, '-xf', '-'], stdin=tar.stdout, check=True)
    if tar.wait():
        raise RuntimeError('tar failed')
    ds = os.path.join(dst, 'demod', 'datasets')
    gtou = os.path.join(ds, 'GermanTOU')
    os.makedirs(os.path.join(gtou, 'raw_data'), exist_ok=True)
    for z in os.listdir(os.path.join(gtou, 'parsed_data')):
        if z.endswith('.zip'):
            shutil.copy(os.path.join(gtou, 'parsed_data', z), os.path.join(gtou, 'raw_data', z))
            # as the loaders do after downloading; files of the working tree have precedence
            target = os.path.join(gtou, 'parsed_data', z[:-4])
            os.makedirs(target, exist_ok=True)
            with zipfile.ZipFile(os.path.join(gtou, 'parsed_data', z)) as f:
                for name in f.namelist():
                    if not os.path.exists(os.path.join(target, name)):
                        f.extract(name, target)
    for name in os.listdir(ds):
        if os.path.isdir(os.path.join(ds, name)):
            for d in ('raw_data', 'parsed_data'):
                os.makedirs(os.path.join(ds, name, d), exist_ok=True)
    rn = os.path.join(ds, 'RenewablesNinja')
    for d in ('raw_data', 'parsed_data'):
        os.makedirs(os.path.join(rn, d), exist_ok=True)
    write_ninja(os.path.join(rn, 'raw_data', 'DE_population.csv'))
    tb = os.path.join(ds, 'tracebase')
    os.makedirs(os.path.join(tb, 'raw_data', 'tracebase-master', 'complete'), exist_ok=True)
    os.makedirs(os.path.join(tb, 'parsed_data'), exist_ok=True)
    open(os.path.join(tb, 'raw_data', 'raw_github.zip'), 'a').close()
    crest = os.path.join(ds, 'CREST')
    os.makedirs(os.path.join(crest, 'raw_data'), exist_ok=True)
    open(os.path.join(crest, 'raw_data', 'CREST_Demand_Model_v2.2.xlsm'), 'a').close()
    v22 = os.path.join(crest, 'parsed_data', 'v_2.2')
    low, up = os.path.join(v22, '4_states'), os.path.join(v22, '4_States')
    if os.path.isdir(low) and not os.path.exists(up):
        shutil.copytree(low, up)
    return dst


def write_ninja(path, hours=2 * 366 * 24):
    """Deterministic hourly climate in the layout of the renewables.ninja export."""
    import math
    t = datetime.datetime(2013, 12, 25)
    with open(path, 'w') as f:
        f.write('# synthetic stand-in\n# units: as renewables.ninja\n')
        f.write('time,precipitation,temperature,irradiance_surface,irradiance_toa,snowfall,'
                'snow_mass,cloud_cover,air_density\n')
        for h in range(hours):
            day = h / 24.
            sun = max(0., math.sin(2 * math.pi * (h % 24 - 6) / 24))
            cloud = .5 + .45 * math.sin(day * 1.7)
            temp = 9 - 9 * math.cos(2 * math.pi * (day - 20) / 365.25) + 3 * sun
            toa = 900 * sun
            f.write('%s,%.4f,%.3f,%.4f,%.4f,%.4f,%.4f,%.4f,%.4f\n' % (
                t.strftime('%Y-%m-%d %H:%M'), .01, temp, toa * (1 - .7 * cloud), toa, 0, 0, cloud,
                1.25 - temp / 1000))
            t += datetime.timedelta(hours=1)
