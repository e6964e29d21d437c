"""C29: what the dataset converters store."""
import contextlib
import io
import itertools
import os
import re

import numpy as np
import pandas as pd
import yaml

import vh
from vh import observe, as_int, EXC, ODD

REDD, UKDALE, REFIT, DRED, AMPDS, COMBED = 1, 2, 3, 4, 5, 6
MISSING = 777777
COLS = {('power', 'active'): 1, ('power', 'apparent'): 2, ('voltage', ''): 3,
        ('power', 'reactive'): 4, ('current', ''): 5, ('energy', 'active'): 6}
ZONE = {REDD: 'US/Eastern', UKDALE: 'Europe/London', REFIT: 'Europe/London',
        DRED: 'Europe/Amsterdam', AMPDS: 'America/Vancouver', COMBED: 'Asia/Kolkata'}
# winter, and just before the clocks change in either direction
BASES = [1300000000, 1320558700, 1301187550, 1319939950, 1414281550]
AMPDS_NAMES = ['WHE', 'B1E', 'B2E', 'CDE', 'DWE', 'HPE', 'UTE', 'WOE']
AMPDS_HEAD = {1: ['P'], 2: ['V', 'I', 'P'], 3: ['P', 'Pt', 'Q', 'S']}
COMBED_DIRS = {
    (1, 1): 'Academic Block/Building Total Mains/0', (1, 2): 'Academic Block/Lifts/0',
    (1, 3): 'Academic Block/Floor Total/1', (1, 4): 'Academic Block/Floor Total/2',
    (1, 5): 'Academic Block/Floor Total/3', (1, 6): 'Academic Block/Floor Total/4',
    (1, 7): 'Academic Block/Floor Total/5', (1, 8): 'Academic Block/AHU/0',
    (1, 9): 'Academic Block/AHU/1', (1, 10): 'Academic Block/AHU/2',
    (1, 11): 'Academic Block/AHU/5', (1, 12): 'Academic Block/Light/3',
    (1, 13): 'Academic Block/Power Sockets/3', (1, 14): 'Academic Block/UPS Sockets/3',
    (2, 1): 'Lecture Block/Building Total Mains/0', (2, 2): 'Lecture Block/Floor Total/0',
    (2, 3): 'Lecture Block/Floor Total/1', (2, 4): 'Lecture Block/Floor Total/2',
    (2, 5): 'Lecture Block/AHU/1', (2, 6): 'Lecture Block/AHU/2', (2, 7): 'Lecture Block/AHU/3'}
REFIT_HOUSES = [h for h in range(1, 22) if h != 14]


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fh:
        fh.write(text)


UNIT = [1]      # what one unit of reading is in the files


def table(rows, base, sep, step=1, stamp=str, width=None):
    out = []
    for r in rows:
        vals = ['' if v == MISSING else '%.10g' % (v * UNIT[0]) for v in r[1:]]
        out.append(sep.join([stamp((base + r[0] * 60) * step)] + vals) + '\n')
    return ''.join(out)


def iso(t):
    return pd.Timestamp(t, unit='s').strftime('%Y-%m-%d %H:%M:%S')


def raw(d, kind, types, files, i, base):
    """Write the raw directory; what the converter is called with."""
    if kind in (REDD, UKDALE):
        for h, c, k, rows in files:
            name = 'mains' if k == 2 else 'channel_%d' % c
            put('%s/house_%d/%s.dat' % (d, h, name), table(rows, base, ' '))
            put('%s/house_%d/labels.dat' % (d, h), '1 mains\n')
            put('%s/house_%d/channel_%d_button_press.dat' % (d, h, c), '%d 1\n' % base)
        put('%s/house_1.txt' % d, 'not a house\n')
        put('%s/houses/channel_1.dat' % d, '%d 1\n' % base)
    if kind == UKDALE:
        power = lambda *ts: [{'physical_quantity': 'power', 'type': t} for t in ts]
        md = {'dataset': {'name': 'UK-DALE', 'timezone': ZONE[UKDALE]},
              'meter_devices': {
                  'm1': dict(model='m1', sample_period=6, max_sample_period=120, measurements=power('active')),
                  'm2': dict(model='m2', sample_period=6, max_sample_period=120, measurements=power('apparent')),
                  'm3': dict(model='m3', sample_period=1, max_sample_period=120,
                             measurements=power('active', 'apparent') + [{'physical_quantity': 'voltage'}])}}
        for h in sorted({t[0] for t in types}):
            md['building%d' % h] = {
                'instance': h, 'appliances': [],
                'elec_meters': {m: dict({'device_model': 'm%d' % ty},
                                        **({'site_meter': True} if ty == 3 else {'submeter_of': 0}))
                                for b, m, ty in types if b == h}}
        for name, x in md.items():
            put('%s/metadata/%s.yaml' % (d, name), yaml.safe_dump(x))
    if kind == REFIT:
        name = ['House_%d', 'CLEAN_House%d'][i % 2]
        head = 'Time,Unix,Aggregate,' + ','.join('Appliance%d' % k for k in range(1, 10)) + ',Issues\n'
        for h, c, k, rows in files:
            put('%s/%s.csv' % (d, name % h),
                head + ''.join('x,' + x + ',0\n' for x in table(rows, base, ',').splitlines()))
    if kind == DRED:
        put(d + '/All_data.csv', 'a\nb\nc\n' + table(files[0][3], base, ',', stamp=iso))
        return d + '/All_data.csv'
    if kind == AMPDS:
        for h, c, k, rows in files:
            put('%s/%s.csv' % (d, AMPDS_NAMES[c]),
                'TS,' + ', '.join(AMPDS_HEAD[k]) + '\n' + table(rows, base, ','))
        put(d + '/readme.txt', 'no data\n')
    if kind == COMBED:
        for h, c, k, rows in files:
            put(os.path.join(d, 'iiitd' if i % 2 else '', COMBED_DIRS[(h, c)],
                             {1: 'Power', 2: 'Energy', 3: 'Current'}[k] + '.csv'),
                table(rows, base, ',', step=1000))
    return d


def entry(b, m, df, zone, base):
    """The code of a stored table; equal stamps in canonical order."""
    cols = [COLS.get(tuple(c), ODD) for c in df.columns]
    if str(df.index.tz) != zone or list(df.columns.names) != ['physical_quantity', 'type']:
        cols = [ODD]
    rows = []
    for t, vals in zip(df.index, df.values.tolist()):
        s = (t.value / 1e9 - base) / 60
        rows.append([as_int(s)] + [MISSING if np.isnan(v) else as_int(v, 1. / UNIT[0]) for v in vals])
    out = []
    for _, g in itertools.groupby(rows, key=lambda r: r[0]):
        out += sorted(g)
    return [b, m, len(cols)] + cols + [len(out)] + [x for r in out for x in r]


def stored(path, fmt, zone, base):
    found = {}
    if fmt == 'HDF':
        with pd.HDFStore(path, 'r') as st:
            for key in st.keys():
                m = re.fullmatch(r'/building(\d+)/elec/meter(\d+)', key)
                if not m:
                    return [ODD]
                found[tuple(map(int, m.groups()))] = st[key]
    else:
        for top, _, names in os.walk(path):
            for n in names:
                p = os.path.join(top, n)
                m = re.fullmatch(r'building(\d+)/elec/meter(\d+)\.csv', os.path.relpath(p, path))
                if not m:
                    if os.path.relpath(top, path) == 'metadata':
                        continue
                    return [ODD]
                df = pd.read_csv(p, index_col=0, header=[0, 1])
                df.columns = pd.MultiIndex.from_tuples(
                    [tuple('' if str(x).startswith('Unnamed') else x for x in c) for c in df.columns],
                    names=df.columns.names)
                texts = list(df.index)
                df.index = pd.to_datetime(texts, utc=True).tz_convert(zone)
                if [str(t) for t in df.index] != texts:
                    return [ODD, 1]
                found[tuple(map(int, m.groups()))] = df
    out = []
    for b, m in sorted(found):
        out += entry(b, m, found[b, m], zone, base)
    return out


def convert(a, i, c):
    from nilmtk import dataset_converters as dc
    kind, dedup, types, files = a
    base = BASES[i % len(BASES)]
    UNIT[0] = (1, .5, .125)[i // 2 % 3]
    fmt = 'CSV' if i % 3 == 1 and kind in (REDD, UKDALE, REFIT, DRED) else 'HDF'
    with vh.Scratch() as s:
        src = raw(s.dir(), kind, types, files, i, base)
        out = s.file('.h5') if fmt == 'HDF' else s.dir()
        kw = dict(drop_duplicates=bool(dedup)) if kind == UKDALE and not (dedup and i % 2) else {}
        fn = {REDD: dc.convert_redd, UKDALE: dc.convert_ukdale, REFIT: dc.convert_refit,
              DRED: dc.convert_dred, AMPDS: dc.convert_ampds, COMBED: dc.convert_combed}[kind]
        with contextlib.redirect_stdout(io.StringIO()):
            fn(src, out, fmt, **kw)
        return stored(out, fmt, ZONE[kind], base)


def execute(ops, i, c):
    out = []
    for o in ops:
        if o['op'] == 'begin':
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: convert(o['a'], i, c)))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def rand_case(rng):
    kind = rng.choices([REDD, UKDALE, REFIT, DRED, AMPDS, COMBED], [5, 6, 1, 2, 4, 4])[0]
    dedup, types, files = 0, [], []
    serial = itertools.count(1)

    def rows(n, most=7, unique=False, holes=False):
        k = rng.randint(1, most)
        span = rng.choice([3, 6, 12, 200])
        ts = [rng.randrange(span) for _ in range(k)]
        if unique:
            ts = sorted(set(ts))
        elif rng.random() < .5:
            ts.sort()
        return [[t] + [MISSING if holes and rng.random() < .15 else next(serial) for _ in range(n)]
                for t in ts]

    if kind == REDD:
        houses = list(range(1, 7)) + rng.sample([7, 9, 10, 12, 23, 101], rng.choice([0, 1, 2]))
        for h in houses:
            for ch in sorted(rng.sample([1, 2, 3, 4, 9, 10, 11, 20, 22, 101, 120], rng.choice([1, 2, 3]))):
                files.append([h, ch, 1, rows(1)])
    elif kind == UKDALE:
        dedup = rng.choice([0, 1])
        for h in sorted(rng.sample([1, 2, 3, 5, 11], rng.choice([1, 2, 3]))):
            big = rng.choice([None, 1, 54])
            for ch in sorted(rng.sample([1, 2, 3, 10, 25, 54, 101, 125], rng.choice([1, 3, 4]))):
                ty = 3 if ch == big else rng.choice([1, 2])
                types.append([h, ch, ty])
                if ty == 3:
                    files.append([h, ch, 2, rows(3)])
                if ty != 3 or rng.random() < .3:
                    files.append([h, ch, 1, rows(1)])
    elif kind == REFIT:
        files = [[h, 0, 1, rows(10, 2)] for h in REFIT_HOUSES]
    elif kind == DRED:
        files = [[1, 0, 1, rows(13)]]
    elif kind == AMPDS:
        order = [0] + rng.sample(range(1, 8), rng.choice([1, 2, 4]))
        rng.shuffle(order)
        for x in order:
            k = rng.choice([1, 2, 3])
            files.append([1, x, k, [[0] + [next(serial) for _ in AMPDS_HEAD[k]]] +
                          [[r[0] + 1] + r[1:] for r in rows(len(AMPDS_HEAD[k]), holes=True)]])
    else:
        for b, m in sorted(rng.sample(sorted(COMBED_DIRS), rng.choice([1, 3, 6]))):
            for k in sorted(rng.sample([1, 2, 3], rng.choice([1, 2, 3]))):
                files.append([b, m, k, rows(1, unique=True)])
    return [dict(op='begin', a=[]), dict(op='convert', a=[kind, dedup, types, files])]


def check(c):
    import nilmtk.dataset_converters  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, next(counter), c)

    behs = c.model_check(
        'MCConvert', constants={'N': c.n(3, 4), 'T': 3, 'Kinds': '{1, 2, 3, 4, 5, 6}'},
        invariants=['OneEach', 'Honest', 'Apart', 'Whole', 'Sorted', 'Unique', 'NoHoles', 'Emit'],
        coverage=False, expect_ops=['convert'],
        note='all short orders and repetitions of stamps, dealt out to raw directories')
    c.replay('conversions', behs, run)
    cases = [rand_case(c.rng) for _ in range(c.n(500, 3000))]
    c.validate('recorded conversions', 'Convert', cases, run)
