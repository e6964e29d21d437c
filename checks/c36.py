"""C36: what the converters of shared, daily and yearly files store."""
import contextlib
import gzip
import io
import itertools
import multiprocessing.dummy
import os
import random
import re
import shutil
import sys
from unittest import mock

import numpy as np
import pandas as pd

import vh
import c29
from c29 import put, iso
from vh import observe, as_int, ODD

IDEAL, SMART, DATAPORT, ECO, IAWE, HIPE, GREEND, HES, CAXE = range(1, 10)
MISSING = 777777
COLS = dict(c29.COLS)
COLS.update({('frequency', ''): 7, ('pf', ''): 8, ('phase_angle', ''): 9})
ZONE = {IDEAL: 'Europe/London', SMART: 'US/Eastern', DATAPORT: 'US/Central',
        IAWE: 'Asia/Kolkata', HIPE: 'Europe/Berlin', GREEND: 'CET', HES: 'UTC',
        CAXE: 'Asia/Kolkata'}
DAY = 86400
IAWE_START = 1373673600
IDEAL_HOMES = [61, 62, 63, 65, 73, 90, 96, 105, 106, 128, 136, 139, 140, 145, 146, 162, 168, 169,
               171, 175, 208, 212, 225, 227, 228, 231, 238, 242, 249, 255, 259, 262, 263, 264,
               266, 268, 276, 311, 328]
IAWE_NAMES = {1: ['W'], 2: ['VA', 'apparent_power'], 3: ['VLN', 'V', 'voltage'],
              4: ['VAR', 'reactive_power'], 5: ['A'], 7: ['f', 'frequency'],
              8: ['PF', 'power_factor']}
MACHINES = ['MainTerminal', 'ChipPress', 'ChipSaw', 'HighTemperatureOven', 'PickAndPlaceUnit',
            'ScreenPrinter', 'SolderingOven', 'VacuumOven', 'VacuumPump1', 'VacuumPump2',
            'WashingMachine']
DATA_COLS = {1: 'grid', 2: 'solar', 3: 'solar2', 4: 'air1', 5: 'kitchen1', 6: 'kitchen2',
             7: 'refrigerator1', 8: 'car1', 99: 'leg1v'}
HES_FILES = ['1a', '1b', '1c', '1d', '2', '3']


def text(v):
    return '' if v == MISSING else '%.10g' % v


def kilo(v):
    return '' if v == MISSING else repr(v * float(c29.UNIT[0]))


@contextlib.contextmanager
def listing(i):
    """Directories list in no particular order."""
    r = random.Random(i)
    real_list, real_scan = os.listdir, os.scandir

    def listdir(*a):
        out = sorted(real_list(*a))
        r.shuffle(out)
        return out

    class Scan:
        def __init__(self, *a):
            with real_scan(*a) as it:
                self.it = sorted(it, key=lambda e: e.name)
            r.shuffle(self.it)
            self.it = iter(self.it)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    with contextlib.ExitStack() as st:
        st.enter_context(mock.patch('os.listdir', listdir))
        st.enter_context(mock.patch('os.scandir', Scan))
        for name, mod in list(sys.modules.items()):
            if name.startswith('nilmtk.dataset_converters') and getattr(mod, 'listdir', None) is real_list:
                st.enter_context(mock.patch.object(mod, 'listdir', listdir))
        yield


def raw(d, kind, lst, files, i, base):
    one = c29.UNIT[0]
    if kind == IDEAL:
        for h, s, k, rows in files:
            where = 'household_sensordata' if k in (1, 3) else 'rooms_appliance_sensordata'
            name = {1: 'home%d_hall%d_sensor%dc%d_electric-mains_electric-combined.csv.gz' % (h, h + 5, s, s + 1),
                    2: 'home%d_kitchen%d_sensor%d_electric-appliance_fridge.csv.gz' % (h, h + 7, s),
                    3: 'home%d_hall%d_sensor%d_gas-pulse_gas.csv.gz' % (h, h + 5, s),
                    4: 'home%d_kitchen%d_sensor%d_room_temperature.csv.gz' % (h, h + 7, s)}[k]
            os.makedirs(os.path.join(d, where), exist_ok=True)
            with gzip.open(os.path.join(d, where, name), 'wt') as fh:
                for t, v in rows:
                    fh.write('%s,%s\n' % (iso(base + 60 * t), text(v * one)))
        put(d + '/household_sensordata/readme.txt', 'x')
        os.makedirs(d + '/rooms_appliance_sensordata', exist_ok=True)
        os.makedirs(d + '/metadata', exist_ok=True)
    if kind == SMART:
        use = ['use [kW]', 'Usage [kW]'][i % 2]
        for h, y, no, half, rows in files:
            first = min([f[2] for f in files if f[0] == h and f[1] == y and f[3]] or [0])
            p = '%s/Home%s/%d' % (d, 'ABC'[h - 1], 2013 + y)
            name = 'Home%s-meter%d' % ('ABC'[h - 1], no)
            put('%s/%s.txt' % (p, name), '%s\ncolumns\n%s minutes\nend\n' % (name, 30 if half else 1))
            if not half and i % 3 == 0:
                continue
            cols = [('Date & Time', [iso(base + 60 * r[0]) for r in rows]),
                    (use, [kilo(r[1] if no == first else r[1] + 9) for r in rows]),
                    (['gen [kW]', 'Generation [kW]'][i % 2], ['0.5'] * len(rows)),
                    (['Grid [kW]', 'grid [kW]', 'Solar [kW]'][i % 3], ['0.25'] * len(rows)),
                    ('Fridge%d [kW]' % no, [kilo(r[2]) for r in rows]),
                    ('Oven%d [kW]' % no, [kilo(r[3]) for r in rows])]
            put('%s/%s_%d.csv' % (p, name, 2013 + y),
                '\n'.join([','.join(c[0] for c in cols)] +
                          [','.join(x) for x in zip(*(c[1] for c in cols))]) + '\n')
    if kind == DATAPORT:
        extra = [[b for b in (31, 9001) if b not in lst][0]]
        md = ['dataid,building_type,city,state,house_construction_year,egauge_1s_data_availability,grid',
              'the id,x,x,x,x,x,x']
        ids = list(lst) + extra
        random.Random(i).shuffle(ids)
        for b in ids:
            ok = b in lst
            md.append('%d,Home,Austin,Texas,1990,%s,%s' % (
                b, '97%' if ok or i % 2 else '50%', 'yes' if ok or not i % 2 else ''))
        put(d + '/metadata.csv', '\n'.join(md) + '\n')
        out = []
        for n, (cols, rows) in enumerate(files):
            p = '%s/file%d.csv' % (d, n + 1)
            order = list(range(len(cols)))
            put(p, '\n'.join([','.join(['dataid', 'localminute'] + [DATA_COLS[c] for c in cols])] + [
                ','.join([str(r[0]), iso(base + 60 * r[1]) + '+00'] + [
                    kilo(r[2 + j]) if kilo(r[2 + j]) else '' for j in order]) for r in rows]) + '\n')
            out.append(p)
        if i % 2:
            out.reverse()
        return out, d + '/metadata.csv'
    if kind == ECO:
        first = pd.Timestamp('2012-06-01') + pd.Timedelta(days=[0, 146, 297][i % 3])
        nested = i % 2 or any(len({f[2] for f in files if f[1] == 2 and f[0] == b}) < 3
                              for b in {f[0] for f in files if f[1] == 2})
        for b, k, no, day, runs in files:
            name = (first + pd.Timedelta(days=day)).strftime('%Y-%m-%d') + '.csv'
            if k == 1:
                p = '%s/%02d_sm_csv/%02d' % (d, b, b)
                mat = np.zeros((DAY, 16))
                at = 0
                for n, p1, p2, p3, shift in runs:
                    row = np.zeros(16)
                    row[0] = row[4] = row[11] = row[12] = 7
                    for ph, v in enumerate((p1, p2, p3)):
                        row[1 + ph], row[5 + ph], row[8 + ph] = v, 3 * v + 1, 5 * v + 2
                        row[13 + ph] = 45 * shift
                    mat[at:at + n] = row
                    at += n
                lines = [','.join('%g' % x for x in r) + '\n' for r in mat[np.cumsum([0] + [r[0] for r in runs[:-1]])]]
                body = ''.join(x * r[0] for x, r in zip(lines, runs))
            else:
                p = '%s/%02d_plugs_csv/%s%02d' % (d, b, '%02d/' % b if nested else '', no)
                body = ''.join(('%g\n' % r[1]) * r[0] for r in runs)
            put(p + '/' + name, body)
        put(d + '/notes.txt', 'x')
        put(d + '/01_other/x.csv', 'x')
    if kind == IAWE:
        for m, cols, rows in files:
            r = random.Random(i * 11 + m)
            put('%s/electricity/%d.csv' % (d, m),
                ','.join(['timestamp'] + [r.choice(IAWE_NAMES[c]) for c in cols]) + '\n' +
                ''.join(','.join([str(IAWE_START + x[0])] + ['\\N' if v == MISSING else '%g' % v for v in x[1:]]) + '\n'
                        for x in rows))
    if kind == CAXE:
        zone = ['Asia/Kolkata', 'UTC', 'Asia/Tokyo'][i % 3]      # (of the stamps in the file)
        lines = ['%s,%s' % (pd.Timestamp(base + r[0], unit='s', tz='UTC').tz_convert(zone), ','.join(map(text, r[1:])))
                 for r in files[0][0]]
        put(d + '/caxe.csv', '\n'.join(lines) + '\n')
        return d + '/caxe.csv',
    if kind == HIPE:
        for m, rows in files:
            put('%s/%s_PhaseCount_%d_geq_2017-10-01.csv' % (d, MACHINES[m - 1], m % 3),
                'Machine,SensorDateTime,P_kW,Q_kvar\n' + ''.join(
                    'x,%s+00:00,%s,9\n' % (iso(base + 60 * t).replace(' ', 'T'), kilo(v)) for t, v in rows))
    if kind == GREEND:
        for h, day, blocks in files:
            body, last = '', None
            for n, (cols, rows) in enumerate(blocks):
                head = 'timestamp,' + ','.join('000D6F%04d' % c for c in cols)
                if i % 3 == 1 and n and head != last:
                    body += '1415605814.541311,0.0,NULL,NU'
                body += ('\0\0' if i % 4 == 1 else '') + head + '\n'
                for k, r in enumerate(rows):
                    if k and i % 5 == 2:
                        body += head + '\n'
                    body += '%.1f,' % (base + 60 * r[0]) + ','.join('NULL' if v == MISSING else text(v * one) for v in r[1:]) + '\n'
                last = head
            put('%s/building%d/dataset_%s.csv' % (d, h, (pd.Timestamp('2014-01-01') + pd.Timedelta(days=day)).strftime('%Y-%m-%d')), body)
            put('%s/building%d/notes.csv' % (d, h), 'x')
        put(d + '/readme.txt', 'x')
    if kind == HES:
        for n, (no, rows) in enumerate(files):
            put('%s/agd-%s/appliance_group_data-%s.csv' % ((d,) + (HES_FILES[no],) * 2),
                ''.join('1,%d,%d,%s,%g,%s\n' % ((h, c) + (iso(base + 60 * t).split(' ')[0], v, iso(base + 60 * t).split(' ')[1]))
                        for h, c, t, v in rows))
        put(d + '/anonhes/ipsos-anonymised-corrected_310713.csv', 'house,x\n' + ''.join('%d,1\n' % h for h in lst))
    return (d,)


def runs(df, cols, base):
    """<<start second, seconds, values...>> of a table with a row per second."""
    sec = (df.index.asi8 // 10 ** 9 - base).astype(np.int64)
    val = np.round(df.values.astype(float), 3)[:, np.argsort(cols)]
    if len(df) == 0:
        return []
    new = np.r_[True, (np.diff(sec) != 1) | (np.diff(val, axis=0) != 0).any(axis=1)]
    at = np.flatnonzero(new)
    size = np.diff(np.r_[at, len(sec)])
    return [[int(sec[a]), int(n)] + [MISSING if np.isnan(v) else as_int(v) for v in val[a]]
            for a, n in zip(at, size)]


def entry(kind, b, m, df, zone, base, scale):
    cols = [COLS.get(tuple(c), ODD) for c in df.columns]
    if str(df.index.tz) != zone or list(df.columns.names) != ['physical_quantity', 'type']:
        cols = [ODD]
    if kind == ECO:
        rows = runs(df, cols, base)
    else:
        o = np.argsort(cols)
        rows = []
        if kind == IAWE:
            if len(df) != 31681 or df.index[0].timestamp() != IAWE_START or \
                    not (np.diff(df.index.asi8) == 60 * 10 ** 9).all():
                return [b, m, ODD]
            val = df.values[:, o]
            fill, n = np.unique(val, axis=0, return_counts=True)
            fill = fill[np.argmax(n)]
            rows = [[-1] + [as_int(v) for v in fill]] + [
                [int(k)] + [as_int(v) for v in val[k]] for k in np.flatnonzero((val != fill).any(axis=1))]
        else:
            for t, v in zip(df.index.asi8, df.values[:, o].tolist()):
                rows.append([as_int((t / 1e9 - base) / 60)] + [
                    MISSING if x != x else as_int(x, scale) for x in v])
            keys = [r[0] for r in rows]
            if keys != sorted(keys) and kind != HES:
                return [b, m, ODD, 3]
            rows.sort()
    return [b, m, len(cols)] + sorted(cols) + [len(rows)] + [x for r in rows for x in r]


def described(st):
    """Key of the table -> what the metadata says it is."""
    names = {}
    for k in st.root._v_groups if hasattr(st, 'root') else ():
        md = getattr(st.root._v_groups[k]._v_attrs, 'metadata', None)
        if not k.startswith('building') or not md:
            continue
        for m, x in md['elec_meters'].items():
            if x.get('site_meter'):
                names[k[8:], str(m)] = (md['original_name'], 'use')
        for a in md['appliances']:
            for m in a['meters']:
                if m not in md['elec_meters']:
                    raise AssertionError('meter without description')
                if (k[8:], str(m)) in names:
                    raise AssertionError('meter described twice')
                names[k[8:], str(m)] = (md['original_name'], a['original_name'])
        names[k[8:], None] = (md['original_name'], None)
        ids = [(a['type'], a['instance']) for a in md['appliances']]
        if len(ids) != len(set(ids)):
            raise AssertionError('appliance described twice')
    return names


def stored(kind, path, fmt, zone, base, scale):
    found = {}
    if fmt == 'CSV':
        for top, _, files in os.walk(path):
            for n in files:
                p = os.path.join(top, n)
                m = re.fullmatch(r'building(\d+)/elec/meter(\d+)\.csv', os.path.relpath(p, path))
                if not m:
                    if os.path.relpath(top, path) == 'metadata':
                        continue
                    return [ODD]
                df = pd.read_csv(p, index_col=0, header=[0, 1])
                df.columns.names = ['physical_quantity', 'type']
                df.index = pd.to_datetime(list(df.index), utc=True).tz_convert(zone)
                found[tuple(map(int, m.groups()))] = df
    else:
        code = {v: k for k, v in DATA_COLS.items()}
        if kind == HES:
            look = hes_lookup()
        with pd.HDFStore(path, 'r') as st:
            names = described(st) if kind in (DATAPORT, HES) else {}
            for key in st.keys():
                m = re.fullmatch(r'/building(\d+)/elec/meter(\d+)', key)
                if not m:
                    return [ODD]
                b, k = m.groups()
                at = int(b), int(k)
                if kind == DATAPORT:
                    at = names[b, k]
                    at = (int(at[0]), 1 if at[1] == 'use' else code[at[1]])
                if kind == HES:
                    house = int(names[b, None][0])
                    at = (house, look[names[b, k][1]]) if (b, k) in names else (house, ('?', k))
                if at in found:
                    return [ODD, 2]
                found[at] = st[key]
    if kind == HES:         # channels that are not described, told apart by what they hold
        rest = {k: v for k, v in found.items() if isinstance(k[1], tuple)}
        for k, df in rest.items():
            del found[k]
            found[k[0], channel(df)] = df
    out = []
    for b, m in sorted(found):
        out += entry(kind, b, m, found[b, m], zone, base, scale)
    return out


def channel(df):
    # the check gives every channel readings of its own
    return 900 + int(df.values[0, 0] / 10) // 1000 % 1000


def hes_lookup():
    import nilmtk.dataset_converters.hes.convert_hes as mod
    df = pd.read_csv(os.path.join(os.path.dirname(mod.__file__), 'hes_to_nilmtk_appliance_lookup.csv'))
    return {n: int(k) for n, k in zip(df.Name, df.Code)}


def convert(a, i):
    from nilmtk import dataset_converters as dc
    from nilmtk.dataset_converters.hipe import convert_hipe
    from nilmtk.dataset_converters.dataport import csv_converter
    kind, opt, lst, files = a
    base = c29.BASES[i % len(c29.BASES)]
    if kind == CAXE:
        base -= base % 60
    c29.UNIT[0] = (1, .5, .25)[i // 2 % 3] if kind in (IDEAL, SMART, DATAPORT, HIPE, GREEND) else 1
    scale = 1. / c29.UNIT[0]
    fmt = 'CSV' if i % 3 == 1 and kind in (IDEAL, SMART, HIPE) else 'HDF'
    zone = ZONE.get(kind)
    cwd = os.getcwd()
    with vh.Scratch() as s:
        src = raw(s.dir(), kind, lst, files, i, base)
        out = s.file('.h5') if fmt == 'HDF' else s.dir()
        with contextlib.ExitStack() as st:
            st.enter_context(contextlib.redirect_stdout(io.StringIO()))
            st.enter_context(contextlib.redirect_stderr(io.StringIO()))
            tmp = s.dir()
            st.enter_context(mock.patch('tempfile.tempdir', tmp))
            if i % 2:
                st.enter_context(listing(i))
            if kind == IDEAL:
                dc.convert_ideal(src[0], out, fmt)
            elif kind == SMART:
                if i % 4 == 2:          # a relative path
                    os.chdir(os.path.dirname(src[0]))
                    st.callback(os.chdir, cwd)
                    src = (os.path.basename(src[0]),)
                here = os.getcwd()
                dc.convert_smart(src[0], out, fmt)
                if os.getcwd() != here:
                    return [ODD, 4]
            elif kind == DATAPORT:
                csv_converter.convert_dataport(list(src[0]), src[1], out, chunksize=opt)
            elif kind == ECO:
                zone = ['CET', 'Europe/Zurich', 'UTC'][i % 3]
                base = int((pd.Timestamp('2012-06-01') + pd.Timedelta(days=[0, 146, 297][i % 3])).timestamp())
                dc.convert_eco(src[0], out, zone)
            elif kind == IAWE:
                dc.convert_iawe(src[0], out)
            elif kind == CAXE:
                os.chdir(tmp)
                st.callback(os.chdir, cwd)
                dc.convert_caxe(src[0])
                out = os.path.join(tmp, 'test.h5')
            elif kind == HIPE:
                convert_hipe.convert_hipe(src[0], out, fmt)
            elif kind == GREEND:
                mod = sys.modules[dc.convert_greend.__module__]
                st.enter_context(mock.patch.object(mod, 'Pool', multiprocessing.dummy.Pool, create=True))
                dc.convert_greend(src[0], out, use_mp=bool(i % 3 == 0))
            else:
                mod = sys.modules[dc.convert_hes.__module__]
                st.enter_context(mock.patch.object(mod, 'stderr', io.StringIO(), create=True))
                st.enter_context(mock.patch.object(mod, 'CHUNKSIZE', opt, create=True))
                dc.convert_hes(src[0], out)
        return stored(kind, out, fmt, zone, base, scale)


def execute(ops, i, c):
    out = []
    for o in ops:
        if o['op'] == 'begin':
            out.append(dict(o, res=[]))
            continue
        cwd = os.getcwd()
        e = dict(o, res=observe(lambda: convert(o['a'], i)))
        os.chdir(cwd)
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


WEIGHTS = [1, 6, 9, 2, 2, 3, 6, 8, 3]


def rand_case(rng):
    kind = rng.choices(range(1, 10), WEIGHTS)[0]
    opt, lst, files = 0, [], []
    serial = itertools.count(1)
    nxt = lambda: next(serial)
    val = lambda: rng.choice([1] * 8 + [0, -1]) * next(serial)      # exports, and nothing at all

    def times(most=7, unique=False):
        k = rng.randint(1, most)
        ts = [rng.randrange(rng.choice([3, 6, 12, 200])) for _ in range(k)]
        if unique:
            ts = sorted(set(ts))
        elif rng.random() < .5:
            ts.sort()
        return ts

    if kind == IDEAL:
        for h in IDEAL_HOMES + [7, 1001][:rng.randrange(3)]:
            known = h in IDEAL_HOMES
            has = {1, 2} if known else rng.choice([{1}, {2}, {1, 3}, {2, 4}, {1, 2}])
            s = iter(rng.sample(range(1, 40), 6))
            for k in sorted(has | ({3} if rng.random() < .2 else set())):
                for _ in range(rng.choice([1, 1, 2]) if k == 2 else 1):
                    files.append([h, next(s), k, [[t, val()] for t in times(3)]])
    elif kind == SMART:
        for h in (1, 2, 3):
            t0 = 0
            for y in sorted(rng.sample([0, 1, 2, 3], rng.choice([1, 1, 2, 3]))):
                nos = sorted(rng.sample([1, 2, 3, 4], rng.choice([1, 2, 3])))
                half = rng.sample(nos, rng.randrange(1, len(nos) + 1))
                if rng.random() < .15 and any(f[0] == h for f in files):
                    half = []
                n = rng.randrange(1, 5)
                ts = [t0 + 30 * k for k in range(n)]
                t0 += 30 * n + rng.choice([0, 30, 600])
                use = [val() for _ in ts]
                for no in nos:
                    files.append([h, y, no, int(no in half),
                                  [[t, u, val(), val()] for t, u in zip(ts, use)]])
    elif kind == DATAPORT:
        opt = rng.choice([1, 2, 3, 5, 1000])
        lst = sorted(rng.sample([12, 26, 59, 101, 4031, 9999], rng.choice([1, 2, 3])))
        sunny = {b: rng.choice([(), (), (2,), (3,), (2, 3)]) for b in lst + [31]}
        owns = {b: rng.sample([4, 5, 6, 7, 8], rng.choice([0, 1, 2, 3, 4])) for b in lst + [31]}
        t = 0
        for _ in range(rng.choice([1, 2, 2, 3])):
            cols = rng.sample([1, 2, 3, 4, 5, 6, 7, 8, 99], 9)
            if rng.random() < .4:
                cols = [c for c in cols if c == 1 or c in (2, 3) or rng.random() < .8]
            rows, span = [], rng.randrange(1, 6)
            if rng.random() < .3:
                b = rng.choice(lst)
                owns[b] = rng.sample([4, 5, 6, 7, 8], rng.choice([1, 2, 3]))
            for k in range(span):
                for b in (lst if rng.random() < .8 else lst + [31]):
                    if rng.random() < .2:
                        continue
                    rows.append([b, t + k] + [
                        val() if c in (1, 99) or c in sunny[b] or (c in owns[b] and rng.random() < .85)
                        else MISSING for c in cols])
            t += span
            if not rows:
                rows = [[lst[0], t - 1] + [val() if c == 1 else MISSING for c in cols]]
                if any(c in sunny[lst[0]] for c in cols):
                    rows = [[lst[0], t - 1] + [val() if c == 1 or c in sunny[lst[0]] else MISSING for c in cols]]
            rng.shuffle(rows)
            files.append([cols, rows])
    elif kind == ECO:
        def day(vals):
            n = rng.choice([1, 2, 3, 5])
            cuts = sorted(rng.sample(range(1, DAY), n - 1))
            return [[b - a] + vals() for a, b in zip([0] + cuts, cuts + [DAY])]
        for b in sorted(rng.sample([1, 2, 6], rng.choice([1, 1, 2]))):
            v = lambda: rng.choice([-1, -1, 0, -2 - rng.randrange(9), nxt(), 100 + nxt()])
            for dd in sorted(rng.sample([0, 1, 2, 5], rng.choice([1, 2]))):
                files.append([b, 1, 0, dd, day(lambda: [v(), v(), v(), rng.randrange(2)])])
            for no in sorted(rng.sample([1, 2, 3, 7, 11], rng.choice([1, 3]))):
                for dd in sorted(rng.sample([0, 1, 2, 5], rng.choice([1, 2]))):
                    files.append([b, 2, no, dd, day(lambda: [v()])])
    elif kind == IAWE:
        for m in range(1, 12):
            cols = rng.sample([1, 2, 3, 4, 5, 7, 8], rng.choice([1, 2, 4, 7]))
            rows = []
            mins = sorted(rng.sample(range(rng.choice([8, 31680])), rng.randrange(1, 6)))
            for x in mins:
                for s in sorted(rng.sample(range(60), rng.choice([1, 1, 2, 4]))):
                    rows.append([60 * x + s] + [24 * rng.randrange(1, 400) for _ in cols])
            keep = rng.randrange(len(rows))
            for k, r in enumerate(rows):
                if k != keep and rng.random() < .15:
                    r[1 + rng.randrange(len(cols))] = MISSING
            if rng.random() < .3:
                rows.append([rows[-1][0]] + [24 * rng.randrange(1, 400) for _ in cols])
            if rng.random() < .3:
                rng.shuffle(rows)
            files.append([m, cols, rows])
    elif kind == CAXE:
        rows = []
        for m in range(rng.randrange(1, 6)):
            for x in range(rng.choice([1, 2, 2, 3])):
                rows.append([60 * m + rng.randrange(60)] + [24 * rng.randrange(400) for _ in range(6)])
                if x and rng.random() < .3:
                    rows[-1][1 + rng.randrange(6)] = MISSING
        if rng.random() < .5:
            rng.shuffle(rows)
        files = [[rows]]
    elif kind == HIPE:
        files = [[m, [[t, rng.choice([1, 1, -1]) * nxt()] for t in times(5)]] for m in range(1, 12)]
    elif kind == GREEND:
        for h in sorted(rng.sample(range(8), rng.choice([1, 2, 3]))):
            t = 0
            own = rng.sample(range(1, 9), 5)
            for dd in sorted(rng.sample([0, 1, 2, 8, 9, 31], rng.choice([1, 2, 3]))):
                blocks = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    cols = rng.sample(own, rng.choice([1, 2, 3, 4]))
                    rows = []
                    for _ in range(rng.randrange(1, 4)):
                        rows.append([t] + [MISSING if rng.random() < .2 else val() for _ in cols])
                        if rng.random() < .15:
                            rows.append(list(rows[-1]))
                        t += 1
                    if rng.random() < .2:
                        rng.shuffle(rows)
                    if blocks and blocks[-1][0] == cols:
                        blocks[-1][1].extend(rows)
                    else:
                        blocks.append([cols, rows])
                files.append([h, dd, blocks])
    else:
        opt = rng.choice([1, 2, 3, 5, 1000])
        lst = rng.sample([202, 203, 210, 1001], rng.choice([1, 2, 3]))
        codes = [0, 1, 5, 17, 49, 51, 181, 240, 241, 208, 222, 252]
        owns = {h: rng.sample(codes, rng.choice([1, 2, 3, 5])) for h in lst}
        n = itertools.count()
        for no in sorted(rng.sample(range(6), rng.choice([1, 2, 3]))):
            rows = []
            for h in lst:
                for c in owns[h]:
                    for t in times(4):
                        # which channel it is shows in the value
                        rows.append([h, c, t, 1000 * c + (next(n) % 100) * 10])
            if rng.random() < .6:
                rng.shuffle(rows)
            files.append([no, rows])
    return [dict(op='begin', a=[]), dict(op='convert', a=[kind, opt, lst, files])]


def check(c):
    import nilmtk.dataset_converters  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, next(counter), c)

    behs = c.model_check(
        'MCImport', constants={'N': c.n(3, 4), 'T': 3, 'Kinds': '{1, 2, 3, 4, 5, 6, 7, 8, 9}'},
        invariants=['OneEach', 'Honest', 'Apart', 'Whole', 'InTime', 'Emit'],
        coverage=False, expect_ops=['convert'],
        note='all short orders and repetitions of stamps, dealt out to raw directories')
    c.replay('conversions', behs, run)
    cases = [rand_case(c.rng) for _ in range(c.n(400, 2500))]
    c.validate('recorded conversions', 'Import', cases, run)
