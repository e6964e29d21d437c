"""C14: loading a group of meters."""
import itertools
import os
import shutil

import numpy as np

import vh
from vh import NAN, NEGINF, POSINF, observe, as_int

PQ = {1: 'power', 4: 'voltage'}
AC = {0: '', 1: 'active', 2: 'apparent', 3: 'reactive'}


def column(code):
    return (PQ[code // 10], AC[code % 10])


def execute(ops, scratch, clock_i):
    import meter_driver as md
    from resample_driver import RClock
    from nilmtk.datastore import CSVDataStore, HDFDataStore
    from nilmtk.metergroup import MeterGroup
    from nilmtk.timeframe import TimeFrame
    c = RClock(clock_i)
    box = {}

    def begin(a):
        meters = []
        tables = []
        i = 1
        for k in range(a[0]):
            sp, maxp, nc = a[i:i + 3]
            codes = a[i + 3:i + 3 + nc]
            nr = a[i + 3 + nc]
            off = i + 4 + nc
            rows = [a[off + r * (nc + 1):off + (r + 1) * (nc + 1)] for r in range(nr)]
            i = off + nr * (nc + 1)
            cols = [column(x) for x in codes]
            key = '/building1/elec/meter%d' % (k + 1)
            tables.append((key, rows, cols))
            meters.append((key, md.device(cols, maxp * c.unit, sp * c.unit), k + 1))
        # CSV files keep neither changes of the clock nor an empty first row
        if (clock_i // 6 % 2 and clock_i % 6 in (0, 3, 5) and
                all(set(rows[0][1:]) != {NAN} for _, rows, _ in tables)):
            box['path'] = scratch.dir()
            s = CSVDataStore(box['path'])
        else:
            box['path'] = scratch.file('.h5')
            s = HDFDataStore(box['path'], 'w')
        for key, rows, cols in tables:
            s.put(key, md.dataframe(
                [c.ts(r[0]) for r in rows],
                [[np.nan if v == NAN else float(v) for v in r[1:]] for r in rows],
                cols))
        box['store'] = s
        box['args'] = [(s,) + x for x in meters]

    def step(op, a):
        meters = [md.meter(*x) for x in box['args']]
        g = MeterGroup(meters[::-1] if clock_i % 2 else meters)
        if op == 'timeframe':
            t = g.get_timeframe()
            return [c.back(t.start, NEGINF), c.back(t.end, POSINF)]
        if op == 'period':
            return [as_int(g.sample_period(), 1. / c.unit)]
        if op == 'energy':
            res = g.total_energy()
            kwh = c.unit / 3.6e6
            out = []
            for code in (1, 2, 3):
                if AC[code] in res.index:
                    out += [code, as_int(res[AC[code]], 1 / kwh)]
            return out
        kw = {'chunksize': a[1]}
        if a[0]:
            kw['sample_period'] = a[0] * c.unit
        if a[2]:
            kw['physical_quantity'] = PQ[a[2]]
        if len(a) > 3:
            kw['sections'] = [TimeFrame(c.ts(a[k]), elsewhere(c.ts(a[k + 1])))
                              for k in range(3, len(a), 2)]
        out = []
        codes = None
        for df in g.load(**kw):
            cs = sorted(next(k for k in (11, 12, 13, 40) if column(k) == tuple(x))
                        for x in df.columns)
            if codes is None:
                codes = cs
                out += cs
            elif codes != cs:
                out.append(vh.ODD)
            df = df[[column(x) for x in cs]]
            out.append(len(df))
            for t, r in zip(df.index, df.values):
                out += [c.back(t, NEGINF)] + [as_int(v) for v in r]
        return out

    def elsewhere(ts):
        # the same instant, in another time zone
        return ts.tz_convert('Asia/Tokyo') if clock_i % 4 == 1 and ts.tz else ts

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    box['store'].close()
    shutil.rmtree(box['path']) if os.path.isdir(box['path']) else os.remove(box['path'])
    return out


def rand_case(rng):
    n = rng.randrange(1, 4)
    a = [n]
    last, first = 0, 10 ** 6
    for _ in range(n):
        sp = rng.choice([1, 1, 1, 2])
        cols = sorted(rng.sample([11, 12, 13, 40], rng.randrange(1, 4)))
        if cols == [40]:
            cols = [11, 40]
        m = rng.randrange(2, 16)
        t = rng.randrange(0, 6)
        first = min(first, t)
        a += [sp, rng.choice([sp, 2 * sp, 4]), len(cols)] + cols + [m]
        for _ in range(m):
            a += [t] + [NAN if rng.random() < .1 else 720 * rng.randrange(0, 60)
                        for _ in cols]
            last = max(last, t)
            t += rng.choice([sp, sp, sp, sp, 2 * sp, 5])
    ops = [dict(op='begin', a=a), dict(op='timeframe', a=[]),
           dict(op='period', a=[]), dict(op='energy', a=[])]
    for _ in range(3):
        b = [rng.choice([0, 0, 1, 2, 3, 4]), rng.choice([1, 2, 3, 7, 1000, 1000]),
             rng.choice([0, 0, 1])]
        if rng.random() < .5:
            pts = sorted(rng.sample(range(first, last + 3), 2))
            if last > 8 and rng.random() < .5:
                pts = sorted(rng.sample(range(0, last + 3), 4))
            b += pts
        ops.append(dict(op='load', a=b))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCGroupLoad',
        constants={'Gaps': c.n('{1, 4}', '{1, 2, 4}'), 'Periods': '{0, 2}', 'Sizes': c.n('{1, 50}', '{1, 2, 50}'),
                   'Starts': '{0, 1}' if not c.thorough else '{0, 1, 3}'},
        invariants=['OrderIrrelevant', 'SizeIrrelevant', 'NoReadingLost', 'Emit'],
        coverage=False, expect_ops=['load', 'energy', 'timeframe'],
        note='every pair of small meters')
    c.replay('group loading', c.rng.sample(behs, min(len(behs), c.n(400, 6000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(120, 2500))]
    c.validate('recorded group loading', 'GroupLoad', cases, run)
