"""C09: dropout rate."""
import itertools
import math
import os

import numpy as np

import vh
from vh import observe

COLS = [('power', 'active')]


def rate(x):
    x = float(x)
    if math.isnan(x):
        return [vh.NAN]
    if x < -1e-9 or x > 1 + 1e-9:
        return [vh.ODD]
    return [int(math.floor(x * 100000 + 1e-4))]


def execute(ops, scratch, clock_i):
    import meter_driver as md
    from tf_driver import Clock
    from nilmtk.datastore import HDFDataStore
    from nilmtk.stats.dropoutrate import get_dropout_rate
    c = Clock(clock_i)
    box = {}

    def begin(a):
        times = [c.ts(a[i]) for i in range(0, len(a), 3)]
        vals = [[100.] if a[i + 1] else [np.nan] for i in range(0, len(a), 3)]
        df = md.dataframe(times, vals, COLS)
        box['path'] = scratch.file('.h5')
        s = HDFDataStore(box['path'], 'w')
        s.put('/building1/elec/meter1', df)
        box['store'], box['df'] = s, df

    def step(op, a):
        if op == 'rate':
            df = box['df']
            x = [df, df[COLS[0]]][len(df) % 2]
            return rate(get_dropout_rate(x, a[0] * c.unit))
        dev = md.device(COLS, a[1] * c.unit, a[0] * c.unit)
        m = md.meter(box['store'], '/building1/elec/meter1', dev)
        kw = {'chunksize': a[2], 'ignore_gaps': bool(a[3])}
        if len(a) > 4:
            kw['sections'] = md.frames(a[4:], c)
        if op == 'full':
            return rate(m.dropout_rate(full_results=True, **kw).combined())
        return rate(m.dropout_rate(**kw))

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    box['store'].close()
    os.remove(box['path'])
    return out


def rand_case(rng):
    n = rng.choice([2, 4, 5, 6, rng.randrange(5, 60)])
    sp = rng.randrange(1, 6)
    t, tab, miss = 0, [], rng.choice([0, 0, .1, .5])
    for i in range(n):
        tab += [t, int(rng.random() > miss), 0]
        t += rng.choice([sp, sp, sp, sp, 1, 2 * sp, 2 * sp + 1, 7 * sp])
    last = tab[-3]
    ops = [dict(op='begin', a=tab), dict(op='rate', a=[sp])]
    for _ in range(2):
        a = [sp, rng.choice([sp, 2 * sp, 3 * sp]),
             rng.choice([3, 5, 7, 11, n, 1000]), rng.randrange(2)]
        if rng.random() < .4 and last > 10:
            pts = sorted(rng.sample(range(-1, last + 2), rng.choice([2, 4])))
            for i in range(0, len(pts), 2):
                a += [pts[i], pts[i + 1], 0]
        ops.append(dict(op=rng.choice(['dropout', 'dropout', 'full']), a=a))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter) % 5)

    behs = c.model_check(
        'MCDropout',
        constants={'MinRows': 4, 'MaxRows': c.n(7, 8), 'Gaps': '{1, 2, 5}',
                   'Periods': '{1, 2}', 'Sizes': '{2, 5, 50}'},
        invariants=['InUnitInterval', 'Perfect', 'TooFew', 'Emit'],
        expect_actions=['AskRate', 'AskDropout'],
        note='every gap pattern of 4 to %d samples, one of them without a reading or none' % c.n(7, 8))
    behs = c.rng.sample(behs, min(len(behs), c.n(1500, 8000)))
    c.replay('dropout rate', behs, run, tol=1)
    cases = [rand_case(c.rng) for _ in range(c.n(300, 3000))]
    c.validate('recorded dropout rate', 'Dropout', cases, run)
