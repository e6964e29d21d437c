"""C24: resampling."""
import itertools
import os

import numpy as np

import vh
from vh import NAN, NEGINF, observe, as_int

COLS = [('power', 'active'), ('voltage', '')]


def execute(ops, scratch, clock_i):
    import meter_driver as md
    from resample_driver import RClock
    from nilmtk.datastore import HDFDataStore
    c = RClock(clock_i)
    box = {}

    def begin(a):
        box['how'], box['nodes'] = {}, []
        n = a[1]
        rows = [a[i:i + n + 1] for i in range(2, len(a), n + 1)]
        box['maxp'], box['n'] = a[0], n
        box['path'] = scratch.file('.h5')
        s = HDFDataStore(box['path'], 'w')
        s.put('/building1/elec/meter1', md.dataframe(
            [c.ts(r[0]) for r in rows],
            [[np.nan if v == NAN else float(v) for v in r[1:]] for r in rows],
            COLS[:n]))
        box['store'] = s

    def step(op, a):
        n = box['n']
        own = clock_i % 3 == 0      # the meter's own sample period
        dev = md.device(COLS[:n], box['maxp'] * c.unit,
                        a[0] * c.unit if own and a[0] else c.unit)
        m = md.meter(box['store'], '/building1/elec/meter1', dev)
        kw = {'resample': True} if own else {'sample_period': a[0] * c.unit}
        if a[0] == 0:
            kw = {}
        elif clock_i % 5 < 2:       # the same objects are passed to every load
            kw['resample_kwargs'] = box['how']
        if clock_i % 2:
            kw.setdefault('sample_period', None)
        if clock_i % 5 in (1, 2):
            kw['preprocessing'] = box['nodes']
        if a[1] < 1000:
            kw['chunksize'] = a[1]
        k = 2
        if op == 'loadby':
            k = 5
            kw['resample_kwargs'] = r = {'how': ['mean', 'max', 'min', 'first', 'last'][a[2]]}
            if a[3]:
                r['fill_method'] = 'bfill'
            if a[4]:
                r['limit'] = a[4]
        if len(a) > k:
            kw['sections'] = md.frames(a[k:], c)
        out = []
        for df in m.load(**kw):
            out.append(len(df))
            if len(df) and list(df.columns) != COLS[:n]:
                df = df[COLS[:n]]
            for t, r in zip(df.index, df.values):
                out += [c.back(t, NEGINF)] + [as_int(v) for v in r]
        return out

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    box['store'].close()
    os.remove(box['path'])
    return out


def rand_case(rng):
    n = rng.randrange(1, 3)
    maxp = rng.randrange(1, 9)
    m = rng.randrange(1, 35)
    dups = rng.random() < .4
    t = rng.randrange(0, 9)
    a = [maxp, n]
    last = t
    for _ in range(m):
        a += [t] + [NAN if rng.random() < .15 else 60 * rng.randrange(0, 40)
                    for _ in range(n)]
        last = t
        t += rng.choice([1, 1, 1, 2, 3, 7, 16] + ([0, 0] if dups else []))
    ops = [dict(op='begin', a=a)]
    for _ in range(3):
        b = [rng.choice([0, 1, 1, 2, 2, 3, 4, 6]),
             1000 if dups else rng.choice([1000, 1000, 2, 5, 9])]
        by = b[0] and rng.random() < .4
        if by:
            b += [rng.randrange(5), rng.randrange(2), rng.choice([0, 0, 1, 2, 5])]
        if rng.random() < .4 and last > 5:
            pts = sorted(rng.sample(range(0, last + 2), rng.choice([2, 4])))
            for i in range(0, len(pts), 2):
                b += [pts[i], pts[i + 1], rng.randrange(2)]
        ops.append(dict(op='loadby' if by else 'load', a=b))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCResample',
        constants={'MaxRows': c.n(4, 5), 'Gaps': '{0, 1, 7}' if not c.thorough else '{0, 1, 2, 3, 7}',
                   'Vals': '{60, 120, 777}', 'Periods': '{1, 2, 3}',
                   'MaxPs': '{1, 4}'},
        invariants=['Regular', 'NoInvention', 'Ordered', 'Emit'], coverage=False,
        expect_ops=['load'], note='every small series with gaps and repeated stamps')
    c.replay('resampling', c.rng.sample(behs, min(len(behs), c.n(2500, 12000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(300, 4000))]
    c.validate('recorded resampling', 'Resample', cases, run)
