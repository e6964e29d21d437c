"""C07: good sections are the maximal runs, however the data is chunked."""
import itertools

import numpy as np

import vh
from vh import NEGINF, POSINF, observe

COLS = [('power', 'active'), ('voltage', '')]


def execute(ops, scratch, clock_i, kind):
    import meter_driver as md
    from tf_driver import Clock
    c = Clock(clock_i)
    box = {}

    def begin(a):
        times = [c.ts(a[i]) for i in range(0, len(a), 3)]
        vals = []
        for j, i in enumerate(range(0, len(a), 3)):
            row = [100. + j, 230.]
            if not a[i + 1]:
                row[j % 2] = np.nan
            vals.append(row)
        df = md.dataframe(times, vals, COLS)
        if kind == 'hdf':
            from nilmtk.datastore import HDFDataStore
            box['path'] = scratch.file('.h5')
            s = HDFDataStore(box['path'], 'w')
        else:
            from nilmtk.datastore import CSVDataStore
            s = CSVDataStore(scratch.dir())
        s.put('/building1/elec/meter1', df)
        box['store'] = s

    def step(op, a):
        dev = md.device(COLS, a[0] * c.unit, c.unit)
        m = md.meter(box['store'], '/building1/elec/meter1', dev)
        kw = {'chunksize': a[1]}
        if len(a) > 2:
            kw['sections'] = md.frames(a[2:], c)
        if op == 'good':
            secs = m.good_sections(**kw)
        else:
            res = m.good_sections(full_results=True, **kw)
            res.combined()
            res.to_dict()
            secs = res.combined()
        out = [len(secs)]
        for s in secs:
            out += [c.back(s.start, NEGINF), c.back(s.end, POSINF)]
        return out

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    box['store'].close()
    if kind == 'hdf':
        import os
        os.remove(box['path'])
    return out


def rand_case(rng):
    n = rng.randrange(2, 40)
    t, tab, maxp = 0, [], rng.randrange(1, 6)
    pm = rng.choice([0, 0, .1, .4])
    run = 0
    for i in range(n):
        ok = 1
        if rng.random() < pm and run < 8:
            ok = 0
        run = 0 if ok else run + 1
        tab += [t, ok, 0]
        t += rng.choice([1, 1, 1, 2, maxp, maxp + 1, 3 * maxp])
    last = tab[-3]
    ops = [dict(op='begin', a=tab)]
    for _ in range(3):
        a = [maxp, rng.choice([1, 2, 3, 4, 7, 10, n, 1000])]
        if rng.random() < .4 and last > 6:
            pts = sorted(rng.sample(range(-2, last + 3), rng.choice([2, 4, 4, 6])))
            if rng.random() < .5 and len(pts) >= 4:
                pts[2] = pts[1]          # touching sections
                if pts[2] >= pts[3]:
                    pts = pts[:2]
            for i in range(0, len(pts), 2):
                a += [pts[i], pts[i + 1], 0]
        ops.append(dict(op=rng.choice(['good', 'good_again']), a=a))
    return ops


def check(c):
    import nilmtk  # noqa
    import meter_driver
    meter_driver.fast_gc()
    counter = itertools.count()

    def run(ops):
        i = next(counter)
        return execute(ops, c.scratch, i % 5, 'hdf')

    behs = c.model_check(
        'MCGoodSections',
        constants={'MaxRows': c.n(5, 6), 'MaxGap': 3, 'MaxP': 2,
                   'Sizes': '{1, 2, 3}'},
        invariants=['ChunkingIrrelevant', 'WholeTable', 'Disjoint', 'Emit'],
        expect_actions=['Ask'],
        note='every gap pattern and pattern of up to two missing readings')
    behs = c.rng.sample(behs, min(len(behs), c.n(1200, 8000)))
    c.replay('good sections', behs, run)
    cases = [rand_case(c.rng) for _ in range(c.n(250, 3000))]
    c.validate('recorded good sections', 'GoodSections', cases, run)
