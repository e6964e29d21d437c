"""C08: total energy equals the integral of the readings."""
import itertools
import os

import numpy as np

import vh
from vh import NAN, observe, as_int

PQ = {1: 'power', 2: 'energy', 3: 'cumulative energy', 4: 'voltage'}
AC = {0: '', 1: 'active', 2: 'apparent', 3: 'reactive'}
NOLIMIT = -999999


def column(code):
    return (PQ[code // 10], AC[code % 10])


def execute(ops, scratch, clock_i):
    import meter_driver as md
    from tf_driver import Clock
    from nilmtk.datastore import HDFDataStore
    c = Clock(clock_i)
    kwh = c.unit / 3.6e6           # one abstract unit of energy
    box = {}

    def begin(a):
        n = a[1]
        cols, limits = [], {}
        for k in range(n):
            code, lo, hi = a[2 + 3 * k:5 + 3 * k]
            col = column(code)
            cols.append(col)
            f = kwh if code // 10 in (2, 3) else 1.
            lim = {}
            if lo != NOLIMIT:
                lim['lower_limit'] = lo * f
            if hi != NOLIMIT:
                lim['upper_limit'] = hi * f
            limits[col] = lim
        off = 2 + 3 * n
        times, vals = [], []
        for i in range(off, len(a), n + 1):
            times.append(c.ts(a[i]))
            vals.append([np.nan if v == NAN else
                         v * (kwh if a[2 + 3 * k] // 10 in (2, 3) else 1.)
                         for k, v in enumerate(a[i + 1:i + 1 + n])])
        box['path'] = scratch.file('.h5')
        s = HDFDataStore(box['path'], 'w')
        s.put('/building1/elec/meter1', md.dataframe(times, vals, cols))
        box['store'] = s
        box['dev'] = md.device(cols, a[0] * c.unit, c.unit, limits)

    def step(op, a):
        m = md.meter(box['store'], '/building1/elec/meter1', box['dev'])
        kw = {'chunksize': a[0]}
        if a[1]:
            kw['physical_quantity'] = PQ[a[1]]
        if len(a) > 2:
            kw['sections'] = md.frames(a[2:], c)
        res = m.total_energy(**kw)
        out = []
        known = 0
        for code in (1, 2, 3):
            if AC[code] in res.index:
                known += 1
                out += [code, as_int(res[AC[code]], 1 / kwh)]
        if known != len(res):
            out.append(vh.ODD)
        return out

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    box['store'].close()
    os.remove(box['path'])
    return out


def rand_case(rng):
    ncols = rng.randrange(1, 5)
    cols = rng.sample([11, 12, 13, 21, 22, 23, 31, 32, 33, 40], ncols)
    if cols == [40]:
        cols = [11]
        ncols = 1
    maxp = rng.randrange(1, 8)
    a = [maxp, ncols]
    for code in cols:
        hi = rng.choice([NOLIMIT, 50, 500, 100000])
        lo = rng.choice([0, 0, 5, NOLIMIT])
        if code // 10 == 3:
            lo, hi = 0, 1000000
        a += [code, lo, hi]
    n = rng.randrange(2, 30)
    missing = rng.random() < .4
    t = 0
    level = [rng.randrange(100)] * ncols
    for i in range(n):
        row = [t]
        for k, code in enumerate(cols):
            level[k] += rng.randrange(0, 9)
            v = level[k] if code // 10 == 3 else rng.randrange(0, 600)
            if missing and rng.random() < .25:
                v = NAN
            row.append(v)
        a += row
        t += rng.choice([1, 1, 2, maxp, maxp + 1, 30])
    last = t
    ops = [dict(op='begin', a=a)]
    for _ in range(3):
        size = 100000 if missing else rng.choice([1, 2, 3, 5, 8, n, 1000])
        q = rng.choice([0, 0] + [x // 10 for x in cols if x // 10 < 4])
        b = [size, q]
        if rng.random() < .5 and last > 8:
            pts = sorted(rng.sample(range(-2, last + 3), rng.choice([2, 4])))
            for i in range(0, len(pts), 2):
                b += [pts[i], pts[i + 1], rng.randrange(2)]
        ops.append(dict(op='energy', a=b))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter) % 5)

    behs = c.model_check(
        'MCEnergy',
        constants={'MaxRows': c.n(4, 5), 'Gaps': '{1, 3}',
                   'Powers': '{0, 4, 9, 777}' if c.thorough else '{4, 9, 777}',
                   'MaxP': 2, 'Sizes': '{1, 2, 50}'},
        invariants=['ChunkingIrrelevant', 'NeverOverCounted', 'Clipped', 'Emit'],
        expect_actions=['Ask'], note='every small series and chunk size')
    behs = c.rng.sample(behs, min(len(behs), c.n(1500, 8000)))
    c.replay('total energy', behs, run)
    cases = [rand_case(c.rng) for _ in range(c.n(300, 4000))]
    c.validate('recorded total energy', 'Energy', cases, run)
