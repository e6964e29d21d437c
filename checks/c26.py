"""C26: power as series, chunk by chunk and all at once."""
import itertools
import os

import numpy as np
import pandas as pd

import vh
from vh import NAN, NEGINF, POSINF, observe, as_int

PQ = {1: 'power', 2: 'energy', 4: 'voltage'}
AC = {0: '', 1: 'active', 2: 'apparent', 3: 'reactive', 9: 'best'}
CODES = [11, 12, 13, 22, 40]


def column(code):
    return (PQ[code // 10], AC[code % 10])


def execute(ops, scratch, i):
    import meter_driver as md
    from tf_driver import Clock
    from nilmtk.datastore import HDFDataStore
    from nilmtk.timeframe import TimeFrame
    from nilmtk.timeframegroup import TimeFrameGroup
    c = Clock(i % 5)
    box = {}

    def begin(a):
        n = a[0]
        cols = [column(x) for x in a[1:1 + n]]
        times, vals = [], []
        for k in range(1 + n, len(a), n + 1):
            times.append(c.ts(a[k]))
            vals.append([np.nan if v == NAN else float(v) for v in a[k + 1:k + 1 + n]])
        box['path'] = scratch.file('.h5')
        s = box['store'] = HDFDataStore(box['path'], 'w')
        s.put('/building1/elec/meter1', md.dataframe(times, vals, cols))
        box['m'] = md.meter(s, '/building1/elec/meter1',
                            md.device(cols, 2 * c.unit, c.unit))

    def name_codes(s):
        pq, acs = s.name
        if pq != 'power':
            return [vh.ODD]
        return sorted(next(k for k in CODES if column(k) == (pq, x))
                      for x in acs.split('+'))

    def rows(s):
        return sum([[c.back(t, NEGINF), as_int(v)] for t, v in zip(s.index, s.values)], [])

    def step(op, a):
        m = box['m']
        if op == 'window':
            box['store'].window = TimeFrame(c.ts(a[0]), c.ts(a[1]))
            return [0]
        if op == 'vampire':
            return [as_int(m.vampire_power(chunksize=1 + i % 4))]
        kw = {'chunksize': a[0]}
        acs = [AC.get(x, 'nonsense') for x in a[2:2 + a[1]]]
        if not acs:
            kw['ac_type'] = None
        elif acs == ['best']:
            if i % 2:
                kw['ac_type'] = 'best'
        else:
            kw['ac_type'] = acs[0] if len(acs) == 1 else acs
        secs = a[2 + a[1]:]
        if secs:
            kw['sections'] = md.frames(secs, c)
            if i % 3 == 0:
                kw['sections'] = TimeFrameGroup(kw['sections'])
        if op == 'chunks':
            out = []
            gen = m.power_series(**kw) if i % 4 else \
                m.load_series(physical_quantity='power', **dict({'ac_type': 'best'}, **kw))
            for s in gen:
                span = [c.back(s.timeframe.start, NEGINF), c.back(s.timeframe.end, POSINF)]
                if len(s) == 0:
                    out += [0] + span
                    continue
                if not isinstance(s, pd.Series):
                    return [vh.ODD]
                out += [len(s)] + rows(s) + span + name_codes(s)
            return out
        s = m.power_series_all_data(**kw)
        if s is None:
            return [-1]
        return name_codes(s) + rows(s)

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    box['store'].close()
    os.remove(box['path'])
    return out


def rand_case(rng):
    cols = rng.sample(CODES, rng.randrange(1, 4))
    if not any(x < 20 for x in cols):
        cols[0] = 11
    n = rng.choice([1, 2, 5, 12, 25])
    ts = sorted(rng.sample(range(50), n))
    a = [len(cols)] + cols
    for t in ts:
        a += [t] + [NAN if rng.random() < .1 else rng.randrange(0, 4000) for _ in cols]
    ops = [dict(op='begin', a=a)]
    for _ in range(3):
        if rng.random() < .4:
            w = sorted([rng.choice([NEGINF, rng.randrange(0, 30)]),
                        rng.choice([POSINF, rng.randrange(20, 55)])])
            if w[0] != w[1]:
                ops.append(dict(op='window', a=w))
        acs = rng.choice([[], [9], [9], [1], [2], [1, 2], [8], [3]])
        secs = []
        if rng.random() < .7:
            pts = sorted(rng.sample(range(-2, 54), 2 * rng.choice([1, 1, 2, 3])))
            fr = list(zip(pts[::2], pts[1::2]))
            if rng.random() < .5:
                fr = [(x, min(54, y + rng.choice([0, 1, 9]))) for x, y in fr]
            if rng.random() < .2:
                rng.shuffle(fr)
            for x, y in fr:
                secs += [x, y, rng.randrange(2)]
            if rng.random() < .2:
                secs[0] = NEGINF
        b = [rng.choice([1, 2, 3, 5, 1000]), len(acs)] + acs + secs
        ops += [dict(op='chunks', a=b), dict(op='all', a=b)]
    ops.append(dict(op='vampire', a=[]))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCSeries', constants={'MaxT': c.n('4', '5'), 'Sizes': '{1, 2, 3, 50}'},
        invariants=['JoinExact', 'NoRepeat', 'InOrder', 'Emit'],
        coverage=False, expect_ops=['chunks', 'all'],
        note='every small table, pair of sections and chunk size')
    c.replay('series', c.rng.sample(behs, min(len(behs), c.n(900, 9000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(250, 4000))]
    c.validate('recorded series', 'Series', cases, run)
