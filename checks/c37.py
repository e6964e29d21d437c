"""C37: entropy and mutual information of meters."""
import itertools
import os
import warnings
from unittest import mock

import pandas as pd

import vh
from vh import observe


def execute(ops, scratch, i):
    import meter_driver as md
    import nilmtk.electric as mod
    from nilmtk.datastore import HDFDataStore
    from nilmtk.metergroup import MeterGroup
    box = {}

    def begin(a):
        path = box['path'] = scratch.file('.h5')
        s = box['s'] = HDFDataStore(path, 'w')
        n = a[1]
        box['most'] = a[0]
        unit = box['unit'] = (1., 4., .25)[i % 3]       # (log2 of the unit is a whole number of bits)
        group = i % 5 == 1          # (a group is loaded up to, not including, the end of its timeframe)
        times = [pd.Timestamp('2014-05-01', tz='Europe/London') + pd.Timedelta(seconds=k) for k in range(n + group)]
        box['m'] = []
        for w in (1, 2):
            key = '/building1/elec/meter%d' % w
            s.put(key, md.dataframe(times, [[v * unit] for v in a[2 + (w - 1) * n:2 + w * n] + [5] * group], [('power', 'active')]))
            m = md.meter(s, key, md.device([('power', 'active')], 3, 1), instance=w)
            box['m'].append(MeterGroup([m]) if group else m)

    def step(op, a):
        x, y = box['m'] if a[0] == 1 else box['m'][::-1]
        kw = dict(k=a[1], base=2 ** a[2])
        if a[1] == 3 and i % 2:
            del kw['k']                                 # (the default)
        if a[2] == 1 and i % 3:
            del kw['base']
        if a[1:] == [3, 1] and i % 4 == 2:              # (for all meters of a group)
            g = MeterGroup(list(box['m']))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = g.entropy_per_meter() if op == 'entropy' else g.pairwise_mutual_information()
            r = r[x.identifier] if op == 'entropy' else r[x.identifier][y.identifier]
            r = r * 1000 - (op == 'entropy') * {1.: 0, 4.: 2000, .25: -2000}[box['unit']]
        elif op == 'entropy':
            r = x.entropy(**kw) * 1000
            r -= {1.: 0, 4.: 2000, .25: -2000}[box['unit']] / a[2]
        else:
            r = x.mutual_information(y, **kw) * 1000
        return [int(round(float(r)))]

    out = []
    try:
        for o in ops:
            if o['op'] == 'begin':
                begin(o['a'])
                out.append(dict(o, res=[]))
                continue
            with mock.patch.object(mod, 'MAX_SIZE_ENTROPY', box['most'], create=True):
                e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
            if vh.LAST_TB[0]:
                e['tb'] = vh.LAST_TB[0]
            out.append(e)
    finally:
        if 's' in box:
            box['s'].close()
        os.remove(box['path'])
    return out


def rand_case(rng, split):
    n = rng.choice([3, 5, 8, 13, 21, 34])
    most = rng.choice([n - 1, n, max(2, n // 2), max(2, n // 3)]) if split and rng.random() < .5 else 10000
    top = rng.choice([300, 3000, 15000])
    x = [rng.randrange(top) for _ in range(n)]
    y = [rng.randrange(top) for _ in range(n)]
    if rng.random() < .5:           # one follows the other
        y = [v // 2 + rng.randrange(max(2, top // rng.choice([4, 40]))) for v in x]
    if rng.random() < .2:
        x[rng.randrange(n)] = x[rng.randrange(n)]
    ops = [dict(op='begin', a=[most, n] + x + y)]
    for _ in range(3):
        ops.append(dict(op=rng.choice(['entropy', 'mutual']),
                        a=[rng.randrange(1, 3), rng.choice([1, 2, 3, 3, 4]), rng.choice([1, 1, 2])]))
    return ops


def check(c):
    import nilmtk.electric as mod
    counter = itertools.count()
    split = hasattr(mod, 'MAX_SIZE_ENTROPY')

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCInformation', constants={'Xs': '{0, 1, 4, 9, 15}', 'Ys': '{0, 2, 7, 31}', 'N': c.n(4, 5),
                                    'Most': '{3, 10000}' if split else '{10000}'},
        invariants=['Symmetric', 'Unitless', 'OneBit', 'PiecesWhole', 'Emit'],
        coverage=False, expect_ops=['entropy', 'mutual'],
        note='every small pair of series')
    c.replay('estimates', c.rng.sample(behs, min(len(behs), c.n(2500, 20000))), run, tol=6)
    cases = [rand_case(c.rng, split) for _ in range(c.n(250, 3000))]
    c.validate('recorded estimates', 'Information', cases, run)
