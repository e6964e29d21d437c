"""C32: meters compared over time."""
import itertools
import math
import os

import numpy as np
import pandas as pd

import vh
from vh import observe, as_int

COL = ('power', 'active')
CLOCKS = [
    (pd.Timestamp('2014-05-01 00:00:00', tz='Asia/Kolkata'), 1),
    (pd.Timestamp('2014-02-26 00:00:00', tz='Europe/London'), 10),
    (pd.Timestamp('2012-12-31 00:00:00', tz='UTC'), 60),
    (pd.Timestamp('2013-07-10 00:00:00', tz='US/Eastern'), 2),
]
W = 7.                          # watts per unit of power


def execute(ops, scratch, i):
    import meter_driver as md
    import nilmtk
    from nilmtk import DataSet
    from nilmtk.datastore import HDFDataStore, TmpDataStore
    from nilmtk.timeframe import TimeFrame
    from tf_driver import Clock
    c = Clock(0)
    c.base, c.unit = CLOCKS[i % len(CLOCKS)]
    box = {}
    del nilmtk.global_meter_group.meters[:]
    shared = nilmtk.STATS_CACHE
    nilmtk.STATS_CACHE = TmpDataStore()

    def begin(a):
        path = box['path'] = scratch.file('.h5')
        s = HDFDataStore(path, 'w')
        dev = md.device([COL], a[0] * c.unit, c.unit)
        em, k = {}, 2
        box['tabs'] = {}
        for _ in range(a[1]):
            inst, site, nr = a[k:k + 3]
            rows = [a[k + 3 + 2 * j:k + 5 + 2 * j] for j in range(nr)]
            k += 3 + 2 * nr
            key = '/building1/elec/meter%d' % inst
            s.put(key, md.dataframe([c.ts(r[0]) for r in rows],
                                    [[W * r[1]] for r in rows], [COL]))
            box['tabs'][inst] = [r[0] for r in rows]
            em[inst] = {'device_model': 'dev', 'data_location': key}
            em[inst].update({'site_meter': True} if site
                            else {'submeter_of': 0})
        s.save_metadata('/', {'name': 'D', 'timezone': str(c.base.tz),
                              'meter_devices': {'dev': dev}})
        s.save_metadata('/building1', {'instance': 1, 'elec_meters': em,
                                       'appliances': []})
        s.close()
        box['ds'] = DataSet(path)
        box['e'] = box['ds'].buildings[1].elec

    def who(w):
        e = box['e']
        return (e.mains() if w == 0 else e if w == 100 else
                e.submeters() if w == 101 else e[w])

    def secs(a):
        if not a:
            return {}
        return {'sections': [TimeFrame(c.ts(a[k]), c.ts(a[k + 1]))
                             for k in range(0, len(a), 2)]}

    def square(r):
        r = float(r)
        if math.isnan(r):
            return as_int(r)
        if math.isinf(r):
            return vh.ODD
        return int(math.copysign(int(round(r * r * 1e4)), r))

    def tick(t):
        if not isinstance(t, pd.Timestamp):
            t = pd.Timestamp(t)
        if t.tzinfo is None:
            t = t.tz_localize('UTC')
        return as_int((t - c.base).total_seconds(), 1. / c.unit)

    def step(op, a):
        e = box['e']
        if op == 'corr':
            return [square(who(a[0]).correlation(who(a[1]), **secs(a[2:])))]
        if op == 'mains':
            return [square(e.correlation_of_sum_of_submeters_with_mains(
                **secs(a)))]
        if op == 'pairs':
            m = e.pairwise_correlation()
            ids = [x.identifier for x in e.meters]
            if len(m.index) != len(ids) or len(m.columns) != len(ids):
                return [vh.ODD]
            return [square(m[x][y]) for x in ids for y in ids]
        if op == 'switches':
            s = e.simultaneous_switches(a[0] * W)
            out = sorted((tick(t), int(n)) for t, n in s.items())
            return [len(out)] + [x for p in out for x in p]
        if op == 'activity':
            w = a[2] * c.unit
            h = who(a[0]).activity_histogram(
                period='%ds' % (w * a[3]), bin_duration='%ds' % w,
                on_power_threshold=a[1] * W, **secs(a[4:]))
            return [as_int(x) for x in h]
        if op == 'table':
            df = e.dataframe_of_meters(**secs(a))
            out = []
            if len(df.columns) != len(e.meters):
                return [vh.ODD]
            for m in e.meters:
                col = df[m.identifier]
                out.append(m.instance())
                for t in box['tabs'][m.instance()]:
                    hit = col[col.index == c.ts(t)]
                    if a and not any(a[k] <= t < a[k + 1]
                                     for k in range(0, len(a), 2)):
                        if len(hit):
                            return [vh.ODD]
                        continue
                    if len(hit) != 1:
                        return [vh.ODD, m.instance(), t]
                    out += [t, as_int(hit.iloc[0], 1 / W)]
            return out
        if op == 'least':
            return [as_int(who(a[0]).vampire_power(), 1 / W)]
        return [vh.ODD]

    out = []
    try:
        for o in ops:
            if o['op'] == 'begin':
                begin(o['a'])
                out.append(dict(o, res=[]))
                continue
            e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
            if vh.LAST_TB[0]:
                e['tb'] = vh.LAST_TB[0]
            out.append(e)
    finally:
        if 'ds' in box:
            box['ds'].store.close()
        os.remove(box['path'])
        nilmtk.STATS_CACHE.close()
        nilmtk.STATS_CACHE = shared
    return out


def rand_case(rng):
    n = rng.choice([2, 3, 3, 4])
    rows = rng.randrange(2, 8)
    aligned = rng.random() < .6
    maxp = rng.choice([1, 2, 5])
    base, t = [], rng.choice([0, 0, 5, 13])
    for _ in range(rows):
        base.append(t)
        t += 1 if aligned else rng.choice([1, 1, 2, 4, 9])
    ms = []
    for k in range(1, n + 1):
        ts = base if aligned else [x for x in base if rng.random() < .9] or base[:1]
        ms += [k, int(k == 1), len(ts)]
        for t in ts:
            ms += [t, rng.randrange(6 if k > 1 or n > 2 else 4)]
    ops = [dict(op='begin', a=[maxp, n] + ms)]
    lo, hi = base[0], base[-1]
    mid = rng.choice(base)

    def sec():
        if rng.random() < .5 and lo < mid < hi:
            b = rng.choice([mid, mid + 1]) if mid + 1 < hi else mid
            return [lo, mid, b, hi + 1]
        return [lo, hi + 1] if rng.random() < .7 or lo == mid else [lo, mid]
    for _ in range(8):
        op = rng.choice((['corr', 'corr', 'mains', 'pairs'] if aligned else []) +
                        ['switches', 'activity', 'activity', 'table', 'least'])
        x = rng.randrange(1, n + 1)
        w, nb = rng.choice([(1, 4), (1, 6), (2, 3), (3, 4), (1, 10)])
        a = {'corr': [x, rng.randrange(1, n + 1)] + rng.choice([[], sec()]),
             'mains': sec(), 'pairs': [0], 'switches': [rng.randrange(4)],
             'activity': [x, rng.randrange(1, 5), w, nb] + rng.choice([[], [], sec()]),
             'table': rng.choice([[], sec()]), 'least': [x]}[op]
        ops.append(dict(op=op, a=a))
    return ops


def check(c):
    import nilmtk  # noqa
    import meter_driver as md
    md.fast_gc()
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCCompare', constants={'N': c.n(5, 6), 'Vals': '{0, 1, 3}', 'MaxV': 5},
        invariants=['Symmetric', 'WithinOne', 'OfItself', 'SwitchesTogether',
                    'ActivityCountsOn', 'Emit'],
        coverage=False, expect_ops=['corr', 'mains', 'pairs', 'switches',
                                    'activity', 'table', 'least'],
        note='every pair of short series')
    c.validate('short series', 'Compare',
               c.rng.sample(behs, min(len(behs), c.n(100, 1500))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(150, 2500))]
    c.validate('recorded comparisons', 'Compare', cases, run)
