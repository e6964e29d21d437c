"""C23: losses of aligned series, metrics of predicted groups of meters."""
import itertools
import os
import re
import warnings

import numpy as np
import pandas as pd

import vh
from vh import NAN, NEGINF, observe, as_int

COL = ('power', 'active')
NAMES = {'mae': 'mae', 'rmse': 'rmse', 'f1': 'f1score', 'rel': 'relative_error',
         'nde': 'nde', 'nep': 'nep', 'r2': 'r2score'}
LOSSES = sorted(NAMES)
GROUP = ['g_mne', 'g_rms', 'g_f1', 'g_energy', 'g_fraction']
SCALE = {'rmse': 100, 'nde': 100, 'g_rms': 100}


def num(x, scale):
    if isinstance(x, pd.Series):
        x = x.dropna()
        if len(x) != 1 or list(x.index) != ['active']:
            return vh.ODD
        x = x.iloc[0]
    return NAN if pd.isnull(x) else int(round(float(x) * scale)) \
        if np.isfinite(x) and abs(x * scale) < 2e9 else vh.ODD


def execute(ops, scratch, i):
    warnings.simplefilter('ignore')
    from resample_driver import RClock
    import meter_driver as md
    from nilmtk import losses, metrics
    from nilmtk.datastore import HDFDataStore
    from nilmtk.metergroup import MeterGroup
    c = RClock(i)
    box = {}

    def begin(a):
        if a[0] == 1:
            n = a[1]
            ix = pd.date_range(c.ts(0), periods=n, freq='%ds' % c.unit)
            g, p = [np.array(x, dtype='float64') for x in (a[2:2 + n], a[2 + n:2 + 2 * n])]
            if i % 3 == 0:
                g, p = pd.Series(g, ix), pd.Series(p, ix)
            elif i % 3 == 1:
                g, p = pd.Series(g, ix, dtype='float32'), pd.Series(p, ix)
            box['g'], box['p'] = g, p
            return
        if a[0] == 3:
            ng, np_, lg, lp = a[1:5]
            ids = a[5:5 + ng], a[5 + ng:5 + ng + np_]
            k = 5 + ng + np_
            made = {x: md.meter(None, '/building%d/elec/meter%d' % (x // 10, x % 10), md.device([COL], 1, 1), x % 10, x // 10,
                                metadata={'name': 'Type%d' % (x % 3)}) for x in ids[0] + ids[1]}
            for name, n, rows, cols in (('g', ng, lg, ids[0]), ('p', np_, lp, ids[1])):
                t = [a[k + j * (n + 1):k + (j + 1) * (n + 1)] for j in range(rows)]
                k += rows * (n + 1)
                box[name] = pd.DataFrame([[np.nan if v == NAN else float(v) for v in r[1:]] for r in t],
                                         index=pd.DatetimeIndex([c.ts(r[0]) for r in t]), columns=range(n), dtype='float64')
                box[name + 'c'] = [made[x] for x in cols]
            return
        box['files'] = []
        groups = []
        tabs = []
        k = 2
        for _ in range(a[1]):
            maxp, sp, np_, nt = a[k:k + 4]
            k += 4
            rp = [a[k + 2 * j:k + 2 * j + 2] for j in range(np_)]
            k += 2 * np_
            rt = [a[k + 2 * j:k + 2 * j + 2] for j in range(nt)]
            k += 2 * nt
            tabs.append((maxp, sp, rp, rt))
        for which, name in ((2, 'P'), (3, 'T')):
            path = scratch.file('.h5')
            s = HDFDataStore(path, 'w')
            box['files'].append((s, path))
            ms = []
            for j, t in enumerate(tabs):
                inst = len(tabs) + 1 - j if i % 2 else j + 2
                key = '/building1/elec/meter%d' % inst
                s.put(key, md.dataframe(
                    [c.ts(r[0]) for r in t[which]],
                    [[np.nan if r[1] == NAN else float(r[1])] for r in t[which]], [COL]))
                ms.append(md.meter(s, key, md.device([COL], t[0] * c.unit, t[1] * c.unit),
                                   inst, 1, name))
            if i % 5 == 4:
                s.put('/building1/elec/meter1', md.dataframe(
                    [c.ts(0), c.ts(1)], [[7.], [9.]], [COL]))
                ms.append(md.meter(s, '/building1/elec/meter1',
                                   md.device([COL], c.unit, c.unit), 1, 1, name,
                                   metadata={'site_meter': True}))
            if which == 3 and i % 4 > 1:
                ms = ms[::-1]
            groups.append(MeterGroup(ms))
        box['groups'] = groups
        box['inst'] = [len(tabs) + 1 - j if i % 2 else j + 2 for j in range(len(tabs))]

    def called(x):
        if hasattr(x, 'instance'):
            return x.building() * 10 + x.instance()
        m = re.match(r'^Type(\d)$', x)
        if m:
            return 1000 + int(m[1])
        m = re.match(r'^Type(\d) \((\d+), (\d+)\)$', x)
        return int(x) if m is None else int(m[2]) * 10 + int(m[3]) if int(m[1]) == (int(m[2]) * 10 + int(m[3])) % 3 else vh.ODD

    def step(op, a):
        if op == 'table':
            from nilmtk.utils import compute_rmse
            meters = a[0] or i % 2      # (labels are asked of meters; other columns are called what they are)
            for name in 'gp':
                box[name].columns = box[name + 'c'] if meters else \
                    ['%d' % (m.building() * 10 + m.instance()) for m in box[name + 'c']]
            kw = dict(pretty=bool(a[0])) if meters or i % 4 else {}
            r = compute_rmse(box['g'], box['p'], **(kw if not a[0] or i % 3 else {}))
            return [z for x, v in r.items() if not pd.isnull(v) for z in (called(x), num(v, 100))]
        s = SCALE.get(op, 1000)
        if op in NAMES:
            g, p = box['g'], box['p']
            g0, p0 = g.copy(), p.copy()
            r = getattr(losses, NAMES[op])(g, p)
            if not (np.array_equal(g, g0) and np.array_equal(p, p0)):
                return [vh.ODD]
            return [num(r, s)]
        f = {'g_mne': metrics.mean_normalized_error_power,
             'g_rms': metrics.rms_error_power, 'g_f1': metrics.f1_score,
             'g_energy': metrics.error_in_assigned_energy,
             'g_fraction': metrics.fraction_energy_assigned_correctly}[op]
        r = f(*box['groups'])
        if op == 'g_fraction':
            return [num(r, s)]
        if op == 'g_energy':
            s = 3.6e6 / c.unit
        if sorted(r.index) != sorted(box['inst']):
            return [vh.ODD]
        return [num(r[k], s) for k in box['inst']]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    for s, path in box.get('files', []):
        s.close()
        os.remove(path)
    return out


def rand_table(rng, sp, maxp, first):
    t, out = first, []
    for _ in range(rng.randrange(3, 13)):
        out += [t, NAN if rng.random() < .1 else 2 * rng.choice([0, 3, 5, rng.randrange(50)])]
        t += rng.choice([sp, sp, sp, 1, maxp, maxp + 1, 2 * maxp])
    return out


def rand_frames(rng, k):
    ids = rng.sample([11, 12, 13, 14, 21, 22], rng.randrange(1, 5))
    other = list(ids)
    if rng.random() < .5:
        rng.shuffle(other)
    if rng.random() < .4:
        other = other[:-1] or other
    if rng.random() < .2:
        other.append(23)
    a = [3, len(ids), len(other)]
    rows = []
    for x in (ids, other):
        ts = sorted(rng.sample(range(8), rng.randrange(1, 7)))
        a.append(len(ts))
        for t in ts:
            rows += [t] + [NAN if rng.random() < .15 else rng.choice([0, 5, rng.randrange(90)]) for _ in x]
    return [dict(op='begin', a=a + ids + other + rows), dict(op='table', a=[k % 2])]


def rand_case(rng):
    if rng.random() < .4:
        n = rng.randrange(1, 13)
        g = [rng.choice([0, 9, 10, 11, rng.randrange(101)]) for _ in range(n)]
        p = [rng.choice([0, 9, 10, 11, rng.randrange(101)]) for _ in range(n)]
        if rng.random() < .4:
            p = [x if rng.random() < .6 else y for x, y in zip(g, p)]
        return [dict(op='begin', a=[1, n] + g + p)] + [dict(op=x, a=[]) for x in LOSSES]
    n = rng.choice([1, 2, 3])
    a = [2, n]
    for _ in range(n):
        sp = rng.choice([1, 1, 2])
        maxp = rng.choice([2, 2, 3])
        p = rand_table(rng, sp, maxp, 0)
        t = list(p) if rng.random() < .5 else rand_table(rng, 1, 3, rng.choice([0, 0, 2]))
        if rng.random() < .5:
            t = sum(([x, y if rng.random() < .5 or y == NAN else 2 * rng.randrange(50)]
                     for x, y in zip(t[::2], t[1::2])), [])
        a += [maxp, sp, len(p) // 2, len(t) // 2] + p + t
    return [dict(op='begin', a=a)] + [dict(op=x, a=[]) for x in GROUP]


def check(c):
    import nilmtk  # noqa
    from nilmtk import metrics, losses  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCMetrics',
        constants={'MaxN': c.n('2', '3'), 'Vals': '{0, 9, 10, 40}', 'MaxRows': c.n('4', '5'),
                   'Gaps': '{1, 2, 3}'},
        invariants=['Perfect', 'OnlyPerfect', 'OrderIrrelevant', 'MaeBelowRms',
                    'F1Symmetric', 'Inside', 'Emit'],
        coverage=False, expect_ops=['mae', 'g_mne'],
        note='all short pairs of series and all small predicted meters')
    c.validate('small pairs', 'Metrics', c.rng.sample(behs, min(len(behs), c.n(450, 5000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(250, 5000))]
    c.validate('recorded metrics', 'Metrics', cases, run)
    behs = c.model_check(
        'MCTable', constants={'Truths': c.n('{0, 40}', '{0, 40, 777}'), 'Preds': '{0, 30, 777}'},
        invariants=['AnyOrder', 'PerfectTable', 'Emit'], coverage=False, expect_ops=['table'],
        note='small tables with a column per appliance')
    c.validate('small tables', 'Metrics', c.rng.sample(behs, min(len(behs), c.n(300, 5000))), run)
    cases = [rand_frames(c.rng, k) for k in range(c.n(300, 4000))]
    c.validate('recorded tables', 'Metrics', cases, run)
