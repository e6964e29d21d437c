"""C30: the window of a dataset."""
import itertools
import os

import pandas as pd

import vh
from vh import NEGINF, POSINF, observe, as_int

COL = ('power', 'active')
WCLOCKS = [
    (pd.Timestamp('2014-03-30 00:00:00', tz='Europe/London'), 900),
    (pd.Timestamp('2013-11-03 00:00:00', tz='US/Eastern'), 10800),
    (pd.Timestamp('2014-05-01 00:00:00', tz='Asia/Kolkata'), 60),
    (pd.Timestamp('2012-12-31 23:59:00', tz='UTC'), 4),
    (pd.Timestamp('2014-10-26 00:00:00', tz='Europe/London'), 10800),
]
_RUN = itertools.count(1)


def clock(i):
    from tf_driver import Clock
    c = Clock(0)
    c.base, c.unit = WCLOCKS[i % len(WCLOCKS)]
    return c


def execute(ops, scratch, i):
    import meter_driver as md
    import nilmtk
    from nilmtk import DataSet
    from nilmtk.datastore import HDFDataStore, TmpDataStore
    c = clock(i)
    kwh = c.unit / 3.6e6
    run = next(_RUN)
    box = {'ds': {}, 'files': {}}
    del nilmtk.global_meter_group.meters[:]
    shared = nilmtk.STATS_CACHE     # the processes of this check would share its file
    nilmtk.STATS_CACHE = TmpDataStore()

    def begin(a):
        ms, k = [], 2
        for _ in range(a[1]):
            d, b, inst, n = a[k:k + 4]
            rows = [a[k + 4 + 2 * j:k + 6 + 2 * j] for j in range(n)]
            k += 4 + 2 * n
            ms.append((d, b, inst, rows))
        box['ms'] = ms
        dev = md.device([COL], a[0] * c.unit, c.unit)
        dev['model'] = 'dev'
        for d in sorted(set(m[0] for m in ms)):
            path = box['files'][d] = scratch.file('.h5')
            s = HDFDataStore(path, 'w')
            s.save_metadata('/', {'name': 'W%d-%d' % (run, d), 'timezone': str(c.base.tz),
                                  'meter_devices': {'dev': dev}})
            for b in sorted(set(m[1] for m in ms if m[0] == d)):
                em = {}
                for dd, bb, inst, rows in ms:
                    if (dd, bb) != (d, b):
                        continue
                    key = '/building%d/elec/meter%d' % (b, inst)
                    em[inst] = {'device_model': 'dev', 'data_location': key}
                    em[inst].update({'site_meter': True} if inst == 1 else {'submeter_of': 1})
                    idx = pd.DatetimeIndex([c.ts(r[0]) for r in rows])
                    if (i // 5 + inst) % 2:
                        idx = idx.tz_convert('UTC')
                    s.put(key, md.dataframe(idx, [[float(r[1])] for r in rows], [COL]))
                s.save_metadata('/building%d' % b, {'instance': b, 'elec_meters': em,
                                                    'appliances': []})
            s.close()
            box['ds'][d] = DataSet(path)

    def bound(t, form):
        ts = c.ts(t)
        if ts is None:
            return None
        local = ts.tz_localize(None)
        return [local, str(local), local.to_pydatetime(),
                local.strftime('%Y-%m-%dT%H:%M:%S')][form % 4]

    def meter(k):
        d, b, inst, _ = box['ms'][k - 1]
        return box['ds'][d].buildings[b].elec[inst]

    def se(t):
        return [c.back(t.start, NEGINF), c.back(t.end, POSINF), int(t.empty)]

    def step(op, a, n):
        if op in ('set', 'bad', 'enable', 'reopen'):
            ds = box['ds'][a[0]]
        if op == 'set':
            s, e = bound(a[1], i + n), bound(a[2], i // 2 + n)
            if a[1] == NEGINF and n % 2:
                ds.set_window(end=e)
            elif a[2] == POSINF and n % 2:
                ds.set_window(s)
            else:
                ds.set_window(s, e)
            return [0]
        if op == 'bad':
            if n % 3 == 0:
                ds.set_window('half past nonsense', None)
            elif n % 3 == 1:          # a data set which was never opened
                DataSet().set_window(bound(1, i), bound(2, i))
            else:                     # whose clock time is unknown
                tz = ds.metadata.pop('timezone')
                try:
                    ds.set_window(bound(1, i), bound(2, i))
                finally:
                    ds.metadata['timezone'] = tz
            return [0]
        if op == 'enable':
            ds.store.window.enabled = bool(a[1])
            return [0]
        if op == 'reopen':
            ds.store.close()
            box['ds'][a[0]] = DataSet(box['files'][a[0]])
            return [0]
        if op == 'load':
            kw = {'sections': md.frames(a[1:], c)} if len(a) > 1 else {}
            out = []
            for df in meter(a[0]).load(**kw):
                out += [len(df)]
                for t, v in zip(df.index, df.values):
                    out += [c.back(t, NEGINF)] + [as_int(x) for x in v]
            return out
        if op == 'frame':
            return se(meter(a[0]).get_timeframe())
        if op == 'group':
            return se(box['ds'][a[0]].buildings[a[1]].elec.get_timeframe())
        if op == 'energy':
            res = meter(a[0]).total_energy()
            return [as_int(x, 1 / kwh) for x in res]
        if op == 'good':
            g = meter(a[0]).good_sections()
            out = [len(g)]
            for t in g:
                out += [c.back(t.start, NEGINF), c.back(t.end, POSINF)]
            return out
        t = box['ds'][a[0]].buildings[a[1]].elec.train_test_split(a[2] / float(a[3]))
        return [as_int((t - c.base).total_seconds(), a[3] / float(c.unit))]

    out = []
    for n, o in enumerate(ops):
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'], n)))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    for d, ds in box['ds'].items():
        ds.store.close()
        os.remove(box['files'][d])
    nilmtk.STATS_CACHE.close()
    nilmtk.STATS_CACHE = shared
    return out


def rand_case(rng):
    maxp = rng.choice([1, 2, 3])
    places = [(1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (2, 1, 3)]
    places = [p for p in places if p[2] == 1 or rng.random() < .7]
    a = [maxp, len(places)]
    last = 0
    for p in places:
        t = rng.randrange(0, 4)
        n = rng.randrange(2, 12)
        a += list(p) + [n]
        for _ in range(n):
            a += [t, rng.randrange(1, 900)]
            last = max(last, t)
            t += rng.choice([1, 1, 1, 2, maxp, maxp + 1])
    ops = [dict(op='begin', a=a)]
    for _ in range(rng.randrange(8, 20)):
        k = rng.random()
        m = rng.randrange(len(places)) + 1
        d, b, _ = places[m - 1]
        if k < .3:
            ops.append(dict(op='set', a=[d, rng.choice([NEGINF, rng.randrange(-2, last)]),
                                         rng.choice([POSINF, rng.randrange(0, last + 3)])]))
        elif k < .34:
            ops.append(dict(op='bad', a=[d]))
        elif k < .38:
            ops.append(dict(op='enable', a=[d, rng.randrange(2)]))
        elif k < .4:
            ops.append(dict(op='reopen', a=[d]))
        elif k < .6:
            s = []
            if rng.random() < .5:
                pts = sorted(rng.sample(range(-1, last + 3), 4))
                s = [pts[0], pts[1], rng.randrange(2), pts[2], pts[3], rng.randrange(2)]
            ops.append(dict(op='load', a=[m] + s))
        elif k < .75:
            ops.append(dict(op='frame', a=[m]) if k < .7 else dict(op='group', a=[d, b]))
        elif k < .85:
            ops.append(dict(op='energy', a=[m]))
        elif k < .95:
            ops.append(dict(op='good', a=[m]))
        else:
            ops.append(dict(op='split', a=[d, b, rng.randrange(1, 4), 4]))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCWindow', constants={'MaxSteps': c.n('2', '3'), 'Bounds': '{777, 1, 3, 6, 8}'},
        invariants=['Exact', 'GoodInside', 'Emit'], properties=['Independent'],
        coverage=False, expect_ops=['set', 'enable', 'reopen'],
        note='every sequence of window changes of two datasets')
    c.replay('windows', c.rng.sample(behs, min(len(behs), c.n(220, 3000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(160, 2500))]
    c.validate('recorded windows', 'Window', cases, run)
