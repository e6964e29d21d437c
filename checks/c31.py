"""C31: statistics derived from energy and good sections."""
import itertools
import os

import pandas as pd

import vh
from vh import observe, as_int
from c08 import column, AC

CLOCKS = [
    (pd.Timestamp('2014-05-01 00:00:00', tz='Asia/Kolkata'), 60),
    (pd.Timestamp('2014-10-26 00:30:00', tz='Europe/London'), 60),
    (pd.Timestamp('2012-12-31 23:58:00', tz='UTC'), 60),
    (pd.Timestamp('2013-03-10 01:55:00', tz='US/Eastern'), 60),
]
CODE = {v: k for k, v in AC.items()}


def rnd(x, scale=1.):
    """A ratio: rounded, unlike energies, which come out whole."""
    import math
    x = float(x)
    return as_int(x) if math.isnan(x) else \
        vh.ODD if math.isinf(x) else int(round(x * scale))


FACTS = {'building_type': 'flat', 'construction_year': 1930, 'n_occupants': 3, 'heating': ['natural gas', 'wood']}


def execute(ops, scratch, i):
    import meter_driver as md
    import nilmtk
    from nilmtk import DataSet
    from nilmtk.datastore import HDFDataStore, TmpDataStore
    from nilmtk.timeframegroup import TimeFrameGroup  # noqa
    from tf_driver import Clock
    c = Clock(0)
    c.base, c.unit = CLOCKS[i % len(CLOCKS)]
    kwh = c.unit / 3.6e6
    box = {}
    del nilmtk.global_meter_group.meters[:]
    shared = nilmtk.STATS_CACHE
    nilmtk.STATS_CACHE = TmpDataStore()

    def begin(a):
        path = box['path'] = scratch.file('.h5')
        s = HDFDataStore(path, 'w')
        devs, em, k = {}, {}, 2
        for _ in range(a[1]):
            inst, site, sub, nc = a[k:k + 4]
            codes = a[k + 4:k + 4 + nc]
            nr = a[k + 4 + nc]
            k += 5 + nc
            cols = [column(x) for x in codes]
            f = [kwh if x // 10 in (2, 3) else 1. for x in codes]
            times, vals = [], []
            for _ in range(nr):
                times.append(c.ts(a[k]))
                vals.append([v * y for v, y in zip(a[k + 1:k + 1 + nc], f)])
                k += 1 + nc
            key = '/building1/elec/meter%d' % inst
            s.put(key, md.dataframe(times, vals, cols))
            model = 'dev%d' % inst
            devs[model] = dict(md.device(cols, a[0] * c.unit, c.unit),
                               model=model)
            em[inst] = {'device_model': model, 'data_location': key}
            em[inst].update({'site_meter': True} if site
                            else {'submeter_of': sub})
        s.save_metadata('/', {'name': 'D', 'timezone': str(c.base.tz),
                              'meter_devices': devs})
        s.save_metadata('/building1', {'instance': 1, 'elec_meters': em,
                                       'appliances': [], **FACTS})
        s.close()
        box['ds'] = DataSet(path)
        box['e'] = box['ds'].buildings[1].elec

    def who(w):
        e = box['e']
        return (e.mains() if w == 0 else e if w == 100 else
                e.submeters() if w == 101 else e[w])

    def kinds(res, scale, num=as_int):
        out = []
        for ac in sorted(res.index, key=lambda x: CODE.get(x, 9)):
            out += [CODE.get(ac, vh.ODD) * 1000, num(res[ac], scale)]
        return out

    def inst(key):
        return key.instance if hasattr(key, 'instance') else key[0]

    def table(df, scale, num=as_int):
        out = []
        for key in sorted(df.columns, key=inst):
            col = df[key].dropna()
            if len(col) != 1:
                return [vh.ODD]
            out += [inst(key) * 1000, CODE[col.index[0]] * 1000,
                    num(col.iloc[0], scale)]
        return out

    def alias(n):
        if n * c.unit == 3600:
            return 'hH'[i % 2]
        return '%ds' % (n * c.unit)

    def step(op, a):
        if op == 'submetered':
            return [rnd(box['e'].proportion_of_energy_submetered(), 1e4)]
        x = who(a[0])
        if op == 'uptime':
            return [as_int(x.uptime().total_seconds(), 1. / c.unit)]
        if op == 'average':
            res = x.average_energy_per_period(
                alias(a[1]), use_uptime=bool(a[2]))
            if not hasattr(res, 'index'):
                return [as_int(res)]
            return kinds(res, 1 / kwh, rnd)
        if op == 'total':
            return kinds(x.total_energy(), 1 / kwh)
        if op == 'proportion':
            return [rnd(x.proportion_of_energy(who(a[1])), 1e4)]
        if op == 'upstream':
            return [rnd(x.proportion_of_upstream(), 1e4)]
        if op == 'permeter':
            return table(x.energy_per_meter(), 1 / kwh)
        if op == 'perperiod':
            return table(x.energy_per_meter(per_period=alias(a[1])), 1 / kwh,
                         rnd)
        if op == 'fraction':
            res = x.fraction_per_meter()
            return [v for k in sorted(res.index, key=inst)
                    for v in (inst(k) * 1000, rnd(res[k], 1e4))]
        if op == 'remainder':
            res = x.energy_per_meter(mains=who(0))
            rest = res.pop('Remainder')
            return [v for k in sorted(res.index, key=inst)
                    for v in (inst(k) * 1000, as_int(res[k], 1 / kwh))] + \
                [as_int(rest, 1 / kwh)]
        if op == 'dropout':
            return [rnd(x.dropout_rate(), 1e5)]
        if op == 'droptable':
            secs = [x.get_timeframe()]
            secs[0].include_end = True
            res = x.dropout_rate(full_results=True, sections=secs,
                                 ignore_gaps=False)
            return [rnd(res.combined(), 1e5)]
        if op == 'shares':
            res = x.proportion_of_upstream_total_per_meter()
            v = [y for y in res.values if y == y]
            if v != sorted(v, reverse=True):
                return [vh.ODD]
            return [z for k in sorted(res.index, key=inst)
                    for z in (inst(k) * 1000, rnd(res[k], 1e4))]
        if op == 'describe':
            if i % 3 == 0:
                res = x.describe(compute_expensive_stats=False)
            else:       # (the building, or the data set with a column per building)
                b = box['ds'].buildings[1] if i % 3 == 1 else box['ds']
                res = b.describe(compute_expensive_stats=False)
                if i % 3 == 2:
                    if list(res.columns) != [1]:
                        return [vh.ODD]
                    res = res[1]
                if res['instance'] != 1 or any(res[k] != v for k, v in FACTS.items()) or not pd.isnull(res['ownership']):
                    return [vh.ODD]
            if res['mains_sample_period'] != c.unit or \
                    res['submeter_sample_period'] != c.unit:
                return [vh.ODD]
            s, e = [pd.Timestamp(y.split('=')[1]).tz_convert(c.base.tz)
                    for y in res['timeframe'].split(', ')]
            dur = pd.Timedelta(res['total_duration'])
            if e - s != dur:
                return [vh.ODD]
            return [res['total_n_meters'] * 1000,
                    res['total_n_site_meters'] * 1000,
                    as_int((s - c.ts(0)).total_seconds(), 1000. / c.unit),
                    as_int(dur.total_seconds(), 1000. / c.unit),
                    as_int(pd.Timedelta(res['mains_uptime']).total_seconds(),
                           1000. / c.unit),
                    rnd(res['proportion_uptime'], 1e4)]
        if op == 'top':
            res = x.select_top_k(a[1], asc=bool(a[2]),
                                 group_remainder=bool(a[3]))
            out = []
            for m in res.meters:
                out += [y.instance() for y in m.meters] \
                    if hasattr(m, 'meters') else [m.instance()]
            return out
        return [vh.ODD]

    out = []
    try:
        for o in ops:
            if o['op'] == 'begin':
                begin(o['a'])
                out.append(dict(o, res=[]))
                continue
            e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
            if vh.LAST_TB[0]:
                e['tb'] = vh.LAST_TB[0]
            out.append(e)
    finally:
        if 'ds' in box:
            box['ds'].store.close()
        os.remove(box['path'])
        nilmtk.STATS_CACHE.close()
        nilmtk.STATS_CACHE = shared
    return out


def rand_case(rng):
    two = rng.random() < .25
    same = rng.random() < .3         # all recorded over the same stretch
    long = rng.random() < .35        # long enough for every meter to have a dropout rate
    n = rng.choice([2, 3, 3, 4])
    ms = []
    mcols = rng.choice([[11], [12], [11, 12], [12, 11], [31], [32, 31], [21]])
    for k in range(1, n + two + 1):
        site = k == 1 or (two and k == 2)
        if site:
            sub, cols = 0, mcols
        else:
            sub = 0 if two else rng.choice([0, 1, 1] + list(range(2, k)))
            cols = rng.choice([[11], [11], [12], [13], [11, 12], [12, 13],
                               [31], [21, 22], [13, 11]])
        t = 0 if same or long else rng.choice([0, 0, 0, 2, 9])
        rows = []
        acc = [0] * len(cols)
        load = rng.choice([5, 20, 50]) if not site else 60
        for _ in range(rng.randrange(12, 24) if long else rng.randrange(2, 14)):
            v = []
            for j, col in enumerate(cols):
                x = rng.choice([0, 10, load, load + 7])
                acc[j] += x
                v.append(acc[j] if col // 10 == 3 else x)
            rows.append([t] + v)
            t += rng.choice([1, 1, 1, 2, 3, 3] if long else [1, 1, 1, 2, 3, 5])
        if same and rows:
            end = 20 if long else 11
            rows = [r for r in rows if r[0] < end]
            rows.append([end] + [acc[j] if col // 10 == 3 else load
                                for j, col in enumerate(cols)])
        ms += [k, int(site), sub, len(cols)] + cols + [len(rows)] + sum(rows, [])
    a = [3 if long else rng.choice([1, 2, 3]), n + two] + ms
    ops = [dict(op='begin', a=a)]
    insts = list(range(1, n + two + 1))
    subs = insts[1 + two:]
    for _ in range(14):
        op = rng.choice(['uptime', 'average', 'average', 'total', 'proportion',
                         'proportion', 'upstream', 'submetered', 'permeter',
                         'perperiod', 'fraction', 'remainder', 'top', 'top',
                         'dropout', 'dropout', 'droptable', 'shares', 'describe'])
        grp = rng.choice([100, 101])
        any_ = rng.choice(insts + [0, 100, 101])
        if long and rng.random() < .3:
            op, any_ = 'dropout', rng.choice([100, 101])
        b = {'uptime': [any_], 'average': [any_, rng.choice([30, 60, 60, 90, 144]), rng.randrange(2)],
             'total': [any_],
             'proportion': [any_, rng.choice([0, 0, 0] + insts)],
             'upstream': [rng.choice(subs)],
             'submetered': [0], 'permeter': [grp], 'perperiod': [grp, rng.choice([20, 60, 96])],
             'fraction': [grp], 'remainder': [101], 'shares': [101],
             'describe': [100], 'dropout': [any_],
             'droptable': [rng.choice([100, 101, 101] + insts)],
             'top': [grp, rng.randrange(1, n + 1), rng.randrange(2),
                     rng.randrange(2)]}[op]
        if op == 'top' and b[3] and b[1] >= (n + two if grp == 100 else len(subs)):
            b[3] = 0
        ops.append(dict(op=op, a=b))
    return ops


def check(c):
    import nilmtk  # noqa
    import meter_driver as md
    md.fast_gc()
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCDerived', constants={'Gaps': c.n('{1, 4}', '{1, 2, 4}'),
                                'Loads': c.n('{1, 3}', '{0, 1, 3}')},
        invariants=['UptimeWithinRecord', 'OwnProportionIsWhole',
                    'FractionsAddUp', 'GroupIsSum', 'RemainderAddsUp',
                    'TopExists', 'UpstreamIsProportion', 'DropMeanBetween', 'Emit'],
        coverage=False, expect_ops=['uptime', 'average', 'proportion',
                                    'upstream', 'submetered', 'permeter',
                                    'fraction', 'remainder', 'top', 'dropout',
                                    'droptable', 'shares', 'describe'],
        note='every small building, every statistic')
    c.validate('small buildings', 'Derived',
               c.rng.sample(behs, min(len(behs), c.n(120, 2000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(150, 2500))]
    c.validate('recorded statistics', 'Derived', cases, run)
