"""C22: experiments give every algorithm the same instants of the same home."""
import itertools
import os
import warnings

import numpy as np
import pandas as pd

import vh
from vh import NAN, observe, as_int

AC = {1: 'active', 2: 'apparent', 3: 'reactive'}
APPS = {1: 'fridge', 2: 'kettle', 3: 'television'}
BACK = {v: k for k, v in APPS.items()}
METRICS = ['mae', 'rmse', 'f1score', 'relative_error', 'nde', 'nep', 'r2score']
SCALE = {'rmse': 100, 'nde': 100}
ECLOCKS = [
    (pd.Timestamp('2014-03-30 00:00:00', tz='Europe/London'), 300),
    (pd.Timestamp('2012-12-31 23:00:00', tz='UTC'), 60),
    (pd.Timestamp('2014-05-01 00:00:00', tz='Asia/Kolkata'), 10),
    (pd.Timestamp('2014-03-09 00:00:00', tz='US/Eastern'), 300),
]
_RUN = itertools.count(1)


def says(j, k, v):
    return ((0 if np.isnan(v) else int(v) // 12) * k + 7 * j) % 50


class Recorder(object):
    """An algorithm that writes down what it is given."""

    def __init__(self, j, cw, n, pre, apps, log, clock):
        self.MODEL_NAME = 'recorder%d' % j
        self.chunk_wise_training = bool(cw)
        if n:
            self.n_epochs = n
        if j % 2 or pre:
            self.load_model_path = 'somewhere' if pre else None
        self.j, self.apps, self.log, self.c = j, apps, log, clock

    def series(self, df):
        if len(df) == 0:
            return [0]
        if len(df.shape) != 2 or df.shape[1] != 1:
            return [vh.ODD, df.shape[1]]
        out = [len(df)]
        for t, v in zip(df.index, df.values[:, 0]):
            out += [self.c.back(t, vh.NEGINF), as_int(v)]
        return out

    def partial_fit(self, train_mains, train_appliances, current_epoch=None,
                    do_preprocessing=True, **kw):
        o = [1, self.j, -1 if current_epoch is None else current_epoch,
             len(train_mains)]
        for df in train_mains:
            o += self.series(df)
        o.append(len(train_appliances))
        for (name, dfs), k in zip(train_appliances, self.apps):
            o.append(len(dfs) if name == APPS[k] else vh.ODD)
            for df in dfs:
                o += self.series(df)
        self.log.append(o)

    def disaggregate_chunk(self, test_mains):
        o = [2, self.j, -1, len(test_mains)]
        for df in test_mains:
            o += self.series(df)
        self.log.append(o + [0])
        res = []
        for df in test_mains:
            v = list(df.values[:, 0]) if len(df) else []
            if self.j == 2 and v:
                v += [v[-1]] * 3      # some algorithms pad their predictions
            cols = [(APPS[k], [float(says(self.j, k, x)) for x in v])
                    for k in self.apps]
            if self.j % 2 == 0:
                cols = cols[::-1] + [('somebody else', [1.] * len(v))]
            ix = df.index if self.j == 3 else None
            res.append(pd.DataFrame(dict(cols), index=ix))
        return res


def parse(a):
    ms, k = [], 2
    for _ in range(a[1]):
        d, b, role, nc = a[k:k + 4]
        cols = a[k + 4:k + 4 + nc]
        nr = a[k + 4 + nc]
        k += 5 + nc
        rows = [a[k + (nc + 1) * j:k + (nc + 1) * (j + 1)] for j in range(nr)]
        k += nr * (nc + 1)
        ms.append((d, b, role, cols, rows))
    return ms


def lists(a, i, n):
    out = [a[i + 1 + n * k:i + 1 + n * (k + 1)] for k in range(a[i])]
    return out, i + 1 + n * a[i]


def config(a):
    out, i = [a[:5]], 5
    for n in (3, 1, 1, 1, 4, 4, 1):
        x, i = lists(a, i, n)
        out.append([y[0] for y in x] if n == 1 else x)
    return out


def execute(ops, scratch, i):
    warnings.simplefilter('ignore')
    import matplotlib.pyplot as plt
    import meter_driver as md
    import nilmtk
    from nilmtk.api import API
    from nilmtk.datastore import HDFDataStore
    import tables
    from tf_driver import Clock
    c = Clock(0)
    c.base, c.unit = ECLOCKS[i % len(ECLOCKS)]
    run = next(_RUN)
    box = {'files': {}}
    del nilmtk.global_meter_group.meters[:]

    def begin(a):
        ms = parse(a)
        for d in sorted(set(m[0] for m in ms)):
            path = box['files'][d] = scratch.file('.h5')
            s = HDFDataStore(path, 'w')
            devs = {}
            for b in sorted(set(m[1] for m in ms if m[0] == d)):
                em, apps, inst = {}, [], 0
                mine = [m for m in ms if m[:2] == (d, b)]
                if i % 2:
                    mine = mine[::-1]
                for _, _, role, cols, rows in mine:
                    inst += 1
                    key = '/building%d/elec/meter%d' % (b, inst)
                    columns = [('power', AC[x % 10]) for x in cols]
                    dev = 'r%d-%d-%d-%d' % (run, d, b, inst)
                    devs[dev] = dict(md.device(columns, a[0] * c.unit, c.unit),
                                     model=dev)
                    em[inst] = {'device_model': dev, 'data_location': key}
                    em[inst].update({'submeter_of': 0} if role
                                    else {'site_meter': True})
                    if role:
                        apps.append({'type': APPS[role], 'instance': 1,
                                     'meters': [inst]})
                    ix = pd.DatetimeIndex([c.ts(r[0]) for r in rows])
                    if i % 3 == 0:
                        ix = ix.tz_convert('UTC')
                    s.put(key, md.dataframe(
                        ix, [[np.nan if v == NAN else float(v) for v in r[1:]]
                             for r in rows], columns))
                s.save_metadata('/building%d' % b, {
                    'instance': b, 'elec_meters': em, 'appliances': apps})
            s.save_metadata('/', {'name': 'E%d-%d' % (run, d),
                                  'timezone': str(c.base.tz),
                                  'meter_devices': devs})
            s.close()

    def local(t):
        ts = c.ts(t).tz_localize(None)
        return str(ts) if i % 2 else ts

    def plan(places):
        out = {}
        for d, b, s, e in places:
            x = out.setdefault('home%d' % d, {'path': box['files'][d],
                                              'buildings': {}})
            x['buildings'][b] = {'start_time': local(s), 'end_time': local(e)}
        return {'datasets': out}

    def make(a):
        (p, size, drop, art, site), algs, acm, aca, apps, train, test, mets = \
            config(a)
        log = []
        recs = [Recorder(j + 1, x[0], x[1], x[2], apps, log, c)
                for j, x in enumerate(algs)]
        params = {'power': {'mains': [AC[x] for x in acm],
                            'appliance': [AC[x] for x in aca]},
                  'sample_rate': p * c.unit, 'appliances': [APPS[k] for k in apps],
                  'methods': {r.MODEL_NAME: r for r in recs},
                  'train': plan(train), 'test': plan(test)}
        names = [METRICS[m - 1] for m in mets]
        params['test']['metrics'] = names[:1] + ['no_such_metric'] + names[1:] \
            if i % 2 else names
        if size:
            params['chunk_size'] = size
        if not drop:
            params['DROP_ALL_NANS'] = False
        elif i % 3 == 0:
            params['DROP_ALL_NANS'] = True
        if art:
            params['artificial_aggregate'] = True
        if site:
            params['site_only'] = True
        box.update(log=log, recs=recs, apps=[APPS[k] for k in apps],
                   api=None)
        box['api'] = API(params)
        return [len(log), len(box['api'].errors)]

    def error(k):
        api = box['api']
        if k >= len(api.errors):
            return [-97]
        if len(api.errors) != len(api.errors_keys):
            return [vh.ODD]
        parts = api.errors_keys[k].split('_')
        met = next(m for m in METRICS if api.errors_keys[k].endswith('_' + m))
        parts = api.errors_keys[k][:-len(met) - 1].split('_')
        out = [int(parts[0][4:]), int(parts[1]),
               int(parts[2]) if len(parts) == 3 else -1, METRICS.index(met) + 1]
        t = api.errors[k]
        if list(t.index) != box['apps'] \
                or list(t.columns) != [r.MODEL_NAME for r in box['recs']]:
            return out + [vh.ODD]
        for n in box['apps']:
            for r in box['recs']:
                x = float(t.loc[n, r.MODEL_NAME]) * SCALE.get(met, 1000)
                out.append(NAN if np.isnan(x) else int(round(x))
                           if abs(x) < 2e9 else vh.ODD)
        return out

    def last():
        api = box['api']
        g = api.gt_overall
        out = [len(g)]
        if len(g) and sorted(g.columns) != sorted(box['apps']):
            return [vh.ODD]
        for k, t in enumerate(g.index):
            out.append(c.back(t, vh.NEGINF))
            for n in box['apps']:
                out.append(as_int(g[n].iloc[k]))
                for r in box['recs']:
                    p = api.pred_overall[r.MODEL_NAME]
                    if not p.index.equals(g.index):
                        return [vh.ODD]
                    out.append(as_int(p[n].iloc[k]))
        return out

    def step(op, a):
        if op == 'run':
            return make(a)
        if box.get('api') is None:
            return [-98]
        if op == 'given':
            return box['log'][a[0] - 1] if a[0] <= len(box['log']) else [-97]
        if op == 'error':
            return error(a[0] - 1)
        return last()

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    box.clear()
    plt.close('all')
    tables.file._open_files.close_all()
    for f in os.listdir(scratch.path):
        if f.startswith('f%d_' % os.getpid()) and f.endswith('.h5'):
            os.remove(os.path.join(scratch.path, f))
    return out


def ask(n, given=None):
    k = list(range(1, 10)) if given is None else given
    return [dict(op='given', a=[j]) for j in k] + \
        [dict(op='error', a=[j]) for j in range(1, n + 1)] + [dict(op='last', a=[])]


def rand_case(rng):
    p = rng.choice([1, 1, 1, 2, 3])
    maxp = rng.choice([1, 2, 3])
    nm = rng.choice([1, 1, 2, 3])
    places = rng.sample([(1, 1), (1, 2), (2, 1)], nm)
    places = sorted(places, key=lambda x: rng.random())
    places.sort(key=lambda x: x[0] if rng.random() < .5 else 3 - x[0])
    apps = rng.sample([1, 2, 3], rng.choice([1, 2, 2, 3]))
    two = rng.random() < .3
    ms = []
    span = rng.randrange(6, 16)
    ends = {}
    for d, b in places:
        nmains = rng.choice([1, 1, 1, 2])
        for role in [0] * nmains + apps:
            cols = [11]
            if role and two:
                cols = rng.choice([[11], [12], [11, 12], [12, 11]])
            if role == 0 and nmains == 1 and two and rng.random() < .5:
                cols = [11, 12]
            step = rng.choice([1, 1, 1, 2])
            t = rng.choice([0, 0, 0, 1, 3])
            rows = []
            gaps = rng.choice([.05, .2])
            while t < span or len(rows) < 2:
                rows.append([t] + [NAN if rng.random() < .08 else 12 * rng.randrange(20)
                                   for _ in cols])
                t += step if rng.random() > gaps else rng.choice([2, 3, 4])
            ms.append((d, b, role, cols, rows))
        ends[d, b] = span
    a = [maxp, len(ms)]
    for d, b, role, cols, rows in ms:
        a += [d, b, role, len(cols)] + cols + [len(rows)] + sum(rows, [])
    ops = [dict(op='begin', a=a)]
    for _ in range(rng.choice([1, 2])):
        size = rng.choice([0, 0, 2, 3, 4, 7])
        drop = rng.random() < .8
        site = size == 0 and rng.random() < .12
        art = drop and rng.random() < .25
        algs = [[rng.choice([0, 1]), rng.choice([0, 1, 2]), int(rng.random() < .15)]
                for _ in range(rng.choice([1, 2, 2, 3]))]
        acs = [1, 2] if two else rng.choice([[1], [1], [1, 2]])

        def plan():
            out = []
            for d, b in rng.sample(places, rng.randrange(1, len(places) + 1)):
                s = rng.choice([0, 0, rng.randrange(0, span // 2)])
                out.append([d, b, s, rng.choice([span, span + 2,
                                                 rng.randrange(s + 3, span + 4)])])
            first = []
            for x in out:
                if x[0] not in first:
                    first.append(x[0])
            return sorted(out, key=lambda x: first.index(x[0]))
        train, test = plan(), plan()
        mets = rng.sample(range(1, 8), rng.choice([1, 2, 3])) if drop else []
        b = [p, size, int(drop), int(art), int(site), len(algs)] + sum(algs, [])
        b += [1, 1] if not two or rng.random() < .5 else [2, 1, 2]
        b += [len(acs)] + acs + [len(apps)] + apps
        b += [len(train)] + sum(train, []) + [len(test)] + sum(test, [])
        b += [len(mets)] + mets
        ops.append(dict(op='run', a=b))
        ops += ask(6, sorted(rng.sample(range(1, 25), 10)) + [1, 2, 3])
    return ops


def check(c):
    import nilmtk  # noqa
    import nilmtk.api  # noqa
    import meter_driver
    meter_driver.fast_gc()
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCExperiment', constants={'Rows_': c.n('4', '5'), 'Sizes': c.n('{0, 2}', '{0, 2, 3}'),
                                   'Shifts': c.n('{0, 2}', '{0, 1, 3}')},
        invariants=['SameInstants', 'Sums', 'NothingLost', 'AllTested', 'OwnTruth', 'Emit'],
        coverage=False, expect_ops=['run', 'given', 'error'],
        note='small homes with every pattern of missing samples, every kind of experiment')
    c.validate('small homes', 'Experiment', c.rng.sample(behs, min(len(behs), c.n(60, 1500))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(130, 2500))]
    c.validate('recorded experiments', 'Experiment', cases, run)
