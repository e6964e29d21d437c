"""C34: training the event detectors."""
import itertools
import warnings

import numpy as np
import pandas as pd

import vh
from resample_driver import RClock
from vh import NEGINF, observe, as_int

P = ('power', 'active')


def recs(a):
    n, k, out = a[0], 1, []
    for _ in range(n):
        out.append(a[k + 1:k + 1 + a[k]])
        k += 1 + a[k]
    return out, a[k:]


def execute(ops, i, scratch):
    from nilmtk.disaggregate.hart_85 import Hart85
    from nilmtk.legacy.disaggregate import Hart85 as Legacy
    c = RClock(i)
    box = {}

    def frame(vals, t=0, multi=True):
        cols = pd.MultiIndex.from_tuples([P]) if multi else [P]
        return pd.DataFrame([[float(x)] for x in vals], columns=cols,
                            index=pd.DatetimeIndex([c.ts(t + k) for k in range(len(vals))]))

    def levels():
        h = box['h']
        x = h.centroids
        if list(x.columns) != [P]:
            return [vh.ODD]
        out = [len(x)] + [int(np.floor(y[0] * 1000 + 1e-6)) for y in x.values]
        if box['kind'] == 1:
            if list(h.best_matches) != box['names']:
                return [vh.ODD, 1]
            out += [list(x.index).index(h.best_matches[n]) + 1 for n in box['names']]
        return out

    def step(op, a):
        if op == 'train':
            r, rest = recs(a)
            gts, _ = recs(rest)
            box['names'] = ['app%d' % k for k in range(len(gts))]
            dfs, t = [], 0
            for x in r:
                dfs.append(frame(x, t, multi=box['kind'] == 1 or i % 2))
                t += len(x)
            old = [d.copy() for d in dfs]
            if box['kind'] == 1:
                h = box['h'] = Hart85({})
                h.partial_fit(dfs, [(n, [frame(g)]) for n, g in zip(box['names'], gts)], **box['kw'])
            else:
                class Source(object):
                    def load(self, columns=None, **kw):
                        assert columns == [P]
                        return iter(dfs)
                h = box['h'] = Legacy()
                h.train(Source(), columns=[P], **box['kw'])
            if not all(x.equals(y) for x, y in zip(dfs, old)):
                return [vh.ODD, 2]
            return levels()
        if op == 'reload':
            path = scratch.file('.pickle')
            box['h'].export_model(path)
            h = Hart85({}) if box['kind'] == 1 else Legacy()
            h.import_model(path)
            box['h'] = h
            return [1]
        if op == 'levels':
            return levels()
        if op == 'predict':
            r, _ = recs(a)
            dfs, t = [], 1000
            for x in r:
                dfs.append(frame(x, t))
                t += len(x)
            res = box['h'].disaggregate_chunk(dfs)
            if len(res) != len(dfs):
                return [vh.ODD, len(res)]
            out = []
            for d, x in zip(dfs, res):
                if not d.index.equals(x.index) or list(x.columns) != box['names']:
                    return [vh.ODD]
                out.append(len(x))
                for n in box['names']:
                    out += [as_int(y) for y in x[n]]
            return out
        return [vh.ODD]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            a = o['a']
            box['kind'] = a[0]
            box['kw'] = dict(state_threshold=a[1], noise_level=a[2], buffer_size=a[3], min_tolerance=a[4],
                             percent_tolerance=a[5] / 1000., large_transition=a[6])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def home(rng, apps, n, jit, init):
    """n phases of a home; (mains, one record per appliance)."""
    on = [0] * len(apps)
    base = rng.choice([0, 40, 60, 300])
    mains, own = [], [[] for _ in apps]
    for k in range(n):
        if k or init:
            x = rng.randrange(len(apps))
            on[x] = 0 if on[x] else apps[x] + rng.choice(jit)
            if rng.random() < .1:
                x = rng.randrange(len(apps))
                on[x] = 0 if on[x] else apps[x] + rng.choice(jit)
        m = rng.choice([1, 2, 2, 3, 4])
        mains += [base + sum(on)] * m
        for s, y in zip(own, on):
            s += [y] * m
    return mains, own


def rand_case(rng):
    kind = rng.choice([1, 1, 2])
    apps = rng.sample([110, 200, 290, 600, 1050, 1900], rng.choice([1, 2, 3]))
    jit = rng.choice([[0], [0], [0], [0, 0, 1], [0, 20], [0, 0, 4, -4]])
    ops = [dict(op='begin', a=[kind, rng.choice([15, 15, 5]), rng.choice([70, 70, 30, 150]),
                               rng.choice([20, 20, 6, 3]), rng.choice([100, 100, 35, 5]), rng.choice([35, 35, 10]),
                               rng.choice([1000, 1000, 400])])]
    for _ in range(rng.choice([1, 1, 2])):
        chunks, gts = [], None
        for _ in range(rng.choice([1, 1, 2, 3])):
            m, own = home(rng, apps, rng.choice([4, 8, 14]), jit, rng.random() < .3)
            chunks.append(m)
            if gts is None:
                gts = own
        gts = [rng.choice([g, g, g[:-2] or g, g + [0] * rng.choice([1, 6, 15, 25]), g[:len(g) // 2 + 1], g + g[::-1]]) for g in gts] if kind == 1 else []
        a = [len(chunks)] + [y for m in chunks for y in [len(m)] + m]
        a += [len(gts)] + [y for g in gts for y in [len(g)] + g]
        ops.append(dict(op='train', a=a))
        if rng.random() < .5:
            ops += [dict(op='reload', a=[]), dict(op='levels', a=[])]
        if kind == 1:
            t = [home(rng, apps, rng.choice([1, 3, 6]), jit, True)[0] for _ in range(rng.choice([1, 2]))]
            ops.append(dict(op='predict', a=[len(t)] + [y for m in t for y in [len(m)] + m]))
    return ops


def check(c):
    import nilmtk  # noqa
    from nilmtk.legacy.disaggregate import Hart85  # noqa
    counter = itertools.count()

    def run(ops):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return execute(ops, next(counter), c.scratch)

    behs = c.model_check(
        'MCHartTrain', constants={'Apps': c.n(2, 3), 'Steps': c.n(6, 6), 'Kinds': '{1}', 'Rows': 3},
        invariants=['Learning', 'Emit'], coverage=False,
        expect_ops=['train', 'predict', 'reload', 'levels'],
        note='every home whose appliances are switched one at a time')
    behs = c.rng.sample(behs, min(len(behs), c.n(200, 3000)))
    cases = []
    for b in behs:
        ops = [dict(op=e['op'], a=e['a']) for e in b]
        cases.append(ops)
        a = list(ops[1]['a'])
        cases.append([dict(op='begin', a=[2] + ops[0]['a'][1:]), dict(op='train', a=a[:2 + a[1]] + [0])] + ops[3:5])
    c.validate('small homes', 'HartTrain', cases, run)
    c.validate('recorded training', 'HartTrain', [rand_case(c.rng) for _ in range(c.n(250, 4000))], run)
