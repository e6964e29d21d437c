"""C19: combinatorial optimisation."""
import itertools

import numpy as np
import pandas as pd

import vh
from vh import NAN, observe, as_int


def execute(ops, i):
    from resample_driver import RClock
    from nilmtk.disaggregate import CO
    from nilmtk.feature_detectors import cluster
    from nilmtk.utils import find_nearest
    c = RClock(i)
    co = CO({})

    def frame(vals, t=0):
        return pd.DataFrame(
            [[np.nan if x == NAN else float(x)] for x in vals],
            index=pd.DatetimeIndex([c.ts(t + k) for k in range(len(vals))]),
            columns=[('power', 'active')])

    def pieces(vals):
        n = 1 + i % 3
        size = max(1, (len(vals) + n - 1) // n)
        return [frame(vals[k:k + size], k) for k in range(0, len(vals), size)]

    def model():
        out = []
        for m in co.model:
            out += [int(m['appliance_name'][3:]), len(m['states'])]
            out += [as_int(x) for x in m['states']]
        return out

    def step(op, a):
        if op == 'nearest':
            known = np.array(a[1:1 + a[0]])
            tests = np.array(a[1 + a[0]:], dtype=float)
            if i % 2:
                known = known[::-1]
            if i % 3:
                tests = tests.reshape(-1, 1)
            idx, left = find_nearest(known, tests)
            if idx.shape != tests.shape or left.shape != tests.shape:
                return [vh.ODD]
            return [as_int(y) for j, x in zip(idx.flatten(), left.flatten())
                    for y in (known[j], x)]
        if op == 'levels':
            x = frame(a)
            return [as_int(y) for y in cluster(x if i % 2 else x.iloc[:, 0], 3)]
        if op == 'train':
            k, apps, mains = 0, [], None
            while k < len(a):
                vals = a[k + 2:k + 2 + a[k + 1]]
                apps.append(('app%d' % a[k], pieces(vals)))
                mains = pieces(vals)
                k += 2 + a[k + 1]
            co.partial_fit(mains, apps)
            return model()
        if op == 'predict':
            k, dfs, t = 0, [], 0
            while k < len(a):
                dfs.append(frame(a[k + 1:k + 1 + a[k]], t))
                t += a[k]
                k += 1 + a[k]
            old = [d.copy() for d in dfs]
            res = co.disaggregate_chunk(dfs)
            names = [m['appliance_name'] for m in co.model]
            if len(res) != len(dfs) or not all(
                    r.index.equals(d.index) and list(r.columns) == names and
                    d.equals(o) for r, d, o in zip(res, dfs, old)):
                return [vh.ODD]
            out = [len(r) for r in res]
            for r in res:
                out += [as_int(x) for row in r.values for x in row]
            return out
        return [vh.ODD]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            a, k = o['a'], 0
            while k < len(a):
                co.model.append({'appliance_name': 'app%d' % a[k],
                                 'states': np.array(a[k + 2:k + 2 + a[k + 1]],
                                                    dtype=np.int32)})
                k += 2 + a[k + 1]
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def rand_vals(rng, n, levels):
    return [NAN if rng.random() < .03 else rng.choice(levels + [0, 0, 5, 10])
            for _ in range(n)]


def rand_case(rng):
    a = []
    for k in range(rng.choice([0, 1, 2, 3])):
        s = sorted(set([0] + [rng.randrange(1, 400) for _ in range(rng.choice([0, 1, 1, 2]))]))
        if rng.random() < .1:
            s = s[1:] or [0]
        a += [k + 1, len(s)] + s
    ops = [dict(op='begin', a=a)]
    have = bool(a)

    def predict():
        b = []
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.choice([0, 1, 4, 10])
            b += [n] + [rng.randrange(-20, 900) for _ in range(n)]
        ops.append(dict(op='predict', a=b))
    if have:
        predict()
    for _ in range(rng.choice([1, 2])):
        t = []
        for k in rng.sample(range(1, 8), rng.choice([1, 2])):
            lv = [rng.randrange(11, 300) for _ in range(rng.choice([1, 1, 2]))]
            vals = rand_vals(rng, rng.choice([15, 60, 60, 90]), lv)
            up = [v for v in vals if v > 10]
            if len(up) >= 20:
                pass
            t += [k, len(vals)] + vals
        ops.append(dict(op='train', a=t))
        predict()
    known = [rng.randrange(0, 300) for _ in range(rng.randrange(1, 9))]
    ops.append(dict(op='nearest', a=[len(known)] + known +
                    [rng.randrange(-50, 400) for _ in range(8)]))
    ops.append(dict(op='levels', a=rand_vals(
        rng, rng.choice([10, 40, 80]),
        [rng.randrange(11, 900) for _ in range(rng.choice([1, 2, 3, 5]))])))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, next(counter))

    behs = c.model_check(
        'MCDisagg', constants={'Levels': c.n('{1, 2, 5, 6}', '{1, 2, 3, 5, 6, 9}'),
                               'MaxApps': c.n(2, 3), 'Top': 14},
        invariants=['SearchWorks', 'OffIncluded', 'Emit'], coverage=False,
        expect_ops=['predict', 'nearest'],
        note='all state sets of a few appliances, every reading')
    behs = c.rng.sample(behs, min(len(behs), c.n(600, 8000)))
    c.validate('all combinations', 'Disagg',
               [[dict(op=e['op'], a=e['a']) for e in b] for b in behs], run)
    cases = [rand_case(c.rng) for _ in range(c.n(160, 2500))]
    c.validate('recorded predictions', 'Disagg', cases, run)
