"""C11: result tables."""
import itertools
import math

import vh
from vh import NAN, NEGINF, POSINF, observe, as_int

RATE = 1024.


def execute(ops, clock_i):
    from tf_driver import Clock
    from nilmtk.timeframe import TimeFrame
    from nilmtk.stats.totalenergyresults import TotalEnergyResults
    from nilmtk.stats.dropoutrateresults import DropoutRateResults
    from nilmtk.stats.goodsectionsresults import GoodSectionsResults
    c = Clock(clock_i)
    box = {}

    def begin(a):
        k = box['k'] = a[0]
        box['t'] = [TotalEnergyResults() if k == 0 else
                    DropoutRateResults() if k == 1 else
                    GoodSectionsResults(0) for _ in range(2)]

    def frame(s, e):
        return TimeFrame(c.ts(s), c.ts(e))

    def span(t):
        return [c.back(t.start, NEGINF), c.back(t.end, POSINF)]

    def values(row):
        k = box['k']
        if k == 0:
            return [as_int(row.get('active', float('nan'))),
                    as_int(row.get('reactive', float('nan')))]
        if k == 1:
            r = row['dropout_rate']
            return [NAN if math.isnan(r) else int(round(r * RATE)),
                    as_int(row['n_samples'])]
        return [x for t in row['sections'] for x in span(t)]

    def step(op, a):
        x, k = box['t'][a[0] - 1], box['k']
        if op == 'append':
            v = a[3:]
            if k == 0:
                d = {n: float(y) for n, y in zip(('active', 'reactive'), v)
                     if y != NAN}
            elif k == 1:
                d = {'dropout_rate': float('nan') if v[0] == NAN else v[0] / RATE,
                     'n_samples': v[1]}
            else:
                d = {'sections': [[frame(v[i], v[i + 1])
                                   for i in range(0, len(v), 2)]]}
            x.append(frame(a[1], a[2]), d)
            return [1]
        if op == 'update':
            x.update(box['t'][a[1] - 1])
            return [1]
        if op == 'unify':
            x.unify(box['t'][2 - a[0]])
            return [1]
        if op == 'foreign':
            kinds = [TotalEnergyResults(), DropoutRateResults(), GoodSectionsResults(0)]
            good = [{'active': 1.}, {'dropout_rate': .5, 'n_samples': 2},
                    {'sections': [[frame(1, 2)]]}]
            other = kinds[k - 2]
            other.append(frame(1, 2), good[k - 2])
            if a[1] == 0:
                x.update(other)
            elif a[1] == 1:
                x.unify(other)
            elif a[1] == 2:
                x.append((c.ts(41), c.ts(42)), good[k])
            else:
                x.append(frame(41, 42), list(good[k].items()))
            return [1]
        if op == 'timeframes':
            return [y for t in x.timeframes() for y in span(t)]
        if op == 'rows':
            df = x.per_period()
            out = [len(df)]
            for i in range(len(df)):
                row = df.iloc[i]
                v = values(row)
                out += [c.back(df.index[i], NEGINF), c.back(row['end'], POSINF),
                        len(v)] + v
            return out
        res = x.combined() if len(x.timeframes()) % 2 else x.simple()
        if k == 0:
            out = []
            for code, n in ((1, 'active'), (3, 'reactive')):
                if n in res.index:
                    out += [code, as_int(res[n])]
            return out
        if k == 1:
            return [NAN if math.isnan(res) else int(math.floor(res * 1000 + 1e-6))]
        return [y for t in res for y in span(t)]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def rand_case(rng):
    k = rng.randrange(3)
    ops = [dict(op='begin', a=[k])]
    partial = rng.random() < .4      # entries with missing values: no unify
    top = rng.choice([12, 40])
    periods = []
    for _ in range(6):
        s = rng.randrange(0, top)
        periods.append((s, s + rng.randrange(1, 8)))

    def val(s, e):
        if k == 0:
            v = [rng.randrange(0, 500), rng.randrange(0, 500)]
            if partial and rng.random() < .5:
                v[rng.randrange(2)] = NAN
            return v
        if k == 1:
            r = rng.randrange(0, 9) * 128
            return [NAN if partial and rng.random() < .4 else r, rng.choice([0, rng.randrange(1, 60)])]
        pts = sorted(rng.sample(range(s, e + 1), min(e - s + 1, 4) // 2 * 2))
        return pts
    for _ in range(rng.randrange(4, 12)):
        x = rng.randrange(2) + 1
        q = rng.random()
        if q < .55:
            s, e = rng.choice(periods)
            ops.append(dict(op='append', a=[x, s, e] + val(s, e)))
            if rng.random() < .5:
                ops.append(dict(op='append', a=[3 - x, s, e] + val(s, e)))
        elif q < .75 or partial:
            ops.append(dict(op='update', a=[x, 3 - x if rng.random() < .9 else x]))
        elif q < .92:
            ops.append(dict(op='unify', a=[x]))
        elif q < .96:
            ops.append(dict(op='foreign', a=[x, rng.randrange(4)]))
        ops.append(dict(op=rng.choice(['rows', 'combined', 'timeframes']), a=[x]))
    for x in (1, 2):
        ops += [dict(op='rows', a=[x]), dict(op='combined', a=[x])]
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, next(counter) % 5)

    behs = c.model_check(
        'MCResultTable',
        constants={'MaxLen': c.n(3, 4), 'Kinds': '{0, 1, 2}', 'Last': c.n(4, 3)},
        invariants=['Sound', 'Emit'],
        properties=['RefusedChangesNothing', 'NothingLost'],
        expect_actions=['AppendOne', 'Merge2', 'Unify2'],
        note='every history of appends, updates and unifications')
    c.validate('result table', 'ResultTable',
               c.rng.sample(behs, min(len(behs), c.n(4000, 30000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(800, 8000))]
    c.validate('recorded result tables', 'ResultTable', cases, run)
