"""C18: event detection and pairing."""
import itertools

import numpy as np
import pandas as pd

import vh
from vh import NAN, NEGINF, observe, as_int


def execute(ops, i):
    from resample_driver import RClock
    from nilmtk.disaggregate.hart_85 import PairBuffer, Hart85
    from nilmtk.feature_detectors.steady_states import (
        find_steady_states, find_steady_states_transients)
    c = RClock(i)
    box = {}

    def begin(a):
        box['kind'] = a[0]
        if a[0] == 1:
            box['nc'] = a[5]
            box['args'] = dict(buffer_size=a[1], min_tolerance=a[2],
                               percent_tolerance=a[3] / 1000.,
                               large_transition=a[4])
            box['cols'] = [('power', 'active'), ('power', 'reactive')][:a[5]]
            box['b'] = PairBuffer(columns=box['cols'],
                                  num_measurements=a[5] + 1, **box['args'])
            box['n'] = 0
        elif a[0] == 2:
            box['kw'] = dict(state_threshold=a[1], noise_level=a[2])
            box['nc'] = a[3]
        else:
            h = Hart85({})
            cols = [('power', 'active')]
            h.columns, h.state_threshold, h.noise_level = cols, a[1], a[2]
            h.centroids = pd.DataFrame([[float(x)] for x in a[4:4 + a[3]]],
                                       columns=pd.MultiIndex.from_tuples(cols)
                                       if i % 2 else cols)
            h.appliances = ['app%d' % k for k in range(len(a) - 4 - a[3])]
            h.best_matches = {n: x - 1 for n, x in zip(h.appliances, a[4 + a[3]:])}
            box['h'] = h

    def pairs(df):
        out = []
        w = box['nc'] + 1
        for row in df.itertuples(index=False):
            row = list(row)
            if len(row) != 2 * w:
                return [vh.ODD]
            for part in (row[:w], row[w:]):
                t = c.back(part[0], NEGINF)
                out.append(t)
                if [as_int(x) for x in part[1:]] != box['edges'].get(t):
                    out.append(vh.ODD)
        return out

    def buf():
        out = [len(box['b'].transition_list)]
        for x in box['b'].transition_list:
            t = c.back(x[0], NEGINF)
            out += [t, int(x[-1])]
            if [as_int(y) for y in x[1:-1]] != box['edges'].get(t):
                out.append(vh.ODD)
        return out + pairs(box['b'].matched_pairs)

    def frame(a, nc):
        w = nc + 1
        rows = [a[k:k + w] for k in range(0, len(a), w)]
        return pd.DataFrame(
            [[np.nan if x == NAN else float(x) for x in r[1:]] for r in rows],
            index=pd.DatetimeIndex([c.ts(r[0]) for r in rows]),
            columns=[('power', 'active'), ('power', 'reactive')][:nc])

    def states(steady, trans):
        if len(steady) != len(trans) or not steady.index.equals(trans.index):
            return [vh.ODD]
        out = [len(steady)]
        for t, s, x in zip(steady.index, steady.values, trans.values):
            out.append(c.back(t, NEGINF))
            out += [int(np.floor(y * 1000 + 1e-6)) for y in x]
            out += [int(np.floor(y * 1000 + 1e-6)) for y in s]
        return out

    def step(op, a):
        if op == 'add':
            box['n'] += 1
            box.setdefault('edges', {})[box['n']] = list(a)
            box['b'].add_transition((c.ts(box['n']),) + tuple(map(float, a)))
            return buf()
        if op == 'match':
            return [int(box['b'].pair_transitions())] + buf()
        if op == 'clean':
            box['b'].clean_buffer()
            return buf()
        if op == 'pair':
            nc = box['nc']
            h = Hart85({})
            h.columns = box['cols']
            edges = [list(a[k:k + nc]) for k in range(0, len(a), nc)]
            box['edges'] = {k + 1: e for k, e in enumerate(edges)}
            h.transients = pd.DataFrame(
                [[float(x) for x in e] for e in edges],
                index=[c.ts(k + 1) for k in range(len(edges))],
                columns=['active transition', 'reactive transition'][:nc])
            return pairs(h.pair(**box['args']))
        if op == 'states':
            df = frame(a, box['nc'])
            old = df.copy()
            out = states(*find_steady_states(df, **box['kw']))
            return out if df.equals(old) else [vh.ODD]
        if op == 'chunks':
            w, k, dfs = box['nc'] + 1, 0, []
            while k < len(a):
                dfs.append(frame(a[k + 1:k + 1 + a[k] * w], box['nc']))
                k += 1 + a[k] * w

            class Source(object):
                def load(self, columns=None, **kw):
                    return iter(dfs)
            return states(*find_steady_states_transients(
                Source(), [('power', 'active')], box['kw']['noise_level'],
                box['kw']['state_threshold']))
        if op == 'predict':
            k, dfs, t = 0, [], 0
            while k < len(a):
                n = a[k]
                dfs.append(pd.DataFrame(
                    [[float(x)] for x in a[k + 1:k + 1 + n]],
                    index=pd.DatetimeIndex([c.ts(t + y) for y in range(n)]),
                    columns=[('power', 'active')]))
                t += n
                k += 1 + n
            res = box['h'].disaggregate_chunk(dfs)
            if len(res) != len(dfs):
                return [vh.ODD, len(res)]
            out = []
            for d, r in zip(dfs, res):
                if not d.index.equals(r.index) or \
                        list(r.columns) != box['h'].appliances:
                    return [vh.ODD]
                out.append(len(r))
                for name in box['h'].appliances:
                    out += [as_int(x) for x in r[name]]
            return out
        return [vh.ODD]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def rand_edges(rng, n, nc):
    sizes = [rng.choice([60, 80, 150, 400, 999, 1200, 2000]) for _ in range(3)]
    out = []
    for _ in range(n):
        s = rng.choice(sizes)
        sign = rng.choice([1, -1])
        e = [sign * s + rng.choice([0, 0, 3, -4, 30, -36])]
        if nc == 2:
            e.append(sign * rng.choice([0, 20, 100, 1500]) + rng.choice([0, 0, 5, -8]))
        out.append(e)
    return out


def rand_level(rng, n, base=(0, 40, 120, 300, 900)):
    v, level, out = 0, rng.choice(base), []
    for _ in range(n):
        if rng.random() < .3:
            level = rng.choice(base)
        out.append(level + rng.choice([0, 0, 0, 1, -1, 7, -8, 15, 16]))
    return out


def rand_case(rng):
    kind = rng.choice([1, 1, 2, 2, 3])
    if kind == 1:
        nc = rng.choice([1, 1, 2])
        ops = [dict(op='begin', a=[1, rng.choice([2, 3, 5, 20]),
                                   rng.choice([35, 100, 1]), rng.choice([35, 100, 1]),
                                   rng.choice([1000, 400, 100]), nc])]
        edges = rand_edges(rng, rng.randrange(1, 25), nc)
        ops.append(dict(op='pair', a=[x for e in edges for x in e]))
        for e in edges:
            ops.append(dict(op='add', a=e))
            if rng.random() < .7:
                ops.append(dict(op='match', a=[]))
            if rng.random() < .3:
                ops.append(dict(op='clean', a=[]))
        return ops
    if kind == 2:
        nc = rng.choice([1, 1, 2])
        ops = [dict(op='begin', a=[2, rng.choice([15, 15, 5, 50]),
                                   rng.choice([70, 70, 20, 300]), nc])]

        def rows(t, n, miss=0):
            cols = [rand_level(rng, n) for _ in range(nc)]
            out = []
            for k in range(n):
                t += rng.choice([1, 1, 1, 4])
                out.append([t] + [NAN if rng.random() < miss else x[k] for x in cols])
            return t, out
        for _ in range(3):
            _, r = rows(0, rng.randrange(1, 25))
            ops.append(dict(op='states', a=[x for y in r for x in y]))
        a, t = [], 0
        for _ in range(rng.randrange(1, 4)):
            n = rng.choice([0, 1, 5, 9])
            t, r = rows(t, n, rng.choice([0, .1, 1]))
            a += [n] + [x for y in r for x in y]
        ops.append(dict(op='chunks', a=a))
        return ops
    cs = sorted(rng.sample([50, 110, 200, 290, 600, 890], rng.choice([1, 2, 3])))
    a = [3, 15, 70, len(cs)] + cs
    a += [rng.randrange(1, len(cs) + 1) for _ in range(rng.choice([1, 2, 3]))]
    ops = [dict(op='begin', a=a)]
    for _ in range(3):
        b = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 5, 12, 20])
            b += [n] + rand_level(rng, n)
        ops.append(dict(op='predict', a=b))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, next(counter))

    behs = c.model_check(
        'MCHart', constants={'Sizes': c.n('{2, 3}', '{2, 3, 4}'),
                             'Edges': '{50, 5050, 5045, 120, 5115}',
                             'Steps': c.n(6, 8)},
        invariants=['AtMostOnce', 'RiseFirst', 'Bounded', 'Exhausted', 'InOrder',
                    'Emit'], coverage=False, expect_ops=['add', 'match', 'clean'],
        note='edges added, matched and cleaned in any order')
    c.replay('pairing', c.rng.sample(behs, min(len(behs), c.n(8000, 60000))), run)
    behs = c.model_check(
        'MCSteady', constants={'N': c.n(6, 8), 'Vals': c.n('{0, 10, 100, 200}', '{0, 10, 100, 200}')},
        invariants=['AtJump', 'Ordered', 'Sized', 'Means', 'Old', 'Quiet', 'Emit'],
        coverage=False, expect_ops=['states'], note='every short power series')
    c.replay('steady states', c.rng.sample(behs, min(len(behs), c.n(5000, 60000))),
             run, tol=1)
    cases = [rand_case(c.rng) for _ in range(c.n(400, 6000))]
    c.validate('recorded detections', 'Hart', cases, run)
