"""C12: requirements of nodes, clipping, pass-through."""
import itertools

import pandas as pd

import vh
from vh import NAN, NEGINF, POSINF, observe, as_int

NOLIMIT = -999999
PQ = {1: 'power', 4: 'voltage'}
AC = {0: '', 1: 'active', 2: 'apparent', 3: 'reactive'}
KEYS = ['statistics', 'preprocessing_applied', 'sample_period']
SUBS = ['good_sections', 'clip']


# unequal values, so that it does not matter which of them stand for the numbers of the specification
VALUES = [None, 0, 1, 'x', '', 'ANY', 2.5, -1, (1,)]


def leaf(v, shift):
    return 'ANY VALUE' if v == 9 else VALUES[(v + shift) % 9]


def tree(a, shift):
    out = {}
    for k in range(len(a) // 3):
        tag, x, y = a[3 * k:3 * k + 3]
        if tag == 1:
            out[KEYS[k]] = leaf(x, shift)
        elif tag == 2:
            out[KEYS[k]] = {s: leaf(v, shift) for s, v in zip(SUBS, (x, y)) if v != -1}
    return out


class Source(object):
    """What a meter offers to a pipeline."""

    def __init__(self, metadata, chunks):
        self.metadata, self.chunks, self.given = metadata, chunks, 0

    def dry_run_metadata(self):
        return self.metadata

    def get_metadata(self):
        return self.metadata

    def process(self):
        for x in self.chunks:
            self.given += 1
            yield x


def execute(ops, clock_i):
    from tf_driver import Clock
    from nilmtk.node import (Node, find_unsatisfied_requirements,
                             UnsatisfiedRequirementsError)
    from nilmtk.timeframe import TimeFrame
    from nilmtk.preprocessing import Clip, Apply
    from nilmtk.stats import TotalEnergy, GoodSections, DropoutRate
    c = Clock(clock_i)

    def frame(times, rows, cols):
        df = pd.DataFrame(rows, index=pd.DatetimeIndex([c.ts(t) for t in times]),
                          dtype='float64')
        df.columns = pd.MultiIndex.from_tuples(
            cols, names=['physical_quantity', 'type'])
        return df

    def unsat(a):
        k = a[0]
        st, req = tree(a[1:1 + 3 * k], sum(a)), tree(a[1 + 3 * k:], sum(a))
        for _ in range(len(a) % 3 if sum(a) % 2 else 0):
            st, req = {'device': st}, {'device': req}
        return [len(find_unsatisfied_requirements(st, req))]

    def chain(a):
        k, nchunks, n = a[:3]
        parts = [tree(a[3 + 3 * k * i:3 + 3 * k * (i + 1)], sum(a))
                 for i in range(1 + 2 * n)]
        chunks = [frame([i], [[1.]], [('power', 'active')]) for i in range(nchunks)]
        src = node = Source(parts[0], chunks)
        for j in range(n):
            class Custom(Node):
                requirements = parts[1 + 2 * j]
                postconditions = parts[2 + 2 * j]

                def process(self):
                    self.check_requirements()
                    for x in self.upstream.process():
                        yield x
            node = Custom(node)
        got = []
        try:
            for x in node.process():
                got.append(x)
        except UnsatisfiedRequirementsError:
            return [0, len(got) + src.given]
        if [id(x) for x in got] != [id(x) for x in chunks]:
            return [vh.ODD]
        return [1, len(got)]

    def clip(a):
        n, m = a[:2]
        cols, ms = [], []
        for k in range(n):
            code, lo, hi = a[4 + 3 * k:7 + 3 * k]
            col = (PQ[code // 10], AC[code % 10])
            cols.append(col)
            d = {'physical_quantity': col[0]}
            if col[1]:
                d['type'] = col[1]
            if lo != NOLIMIT:
                d['lower_limit'] = lo
            if hi != NOLIMIT:
                d['upper_limit'] = hi
            ms.append(d)
        off = 4 + 3 * n
        rows = [[float('nan') if v == NAN else float(v)
                 for v in a[off + n * i:off + n * (i + 1)]] for i in range(m)]
        chunks = [frame(range(m), rows, cols)]
        if m > 2:
            chunks = [chunks[0].iloc[:1].copy(), chunks[0].iloc[1:].copy()]
        src = Source({'device': {'measurements': ms[::-1]}}, chunks)
        node = Clip(src)
        if a[2] != NOLIMIT:
            node.lower = a[2]
        if a[3] != NOLIMIT:
            node.upper = a[3]
        return [as_int(v) for x in node.process() for r in x.values for v in r]

    def through(a):
        n = a[0]
        chunks = []
        for i in range(1 + n, len(a), 5):
            s, e, la, v, w = a[i:i + 5]
            df = frame([s, s + 1], [[float(v)], [float(w)]], [('power', 'active')])
            df.timeframe = TimeFrame(c.ts(s), c.ts(e))
            df.look_ahead = frame([e + j for j in range(la)], [[1.]] * la,
                                  [('power', 'active')]) if la else pd.DataFrame()
            chunks.append(df)
        src = node = Source(
            {'device': {'measurements': [
                {'physical_quantity': 'power', 'type': 'active',
                 'lower_limit': 0, 'upper_limit': 100}],
                'max_sample_period': 2 * c.unit, 'sample_period': c.unit}},
            chunks)
        for code in a[1:1 + n]:
            if code == 2:
                node = Apply(node, func=lambda x: x * 2)
            else:
                node = {1: Clip, 3: TotalEnergy, 4: GoodSections,
                        5: DropoutRate}[code](node)
        out = []
        for x in node.process():
            out += [c.back(x.timeframe.start, NEGINF), c.back(x.timeframe.end, POSINF),
                    len(x.look_ahead)] + [as_int(v) for v in x.values[:, 0]]
            if list(x.columns) != [('power', 'active')]:
                out.append(vh.ODD)
        return out

    def std(a):
        dev = {}
        if a[1]:
            dev['measurements'] = [{'physical_quantity': 'power', 'type': 'active'}]
        if a[2]:
            dev['max_sample_period'] = c.unit
        if a[3]:
            dev['sample_period'] = c.unit
        meta = {'device': dev}
        if a[4]:
            meta['preprocessing_applied'] = {'clip': {}}
        df = frame([0, 1], [[1.], [2.]], [('power', 'active')])
        df.timeframe = TimeFrame(c.ts(0), c.ts(1))
        src = Source(meta, [df])
        node = (Apply(src, func=lambda x: x * 1) if a[0] == 2 else
                {1: Clip, 3: TotalEnergy, 4: GoodSections, 5: DropoutRate}[a[0]](src))
        try:
            return [1, len(list(node.process()))]
        except UnsatisfiedRequirementsError:
            return [0, src.given]

    fn = {'std': std, 'unsat': unsat, 'chain': chain, 'clip': clip, 'pass': through}
    out = []
    for o in ops:
        if o['op'] == 'begin':
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: fn[o['op']](o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def rand_case(rng):
    def sub(vals):
        return rng.choice([-1] + vals)

    def key(vals):
        k = rng.random()
        if k < .3:
            return [0, 0, 0]
        if k < .6:
            return [1, rng.choice(vals), 0]
        return [2, sub(vals), sub(vals)]

    def tr(k, vals):
        return [x for _ in range(k) for x in key(vals)]

    def lim(x):
        return rng.choice([NOLIMIT, x])
    ops = [dict(op='begin', a=[])]
    for _ in range(6):
        k = rng.randrange(1, 4)
        ops.append(dict(op='unsat', a=[k] + tr(k, [0, 1, 2]) + tr(k, [0, 1, 2, 9])))
        n = rng.randrange(1, 4)
        a = [k, rng.randrange(0, 4), n] + tr(k, [0, 1])
        for _ in range(n):
            if rng.random() < .6:
                a += [0, 0, 0] * k
            else:
                a += tr(k, [0, 1, 9])
            a += tr(k, [0, 1]) if rng.random() < .5 else [0, 0, 0] * k
        ops.append(dict(op='chain', a=a))
        cols = rng.sample([11, 12, 13, 40], rng.randrange(1, 4))
        m = rng.randrange(1, 6)
        own = [[NOLIMIT, NOLIMIT], [3, 700], [0, 700], [-30, 0], [NOLIMIT, 700], [0, NOLIMIT]]
        a = [len(cols), m] + rng.choice(own[:1] * 2 + own)
        for x in cols:
            a += [x, lim(rng.randrange(-5, 100)), lim(rng.randrange(100, 400))]
        a += [NAN if rng.random() < .15 else rng.randrange(-50, 500)
              for _ in range(m * len(cols))]
        ops.append(dict(op='clip', a=a))
        nodes = [rng.randrange(1, 6) for _ in range(rng.randrange(0, 5))]
        a = [len(nodes)] + nodes
        t = 0
        for _ in range(rng.randrange(0, 5)):
            e = t + rng.randrange(2, 9)
            a += [t, e, rng.randrange(0, 3), rng.randrange(-9, 200), rng.randrange(-9, 200)]
            t = e
        ops.append(dict(op='pass', a=a))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, next(counter) % 5)

    behs = c.model_check(
        'MCPipeline', constants={'Vals': '{0, 1}', 'CVals': '{0, 5, 9, 777}',
                                 'Limits': '{2, 6, 777}'},
        invariants=['ClipSound', 'Monotone', 'Emit'],
        expect_ops=['std', 'unsat', 'chain', 'clip', 'pass'], coverage=False,
        note='all small requirement trees, chains of two nodes, limits, node chains')
    if not c.thorough:
        by = {}
        for b in behs:
            by.setdefault(b[1]['op'], []).append(b)
        behs = [b for op in sorted(by)
                for b in c.rng.sample(by[op], min(len(by[op]), 1200))]
    c.replay('pipeline', behs, run)
    cases = [rand_case(c.rng) for _ in range(c.n(150, 2000))]
    c.validate('recorded pipelines', 'Pipeline', cases, run)
