"""C28: histograms of streams of chunks."""
import itertools
import os

import numpy as np
import pandas as pd

import vh
from vh import NAN, observe, as_int


def chunks_of(a):
    out, k = [], 0
    while k < len(a):
        out.append([np.nan if v == NAN else float(v) for v in a[k + 1:k + 1 + a[k]]])
        k += 1 + a[k]
    return out


def execute(ops, scratch, i):
    from nilmtk.stats.histogram import histogram_from_generator
    box = {}

    def chunk(x, k):
        if not x and i % 3 == 0:
            return pd.DataFrame()
        if i % 5 == 4 and not np.isnan(x).any():
            return np.array(x, dtype='float64')
        return pd.Series(x, pd.date_range('2014-01-0%d' % (1 + k % 9), periods=len(x),
                                          freq='s', tz='Europe/London'), dtype='float64')

    def plot(nb, rng):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        import meter_driver as md
        from nilmtk.datastore import HDFDataStore
        from nilmtk.timeframe import TimeFrame
        path = scratch.file('.h5')
        store = HDFDataStore(path, 'w')
        base = pd.Timestamp('2014-05-01')
        times, vals, secs, t = [], [], [], 0
        for x in box['c']:
            for v in x:
                times.append(base + pd.Timedelta(seconds=t))
                vals.append([v])
                t += 1
            t += 5
            secs.append(TimeFrame(base + pd.Timedelta(seconds=t - 5 - len(x)),
                                  base + pd.Timedelta(seconds=t - 1)))
        store.put('/building1/elec/meter1',
                  md.dataframe(times, vals, [('power', 'active')]))
        m = md.meter(store, '/building1/elec/meter1',
                     md.device([('power', 'active')], 2, 1))
        m.appliances = []
        fig, ax = plt.subplots()
        try:
            kw = {} if nb is None else {'bins': nb}
            m.plot_power_histogram(ax=ax, load_kwargs={'sections': secs},
                                   range=rng, **kw)
            v = ax.collections[0].get_paths()[0].vertices
        finally:
            plt.close(fig)
            store.close()
            os.remove(path)
        n = (len(v) - 3) // 2           # out along one side and back along the other
        hist = [as_int(y) for y in v[n + 2:2 * n + 2, 1]][::-1]
        other = [as_int(y) for y in v[1:n + 1, 1]]
        if any(other) and not any(hist):
            hist = other
        return [n] + hist

    def step(op, a):
        nb, lo, hi = [None if x == 777 else x for x in a]
        rng = None if lo is None and hi is None and i % 2 else (lo, hi)
        if op == 'plot':
            return plot(nb, rng)
        # the same readings in another unit and from another origin
        unit = 1. if nb is None else (1., .25, .0625, 64.)[i % 4]
        zero = (0., 0., -4., 100., -1000.)[i % 7 % 5]

        def put(x):
            return None if x is None else x * unit + zero
        if rng is not None:
            rng = (put(lo), put(hi))
        hist, edges = histogram_from_generator(
            (chunk([put(v) for v in x], k) for k, x in enumerate(box['c'])),
            bins=nb, range=rng)
        return [len(hist)] + [as_int(x) for x in hist] + \
            [int(np.floor((x - zero) / unit * 1000 + 1e-6)) for x in edges]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            box['c'] = chunks_of(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def rand_case(rng):
    a = []
    top = rng.choice([8, 40, 300])
    for _ in range(rng.randrange(1, 6)):
        x = [NAN if rng.random() < .1 else rng.randrange(0, top)
             for _ in range(rng.choice([0, 1, 3, 8, 20]))]
        a += [len(x)] + x
    ops = [dict(op='begin', a=a)]
    for _ in range(3):
        lo = rng.choice([777, 0, rng.randrange(0, top)])
        hi = 777
        nb = rng.choice([777, 1, 2, 4, 8])
        if lo != 777 and rng.random() < .6:
            n = rng.choice([1, 2, 3, 5, 7])
            hi = lo + n * rng.choice([1, 2, 5, 10])
            nb = rng.choice([777, n, 1, 2, 4])
        ops.append(dict(op='hist', a=[nb, lo, hi]))
    if any(v != NAN for v in a) and rng.random() < .3 and sum(
            1 for x in chunks_of(a) for v in x if v == v) > 1:
        ops.append(dict(op='plot', a=[rng.choice([1, 2, 4]), rng.choice([777, 0, 4]), rng.choice([777, 44])]))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCHistogram', constants={'Vals': '{777, 0, 2, 3, 5}', 'MaxLen': 2, 'MaxChunk': 2},
        invariants=['ChunkingIrrelevant', 'EveryReadingOnce', 'Emit'],
        coverage=False, expect_ops=['hist'],
        note='every pair of small chunks, range and number of bins')
    c.replay('histograms', c.rng.sample(behs, min(len(behs), c.n(3000, 30000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(300, 5000))]
    c.validate('recorded histograms', 'Histogram', cases, run)
