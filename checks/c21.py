"""C21: mean model."""
import itertools
import os
import shutil

import numpy as np
import pandas as pd

import vh
from vh import NAN, observe


def execute(ops, scratch, i):
    from resample_driver import RClock
    from nilmtk.disaggregate import Mean
    c = RClock(i)
    folder = scratch.dir()
    box = {'m': Mean({}), 't': 0}

    def path(k):
        return os.path.join(folder, 'x', 's%d' % k) if k else None

    def frame(vals):
        t0 = box['t']
        box['t'] += len(vals)
        return pd.DataFrame(
            [[np.nan if x == NAN else x / 4.] for x in vals],
            index=pd.DatetimeIndex([c.ts(t0 + k) for k in range(len(vals))]),
            columns=pd.MultiIndex.from_tuples([('power', 'active')])
            if i % 2 else ['power'])

    def step(op, a):
        if op == 'fit':
            k, apps, mains = 0, [], []
            while k < len(a):
                vals = a[k + 2:k + 2 + a[k + 1]]
                cut = max(1, len(vals) // (1 + i % 3))
                apps.append(('app%d' % a[k], [
                    frame(vals[x:x + cut]) for x in range(0, len(vals), cut)]))
                mains = [frame([100] * len(vals))]
                k += 2 + a[k + 1]
            old = [[d.copy() for d in ds] for _, ds in apps]
            box['m'].partial_fit(mains, apps)
            if not all(d.equals(o) for (_, ds), os_ in zip(apps, old)
                       for d, o in zip(ds, os_)):
                return [vh.ODD]
            return [0]
        if op == 'predict':
            dfs = [frame([400] * n) for n in a]
            res = box['m'].disaggregate_chunk(dfs)
            if len(res) != len(dfs):
                return [vh.ODD]
            out = []
            for d, r in zip(dfs, res):
                if not (r.index.equals(d.index) or (len(d) == len(r) == 0)):
                    return [vh.ODD]
                out += [len(r), len(r.columns)]
                for name in r.columns:
                    out.append(int(name[3:]))
                    if len(r):
                        v = r[name].values
                        out.append(int(np.floor(v[0] * 1000 + 1e-6))
                                   if (v == v[0]).all() else vh.ODD)
            return out
        if op == 'save':
            box['m'].save_model(path(a[0]))
            return [0]
        if op == 'load':
            box['m'].load_model(path(a[0]))
            return [0]
        if op == 'new':
            box['m'] = Mean({'pretrained-model-path': path(a[0]),
                             'save-model-path': path(a[1])})
            return [0]
        return [vh.ODD]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    shutil.rmtree(folder)
    return out


def rand_case(rng):
    ops = [dict(op='begin', a=[])]
    ids = rng.sample(range(1, 6), 3)
    for _ in range(rng.randrange(2, 12)):
        op = rng.choice(['fit', 'fit', 'fit', 'predict', 'save', 'load', 'new'])
        if op == 'fit':
            a = []
            for k in rng.sample(ids, rng.choice([1, 1, 2, 3])):
                vals = [NAN if rng.random() < .15 else rng.randrange(0, 4000)
                        for _ in range(rng.choice([1, 2, 5, 30]))]
                a += [k, len(vals)] + vals
        elif op == 'predict':
            a = [rng.choice([0, 1, 4]) for _ in range(rng.choice([1, 2]))]
        elif op == 'new':
            a = [rng.choice([0, 0, 1, 2]), rng.choice([0, 1, 2])]
        else:
            a = [rng.choice([1, 2])]
        ops.append(dict(op=op, a=a))
    ops.append(dict(op='predict', a=[2]))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCMeanModel', constants={'Steps': c.n(4, 6)},
        invariants=['Exact', 'Known', 'Emit'],
        coverage=False, expect_ops=['fit', 'predict', 'save', 'load', 'new'],
        note='all histories of training, saving and loading')
    c.replay('mean model', c.rng.sample(behs, min(len(behs), c.n(3000, 40000))),
             run, tol=1)
    cases = [rand_case(c.rng) for _ in range(c.n(300, 5000))]
    c.validate('recorded mean models', 'MeanModel', cases, run)
