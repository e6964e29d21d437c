"""C20: factorial hidden Markov models."""
import itertools
from collections import OrderedDict

import numpy as np
import pandas as pd

import vh
from vh import observe, as_int

D = 4


def execute(ops, i):
    from hmmlearn import hmm
    from resample_driver import RClock
    from nilmtk.disaggregate import FHMMExact
    from nilmtk.disaggregate import fhmm_exact as fx
    c = RClock(i)
    box = {}

    def begin(a):
        k, box['chains'] = 0, []
        while k < len(a):
            n = a[k]
            m = a[k + 1:k + 1 + n]
            p = a[k + 1 + n:k + 1 + 2 * n]
            t = a[k + 1 + 2 * n:k + 1 + 2 * n + n * n]
            box['chains'].append((m, p, [t[j * n:(j + 1) * n] for j in range(n)]))
            k += 1 + 2 * n + n * n
        box['d'] = float(D ** len(box['chains']))

    def names():
        # the order of the appliances is the order of training, not of their names
        return ['app%d' % (9 - k) for k in range(len(box['chains']))]

    def individual():
        out = OrderedDict()
        for name, (m, p, t) in zip(names(), box['chains']):
            h = hmm.GaussianHMM(len(m), 'full')
            h.startprob_ = np.array(p, dtype=float) / D
            h.transmat_ = np.array(t, dtype=float) / D
            h.n_features = 1
            h.means_ = np.array(m, dtype=float).reshape(-1, 1)
            h.covars_ = np.tile(5 * np.identity(1), (len(m), 1, 1))
            out[name] = h
        return out

    def frame(vals, t=0):
        return pd.DataFrame(
            [[float(x)] for x in vals], columns=[('power', 'active')],
            index=pd.DatetimeIndex([c.ts(t + k) for k in range(len(vals))]))

    def step(op, a):
        if op in ('means', 'start', 'trans'):
            j = fx.create_combined_hmm(individual())
            if op == 'means':
                return [as_int(x) for x in j.means_.flatten()]
            if op == 'start':
                return [as_int(x, box['d']) for x in j.startprob_]
            return [as_int(x, box['d']) for x in np.asarray(j.transmat_).flatten()]
        if op == 'decode':
            cent = OrderedDict((n, ch[0]) for n, ch in zip(names(), box['chains']))
            s, p = fx.decode_hmm(len(a), cent, list(cent), np.array(a))
            return [as_int(x) for n in cent for y in (s[n], p[n]) for x in y]
        if op == 'sort':
            m, p, t = box['chains'][0]
            p2, m2, v2, t2 = fx.sort_learnt_parameters(
                np.array(p) / float(D), np.array(m, dtype=float).reshape(-1, 1),
                np.array(a, dtype=float).reshape(-1, 1, 1), np.array(t) / float(D))
            return ([as_int(x) for x in np.array(m2).flatten()] +
                    [as_int(x, D) for y in (p2, t2) for x in np.array(y).flatten()] +
                    [as_int(x) for x in np.array(v2).flatten()])
        if op == 'predict':
            f = FHMMExact({})
            f.individual = individual()
            f.app_names = names()
            f.model = fx.create_combined_hmm(f.individual)
            k, dfs, t = 0, [], 0
            while k < len(a):
                dfs.append(frame(a[k + 1:k + 1 + a[k]], t))
                t += a[k]
                k += 1 + a[k]
            res = f.disaggregate_chunk(dfs)
            if len(res) != len(dfs):
                return [vh.ODD]
            out = []
            for r in res:
                if list(r.columns) != names():
                    return [vh.ODD]
                out.append(len(r))
                out += [as_int(x) for row in r.values for x in row]
            return out
        if op == 'learnt':
            n, k = a[0], a[1]
            rows = a[2:]
            apps = []
            for j in range(k):
                v = rows[j * n:(j + 1) * n]
                cut = n // (1 + i % 3) or n
                apps.append(('app%d' % (9 - j),
                             [frame(v[x:x + cut], x) for x in range(0, n, cut)]))
            mains = [frame([sum(rows[j * n + x] for j in range(k)) for x in range(n)])]
            np.random.seed(i)
            f = FHMMExact({})
            f.partial_fit(mains, apps)
            if list(f.individual) != [x[0] for x in apps]:
                return [vh.ODD]
            out = [k]
            for h in f.individual.values():
                out.append(len(h.startprob_))
                for x in (h.means_, h.startprob_, h.transmat_):
                    out += milli(x)
            for x in (f.model.means_, f.model.startprob_, f.model.transmat_):
                out += milli(x)
            return out
        return [vh.ODD]

    def milli(x):
        return [int(round(y * 1000)) for y in np.asarray(x).flatten()]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def parts(rng, n):
    cut = sorted(rng.randrange(0, D + 1) for _ in range(n - 1))
    return [b - a for a, b in zip([0] + cut, cut + [D])]


def rand_case(rng):
    a = []
    kind = rng.choice(['free', 'free', 'uniform', 'learn'])
    apps = rng.choice([1, 2, 3])
    for _ in range(apps):
        n = rng.choice([2, 4, 1]) if kind == 'uniform' else rng.choice([1, 2, 3, 4])
        if apps == 3:
            n = min(n, 3 if kind == 'free' else 2)
        m = [rng.randrange(0, 40) * rng.choice([1, 10]) for _ in range(n)]
        if kind == 'uniform':
            m = sorted(m)
            a += [n] + m + [D // n] * (n + n * n)
        else:
            a += [n] + m + parts(rng, n)
            for _ in range(n):
                a += parts(rng, n)
    ops = [dict(op='begin', a=a)]
    n1 = a[0]
    if kind == 'uniform':
        b = []
        for _ in range(rng.choice([1, 2])):
            n = rng.choice([0, 1, 5, 9])
            b += [n] + [rng.randrange(0, 600) for _ in range(n)]
        ops.append(dict(op='predict', a=b))
    elif kind == 'learn':
        n, k = 30, rng.choice([1, 2, 3])
        rows = []
        for _ in range(k):
            lv = rng.sample(range(0, 300, 10), 2)
            st = 0
            for _ in range(n):
                if rng.random() < .3:
                    st = 1 - st
                rows.append(lv[st] + rng.choice([0, 0, 1, -1]))
        ops.append(dict(op='learnt', a=[n, k] + rows))
    else:
        total, k = 1, 0
        while k < len(a):
            total *= a[k]
            k += 1 + 2 * a[k] + a[k] ** 2
        ops.append(dict(op='means', a=[]))
        ops.append(dict(op='start', a=[]))
        ops.append(dict(op='trans', a=[]))
        ops.append(dict(op='decode', a=[rng.randrange(total) for _ in range(rng.choice([1, 5, 12]))]))
        ops.append(dict(op='sort', a=[rng.randrange(1, 9) for _ in range(n1)]))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, next(counter))

    behs = c.model_check(
        'MCFhmm', constants={'MaxApps': 3, 'MaxStates': 3, 'Heavy': c.n(12, 27)},
        invariants=['RoundTrip', 'Unique', 'StartSums', 'TransSums', 'Kron', 'Emit'],
        coverage=False, expect_ops=['decode'],
        note='all sizes of joint models')
    c.replay('joint models', behs, run)
    cases = [rand_case(c.rng) for _ in range(c.n(250, 4000))]
    c.validate('recorded models', 'Fhmm', cases, run)
