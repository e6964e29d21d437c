"""C13: column selection."""
import itertools
import os

import vh
from vh import observe

PQ = {1: 'power', 2: 'energy', 3: 'cumulative energy', 4: 'voltage',
      5: 'current', 8: 'colour'}
AC = {0: '', 1: 'active', 2: 'apparent', 3: 'reactive', 8: 'purple', 9: 'best'}
INV = {v: k for k, v in PQ.items()}
INVAC = {v: k for k, v in AC.items()}
STORES = {}


def store_for(cols, scratch):
    import meter_driver as md
    from tf_driver import Clock
    from nilmtk.datastore import HDFDataStore
    key = (os.getpid(), tuple(cols))
    if key not in STORES:
        c = Clock(1)
        names = [(PQ[x // 10], AC[x % 10]) for x in cols]
        path = scratch.file('.h5')
        s = HDFDataStore(path, 'w')
        s.put('/building1/elec/meter1', md.dataframe(
            [c.ts(0), c.ts(1)], [[float(x) for x in cols]] * 2, names))
        STORES[key] = (s, md.device(names, 6, 3))
    return STORES[key]


def execute(ops, scratch, i):
    import meter_driver as md
    from nilmtk.measurement import select_best_ac_type
    box = {}

    def one_or_many(xs, names):
        xs = [names[x] for x in xs]
        if not xs:
            return None
        return xs[0] if len(xs) == 1 and (i % 2 or xs[0] == 'best') else xs

    def load(m, kw):
        kw = {k: v for k, v in kw.items() if v is not None}
        out = None
        for df in m.load(**kw):
            codes = sorted(INV[p] * 10 + INVAC[a] for p, a in df.columns)
            for p, a in df.columns:       # values belong to their column
                if not (df[(p, a)] == INV[p] * 10 + INVAC[a]).all():
                    return [vh.ODD]
            if len(df) != 2 or (out is not None and out != codes):
                return [vh.ODD, len(df)]
            out = codes
        return out

    def step(op, a):
        if op == 'best':
            avail = [AC[x] for x in a[1:1 + a[0]]]
            mains = [AC[x] for x in a[1 + a[0]:]]
            if i % 2:
                avail.reverse()
                mains.reverse()
            r = (select_best_ac_type(avail, mains) if mains
                 else select_best_ac_type(avail))
            return [INVAC[r]]
        s, dev = store_for(box['cols'], scratch)
        m = md.meter(s, '/building1/elec/meter1', dev)
        if op == 'load':
            return load(m, {'physical_quantity': one_or_many(a[1:1 + a[0]], PQ),
                            'ac_type': one_or_many(a[1 + a[0]:], AC)})
        if op == 'columns':
            return load(m, {'columns': [(PQ[x // 10], AC[x % 10]) for x in a[2:]],
                            'physical_quantity': PQ[a[0]] if a[0] else None,
                            'ac_type': AC[a[1]] if a[1] else None})
        if op == 'actypes':
            return sorted(INVAC[x] for x in
                          set(m.available_ac_types(one_or_many(a, PQ))))
        if op == 'quantities':
            return sorted(INV[x] for x in m.available_physical_quantities())
        return sorted(INV[p] * 10 + INVAC[x] for p, x in m.available_columns())

    out = []
    for o in ops:
        if o['op'] == 'begin':
            box['cols'] = o['a']
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def rand_case(rng):
    uni = [11, 12, 13, 21, 22, 23, 31, 32, 33, 40, 50, 51, 52]
    cols = sorted(rng.sample(uni, rng.randrange(1, 9)))
    if {50, 51, 52} & set(cols) == {50, 51}:
        cols.remove(50)
    ops = [dict(op='begin', a=cols)]
    for _ in range(4):
        q = rng.sample([1, 2, 3, 4, 5], rng.randrange(0, 4))
        x = rng.choice([[], [9], rng.sample([1, 2, 3], rng.randrange(1, 4))])
        ops.append(dict(op='load', a=[len(q)] + q + x))
        cs = rng.sample(cols if rng.random() < .7 else uni,
                        min(len(cols), rng.randrange(1, 4)))
        k = rng.random() < .15
        ops.append(dict(op='columns', a=[rng.choice([0, 1]) if k else 0,
                                         rng.choice([1, 9]) if k else 0] + cs))
        ops.append(dict(op='actypes', a=rng.sample([1, 2, 3, 4, 5], rng.randrange(1, 3))))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCColumns', constants={'Universe': '{11, 12, 13, 21, 23, 40}'},
        invariants=['NeverSomethingElse', 'OneBestPerQuantity', 'Emit'],
        expect_ops=['load', 'columns', 'actypes', 'quantities', 'available', 'best'],
        coverage=False, note='every set of recorded columns, every request')
    behs.sort(key=lambda b: (b[0]['a'], b[1]['op'], b[1]['a']))
    if not c.thorough:
        behs = [b for b in behs if c.rng.random() < .3]
    c.replay('column selection', behs, run)
    cases = [rand_case(c.rng) for _ in range(c.n(100, 1000))]
    c.validate('recorded selections', 'Columns', cases, run)
