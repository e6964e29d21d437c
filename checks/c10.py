"""C10: cached statistics are indistinguishable from freshly computed ones."""
import itertools
import os

import vh
from vh import NEGINF, POSINF, observe, as_int
from c09 import rate

COLS = [('power', 'active'), ('power', 'reactive')]
AC = {1: 'active', 3: 'reactive'}


def execute(ops, scratch, clock_i):
    import meter_driver as md
    from tf_driver import Clock
    from nilmtk.timeframe import TimeFrame
    from nilmtk.datastore import HDFDataStore, TmpDataStore
    c = Clock(clock_i)
    kwh = c.unit / 3.6e6
    box = {'stores': {}}

    def begin(a):
        box['cache'] = TmpDataStore()
        dev = md.device(COLS, a[0] * c.unit, a[1] * c.unit)
        box['meters'] = []
        i = 3
        for _ in range(a[2]):
            b, inst, d, n = a[i:i + 4]
            rows = a[i + 4:i + 4 + 3 * n]
            i += 4 + 3 * n
            if d not in box['stores']:
                box['stores'][d] = HDFDataStore(scratch.file('.h5'), 'w')
            s = box['stores'][d]
            key = '/building%d/elec/meter%d' % (b, inst)
            s.put(key, md.dataframe([c.ts(t) for t in rows[::3]],
                                    [[x, y] for x, y in zip(rows[1::3], rows[2::3])],
                                    COLS))
            box['meters'].append((s, key, dev, divmod(inst, 100) if inst > 100 else inst, b, 'set%d' % d))

    def step(op, a):
        if op == 'window':
            def opt(t):
                return None if t in (NEGINF, POSINF) else c.ts(t)
            if a[0] in box['stores']:
                box['stores'][a[0]].window = TimeFrame(opt(a[1]), opt(a[2]))
            return []
        m = md.meter(*box['meters'][a[0] - 1], cache=box['cache'])
        if op == 'clear':
            m.clear_cache()
            return []
        kw = {}
        if a[1] < 5000:
            kw['chunksize'] = a[1]
        secs = a[2:] if op == 'good' else a[3:]
        if secs:
            kw['sections'] = md.frames(secs, c)
        if op == 'energy':
            if a[2]:
                kw['ac_type'] = AC[a[2]]
            res = m.total_energy(**kw)
            out = []
            for code in (1, 3):
                if AC[code] in res.index:
                    out += [code, as_int(res[AC[code]], 1 / kwh)]
            if len(res) * 2 != len(out):
                out.append(vh.ODD)
            return out
        if op == 'good':
            g = m.good_sections(**kw)
            out = [len(g)]
            for t in g:
                out += [c.back(t.start, NEGINF), c.back(t.end, POSINF)]
            return out
        return rate(m.dropout_rate(ignore_gaps=bool(a[2]), **kw))

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    for s in box['stores'].values():
        f = s.store.filename
        s.close()
        os.remove(f)
    box['cache'].close()
    return out


def rand_meter(rng, b, i, d, maxp):
    n = rng.randrange(6, 16)
    t = rng.randrange(0, 3)
    rows = []
    for _ in range(n):
        rows += [t, rng.randrange(1, 90), rng.randrange(1, 90)]
        t += rng.choice([1, 1, 1, 2, maxp, maxp + 1, 6])
    return [b, i, d, n] + rows, t


def rand_case(rng, length):
    maxp = rng.randrange(1, 4)
    ids = rng.choice([[(1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 1, 2)], [(1, 1, 1), (1, 11, 1), (11, 1, 1)],
                      [(1, 12, 1), (1, 102, 1), (1, 1, 1)], [(1, 112, 1), (1, 1102, 1), (1, 12, 1)]])
    ids = rng.sample(ids, rng.choice([1, 2, 2, 3]))
    a = [maxp, 1, len(ids)]
    last = 0
    for k in ids:
        part, t = rand_meter(rng, *k, maxp)
        a += part
        last = max(last, t)
    secpool = [[]]
    for _ in range(3):
        pts = sorted(rng.sample(range(-1, last + 2), rng.choice([2, 3, 4, 6])))
        s = []
        if len(pts) == 3:      # touching
            s = [pts[0], pts[1], 0, pts[1], pts[2], rng.randrange(2)]
        else:
            for i in range(0, len(pts), 2):
                s += [pts[i], pts[i + 1], rng.randrange(2)]
        secpool.append(s)
        if len(s) > 3:
            secpool.append(s[:3])     # part of a longer request
        if s[1] > s[0] + 1:
            mid = rng.randrange(s[0] + 1, s[1])
            secpool.append(rng.choice([[s[0], mid, 0], [mid, s[1], s[2]]]))
    ops = [dict(op='begin', a=a)]
    while len(ops) < length:
        m = rng.randrange(len(ids)) + 1
        k = rng.random()
        secs = rng.choice(secpool)
        size = rng.choice([10000, 10000, 3, 6])
        if k < .12:
            s = rng.choice([NEGINF, rng.randrange(0, last)])
            e = rng.choice([POSINF, rng.randrange(0, last + 3)])
            if s < e:
                ops.append(dict(op='window', a=[ids[m - 1][2], s, e]))
        elif k < .18:
            ops.append(dict(op='clear', a=[m]))
        elif k < .55:
            ops.append(dict(op='energy', a=[m, size, rng.choice([0, 0, 1, 3])] + secs))
        elif k < .8:
            ops.append(dict(op='good', a=[m, size] + secs))
        else:
            ops.append(dict(op='dropout', a=[m, size, rng.randrange(2)] + secs))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter) % 5)

    behs = c.model_check(
        'MCStatsCache', coverage=False,
        constants={'MaxLen': 2, 'Meters': '{1, 2, 3}', 'NSec': 9},
        invariants=['Invisible', 'Honest', 'Emit'],
        expect_ops=['energy', 'good', 'dropout', 'window', 'clear'],
        note='every history of 2 requests to three meters')
    if c.thorough:
        behs += c.model_check(
            'MCStatsCache', coverage=False,
            constants={'MaxLen': 3, 'Meters': '{1, 3}', 'NSec': 4},
            invariants=['Invisible', 'Honest', 'Emit'],
            note='every history of 3 requests to two meters')
    c.replay('statistics through the cache',
             c.rng.sample(behs, min(len(behs), c.n(900, 8000))), run, tol=1)
    cases = [rand_case(c.rng, 10) for _ in range(c.n(300, 3000))]
    c.validate('recorded statistics', 'StatsCache', cases, run)
