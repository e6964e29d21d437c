"""C04: chunked loading from HDF5."""
import itertools

from vh import NEGINF, POSINF


def rand_case(rng, kind, hi=60, maxrows=40):
    n = rng.choice([1, 2, 3, rng.randrange(4, maxrows)])
    ts = sorted(rng.sample(range(hi), min(n, hi)))
    tab = []
    for i, t in enumerate(ts):
        tab += [t, rng.randrange(0, 5000), rng.randrange(200, 260)]
    ops = [dict(op='begin', a=[kind] + tab)]

    def bound(inf):
        return inf if rng.random() < .3 else rng.randrange(-3, hi + 3)

    def fr():
        s, e = bound(NEGINF), bound(POSINF)
        if s != NEGINF and e != POSINF:
            if s == e:
                e += 1
            s, e = min(s, e), max(s, e)
        return s, e
    for _ in range(2):
        if rng.random() < .5:
            ops.append(dict(op='window', a=list(fr())))
        secs = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            s, e = fr()
            secs += [s, e, rng.randrange(2) if e != POSINF else 0]
        if rng.random() < .25:      # periods of equal length
            w, s = rng.randrange(1, 20), rng.randrange(-3, hi)
            secs = [y for k in range(rng.choice([1, 2, 3])) for y in (s + k * w, s + k * w + w, 0)]
        size = rng.choice([1, 2, 3, 5, 8, 13, 50, n, max(1, n - 1)])
        ops.append(dict(op='open', a=[size, rng.randrange(4), rng.randrange(4)] + secs))
        for _ in range(n // size + 2 * len(secs) + 3):
            ops.append(dict(op='next', a=[]))
        if n > 1:
            ops.append(dict(op='frame', a=[]))
    return ops


def run_check(c, kind):
    csv = int(kind == 'csv')
    from load_driver import Stores, execute
    stores = Stores(kind, c.scratch)
    counter = itertools.count()

    def run(ops):
        i = next(counter)
        return execute(ops, stores, (i // 7) % 5, i)

    behs = c.model_check(
        'MCLoad', constants={'Kind': csv, 'MaxT': c.n(4, 5), 'MaxChunk': c.n(3, 4), 'MaxSecs': 2},
        invariants=['ExactRows', 'SizeBound', 'OneBoundaryRow', 'SpansTile',
                    'SpanHoldsRows', 'NoEmptyChunk', 'NoRepeat', 'Emit'],
        expect_actions=['Begin', 'Deliver', 'Done'],
        note='every small table, window, section list and chunk size')
    k = min(len(behs), c.n(2500, 12000))
    behs = c.rng.sample(behs, k)
    behs.sort(key=lambda b: b[0]['a'])
    c.replay('load', behs, run)
    cases = [rand_case(c.rng, csv) for _ in range(c.n(250, 2500))]
    cases.append([dict(op='begin', a=[csv, 0, 1, 1, 1, 2, 2]),
                  dict(op='missing', a=[]), dict(op='missing', a=[1])])
    c.validate('recorded load', 'Load', cases, run)
    stores.drop()


def check(c):
    run_check(c, 'hdf')
