"""C02: union, merge and split of time frames neither lose nor invent time."""
import itertools

from vh import NEGINF, POSINF


def sorted_frames(rng, n, hi):
    pts = sorted(rng.sample(range(hi), min(2 * n, hi)))
    a, t = [], 0
    out = []
    i = 0
    while len(out) < 2 * n and i + 1 < len(pts):
        s, e = pts[i], pts[i + 1]
        # sometimes make frames touch
        if out and rng.random() < .3:
            s = out[-1]
        if s < e:
            out += [s, e]
        i += 2
    return out


def check(c):
    from tf_driver import Clock, execute
    counter = itertools.count()

    def run(ops):
        return execute(ops, Clock(next(counter)))

    behs = c.model_check(
        'MCFrameLists',
        constants={'MaxT': c.n(5, 7), 'MaxFrames': 3, 'MaxGap': 2,
                   'Ops': '{"single", "lists"}'},
        invariants=['LawMerge', 'LawSplit', 'Emit'],
        expect_actions=['Union', 'OpenUnion', 'Adj', 'Split', 'MergeL',
                        'SplitL'],
        note='every sorted list of up to 3 disjoint frames')
    c.replay('frame lists', behs, run)
    rng = c.rng
    cases = []
    for _ in range(c.n(800, 8000)):
        ops = [dict(op='begin', a=[])]
        for _ in range(4):
            o = rng.choice(['merge', 'split_all', 'split', 'adjacent', 'union'])
            l = sorted_frames(rng, rng.randrange(0, 8), 60)
            if o == 'merge':
                ops.append(dict(op=o, a=[rng.randrange(0, 5)] + l))
            elif o == 'split_all':
                ops.append(dict(op=o, a=[rng.randrange(1, 20)] + l))
            else:
                s = rng.randrange(30)
                ops.append(dict(op='new', a=[s, s + rng.randrange(1, 30)]))
                s = rng.randrange(30)
                b = [s, s + rng.randrange(1, 30), 0, 0]
                if o == 'split':
                    ops.append(dict(op=o, a=[rng.randrange(1, 12)]))
                elif o == 'adjacent':
                    ops.append(dict(op=o, a=b + [rng.randrange(0, 6)]))
                else:
                    ops.append(dict(op=o, a=b))
        cases.append(ops)
    c.validate('recorded frame lists', 'TimeFrames', cases, run)
