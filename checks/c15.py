"""C15: looking up and selecting meters."""
import itertools

import group_driver as gd

MF = [1, 2, 3, 4, 4, 5, 6, 9]
AF = [1, 2, 3, 4, 7, 7, 8, 8]


def rand_op(rng, blds):
    g = rng.choice([0] + list(range(1, len(blds) + 1)) * 2)
    b, d, insts, nest, _ = blds[(g or rng.randrange(1, len(blds) + 1)) - 1]
    op = rng.choice(['members', 'disabled', 'mains', 'submeters', 'int', 'int',
                     'id', 'id', 'ids', 'app', 'app', 'dict', 'dict', 'pair',
                     'select', 'select', 'selectapp', 'selectapp', 'selectany', 'groupby',
                     'selectappany', 'selectappany', 'union', 'equal', 'equal',
                     'fromlist', 'periods', 'buildings', 'altmains', 'reload'])
    inst = rng.choice(insts + [99]) if rng.random() < .9 else 1
    if op in ('disabled', 'altmains', 'reload'):
        return dict(op=op, a=[g or 1])
    if op == 'buildings':
        return dict(op=op, a=[d])
    a = [g]
    if op == 'int':
        a.append(inst)
    elif op == 'id':
        a += [rng.choice([inst, inst, 0]), rng.choice([b, b, b, 1, 2]),
              rng.choice([d, d, d, 1, 2])]
    elif op == 'ids':
        ids = list(rng.choice(nest)) if nest and rng.random() < .8 \
            else rng.sample(range(1, 12), 2)
        if rng.random() < .2:
            ids = ids[:-1] + [rng.choice(insts)]
        ids = list(dict.fromkeys(ids))
        rng.shuffle(ids)
        a.append(rng.choice([1, 2, 3]))
        for i in ids:
            a += [i, b, d]
    elif op == 'app':
        a += [rng.choice([1, 1, 2, 3, 3, 4, 5, 9, 101]), rng.choice([1, 1, 2])]
    elif op == 'dict':
        a += rand_crit2(rng, [7, 1, 2, 3, 4, 8])
    elif op == 'pair':
        if len(insts) < 2:
            return dict(op='mains', a=a)
        a += rng.sample(insts, 2)
    elif op in ('select', 'selectapp'):
        fields = MF if op == 'select' else AF
        n = rng.choice([0, 1, 1, 2, 2, 3])
        a += rand_crit2(rng, fields, n)
        if len(a) > 3 and 9 in a[1::2] and rng.random() < .6:
            # together with other criteria a list stands for itself
            a[a[1::2].index(9) * 2 + 2] = rng.choice([12, 23, 21])
    elif op == 'groupby':
        a = [g, rng.choice([4, 7])]
    elif op in ('selectany', 'selectappany'):
        fields = [1, 4, 5, 9] if op == 'selectany' else [7, 7, 8, 4]
        f, v = gd.rand_crit(rng, fields)
        a += [f, v]
        for _ in range(rng.choice([0, 1, 1, 2])):
            a.append(gd.rand_crit(rng, [f])[1])
        a[2:] = list(dict.fromkeys(a[2:]))
    elif op in ('union', 'equal'):
        a += gd.rand_crit(rng, MF) + gd.rand_crit(rng, AF)
        if rng.random() < .4:
            a[1:] = [2, b, 2, b]
    elif op == 'fromlist':
        pool = [i for i in insts if not any(i in n for n in nest)]
        if rng.random() < .2 or not pool:
            pool = list(insts)
        s = rng.sample(pool, rng.randrange(1, len(pool) + 1))
        nested = []
        if nest and rng.random() < .5:
            nested = list(rng.choice(nest))
        elif len(s) > 2:
            nested, s = s[:2], s[2:]
        a.append(len(s))
        for i in s + nested:
            a += [i, b, d]
    return dict(op=op, a=a)


def rand_crit2(rng, fields, n=None):
    n = rng.choice([1, 1, 2, 3]) if n is None else n
    out = {}
    for _ in range(n):
        f, v = gd.rand_crit(rng, fields)
        out[f] = v
    return [x for f in out for x in (f, out[f])]


def rand_case(rng):
    a, blds = gd.rand_world(rng, tidy=True)
    ops = [dict(op='begin', a=a), dict(op='members', a=[1])]
    return ops + [rand_op(rng, blds) for _ in range(25)]


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return gd.execute(ops, next(counter))

    behs = c.model_check(
        'MCGroup', constants={'Two': c.n('{1}', '{1, 2}')},
        invariants=['MainsAndSubmetersPartition', 'CriteriaIntersect',
                    'LookUpMatches', 'UnionIsAll', 'Emit'],
        coverage=False,
        expect_ops=['members', 'mains', 'submeters', 'int', 'id', 'ids', 'app',
                    'dict', 'select', 'selectapp', 'selectappany', 'union', 'groupby',
                    'equal', 'fromlist', 'altmains', 'pair'],
        note='every small building, every look-up')
    c.replay('looking up and selecting', behs, run)
    cases = [rand_case(c.rng) for _ in range(c.n(600, 8000))]
    c.validate('recorded look-ups', 'Group', cases, run)
