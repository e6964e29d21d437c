"""C16: the wiring of meters."""
import itertools

import group_driver as gd


def rand_case(rng):
    a, blds = gd.rand_world(rng, tidy=rng.random() < .6)
    ops = [dict(op='begin', a=a)]
    for _ in range(14):
        g = rng.randrange(1, len(blds) + 1)
        op = rng.choice(['wiring', 'wiring', 'downstream', 'upstream',
                         'upstream', 'upstream', 'mains', 'altmains', 'reload'])
        x = [g]
        if op == 'upstream':
            x.append(rng.choice(blds[g - 1][2]))
        ops.append(dict(op=op, a=x))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return gd.execute(ops, next(counter))

    behs = c.model_check(
        'MCWiring', constants={'Kinds': '{0, 1, 2, 3, 99, 100, 101}' if not c.thorough
                               else '{0, 1, 2, 3, 4, 99, 100, 101}', 'Nests': '{0, 1}'},
        invariants=['OneParent', 'DownIsChildren', 'SwapTwice', 'Emit'],
        coverage=False,
        expect_ops=['wiring', 'downstream', 'upstream', 'altmains', 'reload'],
        note='every wiring of four meters')
    behs.sort(key=str)
    c.replay('wiring', c.rng.sample(behs, min(len(behs), c.n(12000, 10 ** 6))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(600, 8000))]
    c.validate('recorded wirings', 'Group', cases, run)
