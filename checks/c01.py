"""C01: intersection of time frames is intersection of sets of instants."""
import itertools

from vh import NEGINF, POSINF


def rand_frame(rng, hi):
    s = rng.choice([NEGINF] + list(range(hi)))
    e = rng.choice([POSINF] + list(range(hi)))
    if s != NEGINF and e != POSINF and s >= e:
        s, e = (e, s) if e < s else (s, s + 1)
    return [s, e]


def check(c):
    from tf_driver import Clock, execute
    counter = itertools.count()

    def run(ops):
        return execute(ops, Clock(next(counter)))

    behs = c.model_check(
        'MCTimeFrames',
        constants={'MaxT': c.n(1, 2), 'MaxLen': 3},
        invariants=['NeverInverted', 'InterIsSetIntersection', 'InterLaws',
                    'Emit'],
        expect_actions=['New', 'SetStart', 'SetEnd', 'Enable', 'Intersect',
                        'RIntersect', 'Overlap', 'Slice', 'Equal'],
        note='every 3-step history of one frame object')
    c.replay('frame history', behs, run)

    rng = c.rng
    cases = []
    for _ in range(c.n(400, 4000)):
        ops = [dict(op='begin', a=[])]
        ops.append(dict(op='new', a=rand_frame(rng, 12)))
        if rng.random() < .2:
            ops.append(dict(op='enable', a=[0]))
        if rng.random() < .3:           # bounds may be set while the frame is disabled
            for _ in range(rng.randrange(1, 5)):
                o = rng.choice(['set_start', 'set_end', 'set_start', 'set_end', 'enable'])
                ops.append(dict(op=o, a=[
                    rng.randrange(2) if o == 'enable' else
                    rng.choice([NEGINF if o == 'set_start' else POSINF] + list(range(12)) * 2)]))
            ops.append(dict(op='enable', a=[rng.randrange(2)]))
        for _ in range(rng.randrange(2, 7)):
            o = rng.choice(['inter', 'rinter', 'inter', 'inter_pure',
                            'overlap', 'eq', 'slice', 'delta', 'truth',
                            'copy', 'include_end'])
            if o in ('delta', 'truth', 'copy'):
                a = []
            elif o == 'include_end':
                a = [rng.randrange(2)]
            elif o == 'slice':
                a = sorted(rng.sample(range(-3, 16), rng.randrange(0, 9)))
            else:
                if rng.random() < .1:
                    a = [NEGINF, POSINF, 1, 0]
                else:
                    a = rand_frame(rng, 12) + [0, rng.randrange(2)]
            ops.append(dict(op=o, a=a))
        cases.append(ops)
    c.validate('recorded frame history', 'TimeFrames', cases, run)
