"""C03: group operations on time frames: masking, uptime, filtering."""
import itertools

from c02 import sorted_frames
from vh import NEGINF, POSINF


def check(c):
    from tf_driver import Clock, execute
    counter = itertools.count()

    def run(ops):
        return execute(ops, Clock(next(counter)))

    behs = c.model_check(
        'MCFrameLists',
        constants={'MaxT': c.n(4, 5), 'MaxFrames': 2, 'MaxGap': 1,
                   'Ops': '{"groups"}'},
        invariants=['LawGroup', 'Emit'],
        expect_actions=['GInter', 'Uptime', 'Remove'],
        note='every pair of lists of frames')
    c.replay('frame groups', behs, run)
    rng = c.rng
    cases = []
    for _ in range(c.n(600, 6000)):
        ops = [dict(op='begin', a=[])]
        for _ in range(3):
            o = rng.choice(['ginter', 'ginter', 'uptime', 'remove_short', 'order', 'periods'])
            l = sorted_frames(rng, rng.randrange(0, 9), 80)
            m = sorted_frames(rng, rng.randrange(0, 9), 80)
            if rng.random() < .4:
                k = list(zip(l[::2], l[1::2])) + list(zip(m[::2], m[1::2]))
                rng.shuffle(k)
                l = [x for y in k for x in y]
            if o == 'order':
                l = [x for s in rng.choices(range(rng.choice([4, 60])), k=rng.randrange(0, 7))
                     for x in (s, rng.choice([s + rng.randrange(1, 9), POSINF]))]
                for _ in range(rng.choice([0, 1, 1, 2, 3]) if l else 0):
                    l[2 * rng.randrange(len(l) // 2)] = NEGINF
                ops.append(dict(op=o, a=l))
            elif o == 'periods':
                ops.append(dict(op=o, a=[rng.randrange(-5, 20), rng.randrange(1, 9), rng.randrange(1, 6)]))
            elif o == 'ginter':
                ops.append(dict(op=o, a=[len(l) // 2] + l + m))
            elif o == 'uptime':
                ops.append(dict(op=o, a=l))
            else:
                ops.append(dict(op=o, a=[rng.randrange(0, 14)] + l))
        cases.append(ops)
    c.validate('recorded frame groups', 'TimeFrames', cases, run)
