"""C25: key texts."""
import itertools
import re

import vh
from vh import observe, EXC

TOK = {1: '/', 2: 'building', 3: 'meter', 4: 'elec', 5: 'gas', 6: '-', 7: ' '}
TOK.update({10 + d: str(d) for d in range(10)})
NAMES = ['gas', 'Gas', 'w\xe4rme', 'WATER_x']    # what stands for the second utility


def execute(ops, i):
    tok = dict(TOK)
    tok[5] = NAMES[i % len(NAMES)]
    inv = {v: k for k, v in tok.items()}
    lex = re.compile('building|meter|elec|%s|.' % tok[5], re.S)

    def text(toks):
        return ''.join(tok[t] for t in toks)

    def tokens(s):
        return [inv.get(x, vh.ODD) for x in lex.findall(s)]

    from nilmtk.datastore import Key
    from nilmtk.datastore.datastore import join_key

    def key(k):
        s = str(k)
        if repr(k) != s:
            return [vh.ODD]
        return [k.building, 0 if k.meter is None else k.meter] + tokens(s)

    def step(op, a):
        if op == 'join':
            parts, cur = [], []
            for x in a + [99]:
                if x == 99:
                    parts.append(text(cur))
                    cur = []
                else:
                    cur.append(x)
            return tokens(join_key(*parts))
        try:
            if op == 'parse':
                return key(Key(text(a)))
            return key(Key(building=a[0], meter=None if a[1] == 777 else a[1]))
        except (AssertionError, ValueError):
            return [EXC, 9]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def rand_case(rng):
    ops = [dict(op='begin', a=[])]
    num = lambda: [10 + int(d) for d in str(rng.choice([0, 1, 2, 3, 10, 11, 100, 1234]))]
    for _ in range(12):
        k = rng.random()
        if k < .3:
            ops.append(dict(op='make', a=[rng.choice([0, 1, 2, 12, 100]),
                                          rng.choice([777, 0, 1, 2, 12, 100])]))
        elif k < .75:
            t = rng.choice([[], [1], [1, 1]]) + [2] + num()
            if rng.random() < .8:
                t += [1] + [rng.choice([4, 4, 5, 3])]
            if rng.random() < .7:
                t += [1, 3] + num()
            if rng.random() < .2:
                t += rng.choice([[1], [1, 1], [1, 4], [1, 3, 11]])
            if rng.random() < .3:
                j = rng.randrange(len(t))
                t = t[:j] + [rng.choice([1, 2, 3, 4, 6, 7, 11])] + t[j + rng.choice([0, 1]):]
            ops.append(dict(op='parse', a=t))
        else:
            parts = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                p = [rng.choice([1, 2, 3, 4, 5, 11, 12]) for _ in range(rng.choice([0, 1, 2, 4]))]
                parts += p + [99]
            ops.append(dict(op='join', a=parts[:-1]))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, next(counter))

    behs = c.model_check(
        'MCKeys', constants={'Len1': c.n(3, 4), 'Len2': c.n(3, 4),
                             'Bs': '{0, 1, 2, 9, 10, 11, 12, 101, 110, 111}',
                             'Ms': '{777, 0, 1, 2, 9, 10, 11, 12, 101, 110, 111}'},
        invariants=['RoundTrip', 'Distinct', 'Assoc', 'Emit'], coverage=False,
        expect_ops=['parse', 'make', 'join'], note='all short texts')
    c.replay('keys', behs, run)
    cases = [rand_case(c.rng) for _ in range(c.n(500, 8000))]
    c.validate('recorded keys', 'Keys', cases, run)
