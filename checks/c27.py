"""C27: clearing the checkpoints of a model.

The code under test deletes files in the working directory.  It runs in a
process of its own as an unprivileged user, in a scratch directory.
"""
import contextlib
import io
import itertools
import json
import os
import shutil
import sys

import vh
from vh import observe

CHARS = {1: 'a', 2: 'b', 3: '.', 4: 'h', 5: '5', 6: 'H', 7: '-'}
CODE = {v: k for k, v in CHARS.items()}
NOBODY = 65534


def word(a):
    return ''.join(CHARS[x] for x in a)


def entries(a):
    out, k = [], 0
    while k < len(a):
        out.append((a[k], word(a[k + 2:k + 2 + a[k + 1]])))
        k += 2 + a[k + 1]
    return out


def inside(ops, top):
    """Runs as an unprivileged user."""
    from nilmtk.disaggregate import Disaggregator
    work, away = os.path.join(top, 'work'), os.path.join(top, 'away')
    os.makedirs(work)
    os.makedirs(os.path.join(away, 'folder'))
    for d in (away, os.path.join(away, 'folder'), top):
        open(os.path.join(d, 'a.h5'), 'w').close()
    os.chdir(work)
    order = []

    def make(es):
        for kind, name in es:
            if os.path.lexists(name):
                continue
            if kind == 1:
                open(name, 'w').close()
            elif kind == 2:
                os.mkdir(name)
                open(os.path.join(name, 'a.h5'), 'w').close()
            elif kind == 3:
                os.symlink(os.path.join(away, 'a.h5'), name)
            else:
                os.symlink(os.path.join(away, 'folder'), name)
            order.append(name)

    def listing():
        found = {}
        for e in os.scandir('.'):
            kind = 1 + (2 if e.is_symlink() else 0) + int(e.is_dir())
            if e.is_dir() and not os.path.exists(os.path.join(e.path, 'a.h5')):
                kind = 99
            found[e.name] = kind
        for d in (away, os.path.join(away, 'folder'), top):
            if not os.path.exists(os.path.join(d, 'a.h5')):
                return [vh.ODD]
        out = []
        for name in [n for n in order if n in found] + \
                sorted(n for n in found if n not in order):
            out += [found[name], len(name)] + [CODE.get(x, 99) for x in name]
        order[:] = [n for n in order if n in found]
        return out

    class Model(Disaggregator):
        MODEL_NAME = 'Model'

    def step(op, a):
        if op == 'create':
            make(entries(a))
            return listing()
        m = Model()
        if a != [777]:
            m.file_prefix = word(a)
        with contextlib.redirect_stdout(io.StringIO()):
            m.clear_model_checkpoints()
        return listing()

    out = []
    for o in ops:
        if o['op'] == 'begin':
            make(entries(o['a']))
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


def execute(ops, scratch):
    top = scratch.dir()
    os.chmod(os.path.dirname(top), 0o711)
    os.chown(top, NOBODY, NOBODY)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            with os.fdopen(w, 'w') as f:
                json.dump(inside(ops, top), f)
        except BaseException as e:
            sys.stderr.write('c27: %r\n' % e)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    shutil.rmtree(top)
    return json.loads(text)


def rand_case(rng):
    def name():
        n = [rng.choice([1, 2, 7]) for _ in range(rng.choice([0, 1, 2, 3]))]
        return n + rng.choice([[3, 4, 5]] * 4 + [[], [4, 5], [3, 6, 5], [3, 4], [3, 4, 5, 3, 1],
                                                 [3, 4, 5, 3, 4, 5], [7, 4, 5]])

    def several(n):
        a = []
        for _ in range(n):
            x = name()
            if x and x != [3]:
                a += [rng.choice([1, 1, 1, 2, 3, 4]), len(x)] + x
        return a
    ops = [dict(op='begin', a=several(rng.randrange(0, 12)))]
    for _ in range(3):
        p = [rng.choice([1, 2, 7]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        if rng.random() < .15:
            p = p + [3, 4, 5]
        ops.append(dict(op='clear', a=rng.choice([p, p, p, p, [777]])))
        ops.append(dict(op='create', a=several(3)))
    return ops


def check(c):
    import nilmtk.disaggregate  # noqa
    counter = itertools.count()

    def run(ops):
        next(counter)
        return execute(ops, c.scratch)

    behs = c.model_check(
        'MCCheckpoints', constants={'MaxFiles': 2, 'MaxSteps': 2},
        invariants=['Complete', 'OthersSurvive', 'Emit'],
        expect_actions=['Clear', 'Create'],
        note='every pair of entries, every two models clearing in turn')
    c.replay('clearing', c.rng.sample(behs, min(len(behs), c.n(1200, 10000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(300, 4000))]
    c.validate('recorded clearing', 'Checkpoints', cases, run)
