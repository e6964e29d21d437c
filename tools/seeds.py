"""Planted bugs: (re)creates /verif/seeded/<id>/ and verifies each in a scratch copy.

usage: seeds.py make [id...]     write patch.diff, demo.sh, demo.py, stub, meta.json and verify
       seeds.py catch [id...]    run the property's check against each (scratch copy via VERIF_REPO)
"""
import glob
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/seed'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           MPLCONFIGDIR='/opt/venv/mpl', TZ='UTC')

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC
export PYTHONPATH="$PWD:$here/stub:$here"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def load():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds_*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        for s in ns['SEEDS']:
            assert s['id'] not in seeds, s['id']
            seeds[s['id']] = s
    return seeds


def fresh(name):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    return d


def apply_edits(d, edits):
    for path, old, new in edits:
        p = os.path.join(d, path)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, 'w', newline='').write(s.replace(old, new))


def demo(sd, d):
    return subprocess.run(['bash', os.path.join(sd, 'demo.sh')], cwd=d, env=ENV,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=280)


def make(ids):
    seeds = load()
    for id in ids or seeds:
        s = seeds[id]
        sd = os.path.join(V, 'seeded', id)
        shutil.rmtree(sd, ignore_errors=True)
        os.makedirs(sd)
        shutil.copytree(os.path.join(V, 'stub'), os.path.join(sd, 'stub'))
        for pc in glob.glob(sd + '/stub/**/__pycache__', recursive=True):
            shutil.rmtree(pc)
        if 'from h import' in s['demo']:
            shutil.copy(os.path.join(V, 'tools', 'demo_helper.py'), os.path.join(sd, 'h.py'))
        open(os.path.join(sd, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(sd, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
        d = fresh(id)
        r0 = demo(sd, d)
        apply_edits(d, s['edits'])
        diff = subprocess.check_output(['git', '-C', d, 'diff'])
        open(os.path.join(sd, 'patch.diff'), 'wb').write(diff)
        root = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).decode().split()[0]
        cur, ln = None, 0
        for line in diff.decode('latin1').split('\n'):
            if line.startswith('--- a/'):
                cur = line[6:].strip()
            elif line.startswith('@@'):
                ln = int(line.split()[1][1:].split(',')[0])
            elif line.startswith('-') and not line.startswith('---'):
                b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', cur]).decode('latin1')
                if root not in b.split()[0].lstrip('^') and not b.startswith('^'):
                    print(id, 'touches a line of a fix:', line)
                ln += 1
            elif not line.startswith('+') and cur:
                ln += 1
        r1 = demo(sd, d)
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'addopts=', '-W', 'ignore',
                            'nilmtk/tests/test_timeframe.py'], cwd=d,
                           env=dict(ENV, PYTHONPATH=d + ':' + os.path.join(V, 'stub')),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        print(id, 'ok' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'tests', t.returncode)
        if not ok:
            print(r0.stdout.decode()[-1500:], r1.stdout.decode()[-800:], t.stdout.decode()[-800:])
        shutil.rmtree(d)


def catch(ids):
    seeds = load()
    for id in ids or seeds:
        s = seeds[id]
        d = fresh('c-' + id)
        apply_edits(d, s['edits'])
        r = subprocess.run([os.path.join(V, 'check.sh'), s['property']], env=dict(ENV, VERIF_REPO=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        caught = r.returncode == 1 and 'VIOLATION property=' + s['property'] in out
        print(id, s['property'], 'CAUGHT' if caught else 'MISSED rc=%d' % r.returncode,
              (out.splitlines() + [''])[1][:150] if caught else out[-500:], flush=True)
        shutil.rmtree(d)


if __name__ == '__main__':
    {'make': make, 'catch': catch}[sys.argv[1]](sys.argv[2:])
