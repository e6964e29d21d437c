"""Mutation sweep: small syntactic changes to nilmtk, each run against the checks that execute the changed line.

usage: mutate.py COVDIR WORK SEED N FILE[,FILE...]    COVDIR: C*.txt with lines "file:line" each check executes
Prints one line per mutant: CAUGHT by which check, or SURVIVED.  Works in WORK (a scratch directory outside /repo and
/verif) with a clone of both.
"""
import ast
import glob
import os
import random
import re
import subprocess
import sys

PRIMARY = [
    ('timeframe.py', 'C01 C02 C03'), ('timeframegroup.py', 'C03 C31'),
    ('datastore/hdfdatastore.py', 'C04 C06 C30'), ('datastore/csvdatastore.py', 'C05 C06'),
    ('datastore/datastore.py', 'C25 C06 C04 C30'), ('datastore/key.py', 'C25'), ('datastore/tmp', 'C10'),
    ('results.py', 'C11'), ('stats/good', 'C07 C11 C10'), ('stats/total', 'C08 C11 C10'),
    ('stats/drop', 'C09 C11 C10'), ('stats/hist', 'C28'), ('preprocessing', 'C12 C08'), ('node.py', 'C12'),
    ('measurement.py', 'C13'), ('disaggregate/comb', 'C19'), ('disaggregate/fhmm', 'C20'),
    ('disaggregate/mean', 'C21'), ('disaggregate/hart', 'C18'), ('disaggregate/disagg', 'C27 C22'),
    ('feature', 'C18 C19'), ('api.py', 'C22'), ('losses.py', 'C22 C23'), ('legacy', 'C33'), ('metrics.py', 'C23'),
    ('dataset_converters', 'C29 C36'), ('dataset.py', 'C30 C15 C16'), ('building.py', 'C15'),
    ('appliance.py', 'C15 C17'), ('hashable', 'C15'), ('elecmeter.py', 'C13 C10 C24 C12 C30 C26 C15 C16'),
    ('electric.py', 'C17 C26 C31 C32'), ('metergroup.py', 'C15 C16 C14 C10 C31 C32'),
    ('utils.py', 'C24 C14 C15 C08 C20 C31')]


def mutants(src):
    """(line, start, end, text): replace src[start:end] by text."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def pos(l, c):
        return offs[l - 1] + c

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, text):
        a, b = span(n)
        out.append((n.lineno, a, b, text))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.add(n.body[0].value)
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                infunc.add(n)
    SW = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
          ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
    for n in ast.walk(tree):
        if n not in infunc or n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = SW[type(n.ops[0])]
            add(n, '(%s %s %s)' % (seg(n.left), t, seg(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            t = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + t.join('(%s)' % seg(v) for v in n.values) + ')')
            for k in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != k]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for v in rest) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % seg(n.operand))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            if n.operand.value == 1:
                add(n, '0')
        elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            t = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}[type(n.op)]
            add(n, '((%s) %s (%s))' % (seg(n.left), t, seg(n.right)))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value))
            elif isinstance(n.value, (int, float)):
                add(n, repr(n.value + 1))
                if n.value == 0:
                    add(n, '-1')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all'):
            add(n.func, {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[n.func.id])
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.keywords:
            pass
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'break' if isinstance(n, ast.Continue) else 'continue')
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or (
                isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)):
            add(n, 'pass')
        elif isinstance(n, ast.If):
            add(n.test, '(False)')
            add(n.test, '(True)')
        elif isinstance(n, ast.IfExp):
            add(n, '(%s)' % seg(n.body))
            add(n, '(%s)' % seg(n.orelse))
        if isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg and seg(n).count(k.arg + '=') == 1:
                    s = seg(n)
                    t = re.sub(r',?\s*\b%s=%s' % (k.arg, re.escape(seg(k.value))), '', s, count=1).replace('(, ', '(').replace('(,', '(')
                    if t != s:
                        add(n, t)
    good = []
    for m in out:
        new = (raw[:m[1]] + m[3].encode() + raw[m[2]:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append((m[0], raw[m[1]:m[2]].decode(), m[3], new))
    return good


def main():
    cov, work, seed, num, files = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5].split(',')
    os.makedirs(work, exist_ok=True)
    for src, dst in (('/repo', 'r'), ('/verif', 'v')):
        d = os.path.join(work, dst)
        subprocess.check_call(['rm', '-rf', d])
        subprocess.check_call(['git', 'clone', '-q', src, d])
    lines = {}
    for f in glob.glob(os.path.join(cov, 'C*.txt')):
        for l in open(f):
            k = l.strip().rsplit(':', 1)
            if len(k) == 2 and k[1].isdigit():
                lines.setdefault((k[0], int(k[1])), set()).add(os.path.basename(f)[:3])
    rng = random.Random(seed)
    for path in files:
        p = os.path.join(work, 'r', 'nilmtk', path)
        text = open(p, newline='').read()
        crlf = '\r\n' in text
        ms = mutants(text.replace('\r\n', '\n'))
        prim = next((x.split() for k, x in PRIMARY if path.startswith(k)), [])
        ms = [m for m in ms if lines.get((path, m[0]))]
        rng.shuffle(ms)
        for line, old, new, full in ms[:num]:
            open(p, 'w', newline='').write(full.replace('\n', '\r\n') if crlf else full)
            res = 'SURVIVED'
            by = lines[path, line]
            for c in [x for x in prim if x in by] + sorted(by - set(prim))[:2]:
                env = dict(os.environ, VERIF_REPO=os.path.join(work, 'r'))
                try:
                    r = subprocess.run([os.path.join(work, 'v', 'check.sh'), c], env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=400)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc:
                    res = 'CAUGHT %s%s' % (c, '' if rc == 1 else ' rc=%s' % rc)
                    break
            print('%s %s:%d  %s  ->  %s   [%s]' % (res, path, line, ' '.join(old.split())[:90],
                                                  ' '.join(new.split())[:90], ' '.join(sorted(by))[:40]), flush=True)
        open(p, 'w', newline='').write(text)


main()
