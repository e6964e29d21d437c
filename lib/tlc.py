"""Running TLC: exhaustive model checking, behaviour emission, trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = ('/opt/veriftools/tla/tla2tools.jar:'
      '/opt/veriftools/tla/CommunityModules-deps.jar')


class TLCError(Exception):
    """TLC could not do its work (bad spec, JVM problem): machinery failure."""


class TLCResult(object):
    def __init__(self):
        self.rc = None
        self.out = ''
        self.states = 0
        self.distinct = 0
        self.prints = []
        self.violated = None
        self.eval_error = False
        self.actions = {}


def _run(workdir, root, cfg, workers, timeout, heap, extra, env):
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + workdir, '-cp', CP,
           'tlc2.TLC', '-config', cfg, '-workers', str(workers),
           '-metadir', os.path.join(workdir, 'states'), '-noGenerateSpecTE',
           '-nowarning'] + list(extra) + [root]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode('utf8', 'replace')


_JSON_LINE = re.compile(r'^"([\[{].*[\]}])"$')


def parse(rc, out):
    r = TLCResult()
    r.rc = rc
    r.out = out
    for line in out.splitlines():
        m = _JSON_LINE.match(line)
        if m:
            try:
                r.prints.append(json.loads(json.loads(line)))
                continue
            except ValueError:
                raise TLCError('unparsable emission: ' + line[:200])
        m = re.match(r'^(\d+) states generated, (\d+) distinct', line)
        if m:
            r.states, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.match(r'^The number of states generated: (\d+)', line)
        if m:
            r.states = int(m.group(1))
        m = re.match(r'^Progress.*: ([\d,]+) states', line)
        m2 = re.match(r'^Error: Invariant (\S+) is violated', line)
        if m2:
            r.violated = m2.group(1)
        m3 = re.match(r'^<(\w+) line .*>: (\d+):(\d+)', line)
        if m3:
            a, b = r.actions.get(m3.group(1), (0, 0))
            r.actions[m3.group(1)] = (a + int(m3.group(2)),
                                      b + int(m3.group(3)))
    return r


def run(root, cfg_text, workers=8, timeout=800, heap='6g', extra=(), env=None,
        files=None):
    """Run TLC on spec module `root` (in /verif/spec) with the given config."""
    work = tempfile.mkdtemp(prefix='vtlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, text in (files or {}).items():
            with open(os.path.join(work, name), 'w') as fh:
                fh.write(text)
        with open(os.path.join(work, 'run.cfg'), 'w') as fh:
            fh.write(cfg_text)
        rc, out = _run(work, root + '.tla', 'run.cfg', workers, timeout, heap,
                       extra, env)
        return parse(rc, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def cfg(init='Init', next_='Next', constants=None, invariants=(),
        constraints=(), properties=(), postcondition=None, spec=None):
    lines = []
    if spec:
        lines.append('SPECIFICATION ' + spec)
    else:
        lines += ['INIT ' + init, 'NEXT ' + next_]
    for k, v in (constants or {}).items():
        lines.append('CONSTANT %s %s' % (k, v if str(v).startswith('<-')
                                         else '= ' + str(v)))
    for i in invariants:
        lines.append('INVARIANT ' + i)
    for c in constraints:
        lines.append('CONSTRAINT ' + c)
    for p in properties:
        lines.append('PROPERTY ' + p)
    if postcondition:
        lines.append('POSTCONDITION ' + postcondition)
    lines.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(lines) + '\n'


def model_check(root, coverage=True, **kw):
    """Exhaustive run; the specification's own invariants must hold."""
    keys = ('init', 'next_', 'constants', 'invariants', 'constraints',
            'properties', 'postcondition', 'spec')
    c = cfg(**{k: kw.pop(k) for k in list(kw) if k in keys})
    extra = list(kw.pop('extra', ()))
    if coverage:
        extra += ['-coverage', '60']
    r = run(root, c, extra=extra, **kw)
    if r.rc != 0:
        raise TLCError('TLC failed on %s (rc %s):\n%s'
                       % (root, r.rc, r.out[-3000:]))
    return r


TRACE_TMPL = """---- MODULE TraceRun ----
EXTENDS %(spec)s, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES l, tst, bad
TInit == l = 1 /\\ tst = InitSt(<<>>) /\\ bad = <<>>
TNext ==
  /\\ l <= Len(Trace)
  /\\ l' = l + 1
  /\\ LET ev == Trace[l] IN
     IF ev.op = "begin"
     THEN tst' = InitSt(ev.a) /\\ bad' = bad
     ELSE LET r == Apply(tst, ev) IN
          /\\ tst' = r.st
          /\\ bad' = IF Accepts(tst, ev, r) THEN bad
                     ELSE IF Len(bad) > 60 THEN bad
                     ELSE Append(bad, [line |-> l, op |-> ev.op, exp |-> r.res])
Verdict == l <= Len(Trace) \\/ PrintT(ToJson([verdict |-> TRUE, n |-> Len(Trace), bad |-> bad]))
====
"""


def validate(spec, events, constants=None, timeout=800, heap='8g'):
    """Validate recorded events against specification module `spec`.

    Every event is judged by the specification's Apply/Accepts operators.
    Returns (list of rejected events, TLCResult).
    """
    fd, path = tempfile.mkstemp(prefix='vtrace-', suffix='.ndjson')
    with os.fdopen(fd, 'w') as fh:
        for ev in events:
            fh.write(json.dumps(ev) + '\n')
    try:
        r = run('TraceRun',
                cfg(init='TInit', next_='TNext', constants=constants,
                    invariants=['Verdict']),
                workers=1, timeout=timeout, heap=heap, env={'VTRACE': path},
                files={'TraceRun.tla': TRACE_TMPL % dict(spec=spec)})
    finally:
        os.unlink(path)
    v = [p for p in r.prints if isinstance(p, dict) and p.get('verdict')]
    if not v:
        # TLC could not evaluate the trace.
        if 'TLC encountered' in r.out or 'Attempted to' in r.out \
                or 'evaluating' in r.out:
            r.eval_error = True
            return None, r
        raise TLCError('trace validation failed to run (rc %s):\n%s'
                       % (r.rc, r.out[-3000:]))
    assert v[-1]['n'] == len(events), (v[-1]['n'], len(events))
    return v[-1]['bad'], r
