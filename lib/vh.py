"""Harness shared by all checks: import of the code under test, guarded calls,
projection helpers, verdicts, evidence."""
import contextlib
import gc
import io
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, os.path.join(VERIF, 'stub'), os.path.join(VERIF, 'lib')]
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mpl')
warnings.simplefilter('ignore')

import tlc  # noqa: E402

EXC = -77777777
NAN = -55555555
ODD = -66666666
NEGINF = -1000000
POSINF = 1000000
REAL_OUT = sys.stdout


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


@contextlib.contextmanager
def limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


LAST_TB = [None]


def exc_code(e):
    if isinstance(e, KeyError):
        c = 2
    elif isinstance(e, ValueError):
        c = 1
    elif isinstance(e, Hang):
        c = 8
    else:
        c = 9
    return [EXC, c]


def observe(fn, seconds=60):
    """Run fn (call + projection to a flat int list); exceptions become codes."""
    LAST_TB[0] = None
    try:
        with limit(seconds), quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = fn()
            return [int(x) for x in res]
    except (Hang, Exception) as e:
        LAST_TB[0] = traceback.format_exc()
        return exc_code(e)


def as_int(x, scale=1, tol=1e-6):
    """Project a number to an exact int; NaN and non-integers get codes."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return ODD
    if math.isnan(x):
        return NAN
    x *= scale
    if math.isinf(x) or abs(x) > 2e9:
        return ODD
    r = round(x)
    if abs(x - r) > tol * max(1.0, abs(x)):
        return ODD
    return int(r)


class Scratch(object):
    """A scratch directory that is always removed."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix='vscratch-')
        self.n = 0
        self.owner = os.getpid()

    def file(self, suffix=''):
        self.n += 1
        return os.path.join(self.path, 'f%d_%d%s' % (os.getpid(), self.n, suffix))

    def dir(self):
        self.n += 1
        p = os.path.join(self.path, 'd%d_%d' % (os.getpid(), self.n))
        os.mkdir(p)
        return p

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh)['findings']


class Check(object):
    """One property's run: counts, violations, evidence, exit status."""

    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.replayed = 0
        self.samples = []
        self.violations = []
        self.notes = []
        self.models = []
        self.trace_ops = {}
        self.assumptions = []
        self.scratch = Scratch()
        self.thorough = self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- specification side -------------------------------------------------
    def model_check(self, root, **kw):
        """Exhaustively check the specification's invariants, return emissions."""
        expect = kw.pop('expect_actions', None)
        ops = kw.pop('expect_ops', None)
        note = kw.pop('note', '')
        r = tlc.model_check(root, **kw)
        self.states += r.distinct
        self.transitions += r.states
        idle = sorted(a for a, (d, t) in r.actions.items()
                      if t == 0 and a not in ('Init',))
        self.models.append({'module': root, 'distinct_states': r.distinct,
                            'states_generated': r.states, 'note': note,
                            'emitted_behaviours': len(r.prints),
                            'actions_never_taken': idle})
        if expect:
            missing = [a for a in expect if r.actions.get(a, (0, 0))[1] == 0]
            if missing:
                raise tlc.TLCError('vacuous model %s: %s never taken'
                                   % (root, missing))
        if ops:
            seen = set(e['op'] for beh in r.prints for e in beh)
            if set(ops) - seen:
                raise tlc.TLCError('vacuous model %s: %s never taken'
                                   % (root, set(ops) - seen))
        return r.prints

    # -- conformance: specification behaviours replayed in the code ----------
    def replay(self, label, behaviours, execute, tol=0):
        """behaviours: event lists with specified results; execute(ops)->events"""
        jobs = [[dict(op=e['op'], a=e['a']) for e in beh] for beh in behaviours]
        for beh, ops, got in zip(behaviours, jobs, self.run_all(execute, jobs)):
            self.replayed += 1
            self.traces += 1
            self.events += len(beh)
            for i, (e, g) in enumerate(zip(beh, got)):
                if e['op'] == 'begin':
                    continue
                if list(e['res']) == [-98]:
                    continue        # outcome left open by the specification
                if not same(e['res'], g['res'], tol):
                    self.violation('%s: %s: specified %s, observed %s'
                                   % (label, e['op'], short(e['res']), short(g['res'])),
                                   dict(kind='replay', label=label, ops=ops,
                                        failing=i, expected=e['res'],
                                        observed=g['res'], tb=g.get('tb')))
                    break
            if len(got) != len(beh):
                self.violation('%s: behaviour cut short' % label,
                               dict(kind='replay', label=label, ops=ops))
            if len(self.samples) < 2:
                self.samples.append({'specified_behaviour': beh[:6]})
            if len(self.violations) > 30:
                break

    workers = 8

    def run_all(self, execute, jobs):
        """Run all jobs, in consecutive blocks spread over forked workers."""
        jobs = list(jobs)
        n = min(self.workers, max(1, len(jobs) // 20))
        if n <= 1:
            return [self.run_ops(execute, ops) for ops in jobs]
        size = (len(jobs) + n - 1) // n
        blocks = [jobs[i:i + size] for i in range(0, len(jobs), size)]
        procs = []
        sys.stdout.flush()
        REAL_OUT.flush()
        for b in blocks:
            path = self.scratch.file('.out')
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    gc.freeze()     # keeps gc.collect() calls of the code cheap
                    out = [self.run_ops(execute, ops) for ops in b]
                    with open(path, 'w') as fh:
                        json.dump(out, fh)
                    code = 0
                finally:
                    os._exit(code)
            procs.append((pid, path))
        res = []
        for (pid, path), b in zip(procs, blocks):
            os.waitpid(pid, 0)
            if os.path.exists(path):
                with open(path) as fh:
                    res += json.load(fh)
                os.unlink(path)
            else:
                # the worker died: nothing was observed
                res += [[dict(op=o['op'], a=o['a'], res=[EXC, 7]) for o in ops]
                        for ops in b]
        return res

    def run_ops(self, execute, ops):
        try:
            return execute(ops)
        except Exception:
            # a driver step outside an observation failed: the code under
            # test no longer offers what the driver needs
            tb = traceback.format_exc()
            return [dict(op=o['op'], a=o['a'], res=[EXC, 9], tb=tb)
                    for o in ops]

    # -- conformance: recorded executions checked against the specification --
    def validate(self, label, spec, cases, execute, constants=None,
                 batch=200000):
        """cases: op lists (first op 'begin'); executed, recorded, validated."""
        events, owner, tbs, allops = [], [], {}, []
        for ci, (ops, got) in enumerate(zip(cases, self.run_all(execute, cases))):
            allops.append(ops)
            for e in got:
                if 'tb' in e:
                    tbs[len(events)] = e.pop('tb')
                e.setdefault('res', [])
                events.append(e)
                owner.append(ci)
                self.trace_ops[e['op']] = self.trace_ops.get(e['op'], 0) + 1
            self.traces += 1
        self.events += len(events)
        if not events:
            return
        bad, r = tlc.validate(spec, events, constants)
        self.states += r.distinct
        self.transitions += r.states
        if bad is None:
            self.violation('%s: recorded execution cannot be read as a '
                           'behaviour of %s' % (label, spec),
                           dict(kind='trace', label=label, out=r.out[-3000:]))
            return
        seen = set()
        for b in bad:
            i = b['line'] - 1
            if owner[i] in seen:
                continue
            seen.add(owner[i])
            e = events[i]
            self.violation('%s: %s: specified %s, observed %s'
                           % (label, b['op'], short(b['exp']), short(e['res'])),
                           dict(kind='trace', label=label, spec=spec,
                                ops=allops[owner[i]], event=e,
                                expected=b['exp'], tb=tbs.get(i)))
        if len(self.samples) < 4:
            self.samples.append({'recorded_trace': events[:6]})

    # -- verdicts ---------------------------------------------------------
    def violation(self, what, detail):
        for k in known_findings():
            if k.get('status') == 'known' and k['property'] == self.pid \
                    and k['match'] in what:
                line = 'KNOWN-FINDING: property=%s %s' % (self.pid, k['what'])
                if line not in self.notes:
                    self.notes.append(line)
                return
        self.violations.append((what, detail))

    def finish(self, extra_coverage=None, exhaustive=False):
        self.scratch.close()
        cov = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'spec_behaviours_replayed_in_code': self.replayed,
            'events_compared': self.events,
            'models': self.models,
            'recorded_operations': self.trace_ops,
            'samples': self.samples or [{'none': True}],
            'exhaustive': bool(exhaustive),
        }
        cov.update(extra_coverage or {})
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for line in self.notes:
            print(line, file=REAL_OUT)
        if self.violations:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            for i, (what, detail) in enumerate(self.violations[:10]):
                path = os.path.join(rd, '%s-%d.json' % (self.pid, i))
                with open(path, 'w') as fh:
                    json.dump(dict(property=self.pid, what=what,
                                   detail=detail), fh, indent=1, default=str)
                print('VIOLATION property=%s replay=%s' % (self.pid, path),
                      file=REAL_OUT)
                print('  ' + what[:600], file=REAL_OUT)
            REAL_OUT.flush()
            return 1
        print('OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs'
              % (self.pid, self.tier, self.states, self.traces, self.events,
                 time.time() - self.t0), file=REAL_OUT)
        REAL_OUT.flush()
        return 0


def same(a, b, tol=0):
    a, b = list(a), list(b)
    if a == b:
        return True
    return (tol > 0 and len(a) == len(b) and
            all(x == y or (abs(x) < 10 ** 9 and abs(y) < 10 ** 9 and
                           NAN not in (x, y) and abs(x - y) <= tol)
                for x, y in zip(a, b)))


def short(x):
    s = str(list(x) if not isinstance(x, str) else x)
    return s if len(s) < 200 else s[:200] + '...'


def main(pid, fn):
    """fn(check) does the work."""
    c = Check(pid)
    tempfile.tempdir = c.scratch.path
    try:
        try:
            import nilmtk
            if not os.path.abspath(nilmtk.__file__).startswith(
                    os.path.abspath(REPO) + os.sep):
                raise RuntimeError('nilmtk imported from ' + nilmtk.__file__)
        except (ImportError, SyntaxError, AttributeError, NameError) as e:
            c.violation('the package does not import: %r' % e,
                        dict(kind='import', tb=traceback.format_exc()))
            return c.finish()
        fn(c)
        return c.finish()
    finally:
        c.scratch.close()
