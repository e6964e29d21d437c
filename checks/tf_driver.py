"""Drives real TimeFrame / TimeFrameGroup objects with specification ops."""
import itertools

import pandas as pd

from vh import NEGINF, POSINF, NAN, observe

CLOCKS = [
    # (first instant, seconds per abstract unit)
    (pd.Timestamp('2014-05-01 00:00:00'), 1),
    (pd.Timestamp('2014-03-30 00:00:00', tz='Europe/London'), 1800),   # spring DST
    (pd.Timestamp('2013-11-03 00:00:00', tz='US/Eastern'), 3600),      # autumn DST
    (pd.Timestamp('2012-12-31 23:59:58', tz='UTC'), 1),
    (pd.Timestamp('2014-05-01 00:00:00', tz='Asia/Kolkata'), 86400),
    (pd.Timestamp('2011-04-18 13:22:09.250', tz='US/Eastern'), .25),   # several a second
]


class Clock(object):
    def __init__(self, i):
        self.base, self.unit = CLOCKS[i % len(CLOCKS)]

    def ts(self, t):
        if t in (NEGINF, POSINF):
            return None
        return self.base + pd.Timedelta(seconds=t * self.unit)

    def back(self, ts, none):
        if ts is None or ts is pd.NaT:
            return none
        d = (pd.Timestamp(ts) - self.base).total_seconds() / self.unit
        return int(d) if d == int(d) else -424242

    def td(self, delta):
        if delta is None:
            return NAN
        d = delta.total_seconds() / self.unit
        return int(d) if d == int(d) else -424242


def execute(ops, clock):
    from nilmtk.timeframe import (TimeFrame, merge_timeframes,
                                  split_timeframes)
    from nilmtk.timeframegroup import TimeFrameGroup
    c = clock
    box = [TimeFrame()]

    def mk(s, e, em=0, inc=0):
        if em:
            # an empty frame can only be had as an empty intersection
            x = TimeFrame(c.ts(0), c.ts(1)).intersection(
                TimeFrame(c.ts(2), c.ts(3)))
        else:
            x = TimeFrame(c.ts(s), c.ts(e))
            if inc:
                x.include_end = True
        return x

    def se(f):
        return [c.back(f.start, NEGINF), c.back(f.end, POSINF)]

    def fobs(f):
        return se(f) + [int(bool(f.empty)), int(bool(f.include_end))]

    def seobs(f):
        return se(f) + [int(bool(f.empty))]

    def pairs(a):
        return [mk(a[i], a[i + 1]) for i in range(0, len(a), 2)]

    def lobs(fs):
        fs = list(fs)
        out = [len(fs)]
        for f in fs:
            if f.empty:
                out.append(-31337)
            out += se(f)
        return out

    def step(op, a):
        f = box[0]
        if op == 'new':
            box[0] = TimeFrame(c.ts(a[0]), c.ts(a[1]))
            return fobs(box[0])
        if op == 'set_start':
            f.start = c.ts(a[0])
            return fobs(f)
        if op == 'set_end':
            f.end = c.ts(a[0])
            return fobs(f)
        if op == 'enable':
            f.enabled = bool(a[0])
            return fobs(f)
        if op == 'include_end':
            f.include_end = bool(a[0])
            return fobs(f)
        if op == 'clear':
            f.clear()
            return seobs(f)
        if op == 'inter':
            box[0] = f.intersection(mk(*a))
            return fobs(box[0])
        if op == 'rinter':
            box[0] = mk(*a).intersection(f)
            return fobs(box[0])
        if op == 'inter_pure':
            g = mk(*a)
            f.intersection(g)
            g.intersection(f)
            return fobs(f) + fobs(g)
        if op == 'overlap':
            f.check_for_overlap(mk(*a))
            return [0]
        if op == 'slice':
            df = pd.DataFrame({'v': list(a)}, index=[c.ts(t) for t in a])
            r = f.slice(df)
            assert [c.back(i, 0) for i in r.index] == list(r['v'])
            ser = f.slice(df['v'])
            assert list(ser) == list(r['v'])
            return list(r['v'])
        if op == 'delta':
            return [c.td(f.timedelta)]
        if op == 'truth':
            return [int(bool(f))]
        if op == 'copy':
            return fobs(TimeFrame(f))
        if op == 'roundtrip':
            g = TimeFrame.from_dict(f.to_dict())
            return se(g)
        if op == 'eq':
            g = mk(*a)
            if f == g:
                assert hash(f) == hash(g)
            assert (f == g) == (g == f) == (not f != g)
            return [int(f == g)]
        if op == 'union':
            g = mk(*a)
            keep = fobs(f) + fobs(g)
            r = f.union(g)
            r2 = g.union(f)
            assert seobs(r) == seobs(r2)
            assert keep == fobs(f) + fobs(g)
            box[0] = r
            return seobs(r)
        if op == 'adjacent':
            g = mk(*a[:4])
            gap = a[4] * c.unit
            assert f.adjacent(g, gap) == g.adjacent(f, gap)
            if gap == 0:
                assert f.adjacent(g) == f.adjacent(g, 0)
            return [int(f.adjacent(g, gap))]
        if op == 'split':
            keep = fobs(f)
            r = list(f.split(a[0] * c.unit))
            assert keep == fobs(f)
            return lobs(r)
        if op == 'merge':
            fs = pairs(a[1:])
            keep = [fobs(x) for x in fs]
            r = merge_timeframes(fs, gap=a[0] * c.unit)
            out = lobs(r)
            assert keep == [fobs(x) for x in fs[:len(keep)]]
            return out
        if op == 'split_all':
            return lobs(split_timeframes(pairs(a[1:]), a[0] * c.unit))
        if op == 'ginter':
            n = a[0]
            g1 = TimeFrameGroup(pairs(a[1:1 + 2 * n]))
            g2 = TimeFrameGroup(pairs(a[1 + 2 * n:]))
            keep = lobs(g1) + lobs(g2)
            r = g1.intersection(g2)
            assert isinstance(r, TimeFrameGroup)
            assert keep == lobs(g1) + lobs(g2)
            return lobs(r)
        if op == 'order':
            fs = pairs(a)
            if fs and len(a) % 4 == 0:
                x = TimeFrameGroup(fs)
                x.sort()
            else:
                x = sorted(fs)
            # frames with the same start may come in any order
            y = [f for _, g in itertools.groupby(x, lambda f: f.start)
                 for f in sorted(g, key=lambda f: c.back(f.end, POSINF))]
            return lobs(y)
        if op == 'periods':      # start, length, number
            k = Clock(0)      # (periods have no time zone)
            x = pd.period_range(k.ts(a[0]), periods=a[2], freq=pd.Timedelta(seconds=a[1]))
            g = TimeFrameGroup(x)
            out = [len(g)]
            for f in g:
                if f.end.nanosecond != 999 or f.include_end or f.empty:
                    return [-31337]
                out += [k.back(t, 0) for t in (f.start, f.end + pd.Timedelta(1, 'ns'))]
            return out
        if op == 'uptime':
            return [c.td(TimeFrameGroup(pairs(a)).uptime())]
        if op == 'remove_short':
            g = TimeFrameGroup(pairs(a[1:]))
            keep = lobs(g)
            r = g.remove_shorter_than(a[0] * c.unit)
            assert keep == lobs(g)
            return lobs(r)
        raise RuntimeError('unknown op ' + op)

    out = []
    for o in ops:
        if o['op'] == 'begin':
            out.append(dict(op='begin', a=o['a'], res=[]))
            continue
        res = observe(lambda: step(o['op'], list(o['a'])), 10)
        e = dict(op=o['op'], a=list(o['a']), res=res)
        import vh
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out
