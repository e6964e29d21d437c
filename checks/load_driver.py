"""Drives real data stores with the operations of specification Load."""
import os

import pandas as pd

from vh import NEGINF, POSINF, as_int, observe
from tf_driver import Clock

COLS = [('power', 'active'), ('voltage', '')]
ASK = {0: None, 1: [COLS[0]], 2: [('voltage', None)], 3: [COLS[1], COLS[0]]}
KEYS = ['/building1/elec/meter1', 'building1/elec/meter1',
        '/building1/elec/meter1/']


def frame_of(a, clock):
    """a: flat <<t, v1, v2>> triples after the kind of store"""
    a = a[1:]
    idx = pd.DatetimeIndex([clock.ts(a[i]) for i in range(0, len(a), 3)])
    df = pd.DataFrame({COLS[0]: [a[i + 1] for i in range(0, len(a), 3)],
                       COLS[1]: [a[i + 2] for i in range(0, len(a), 3)]},
                      index=idx, dtype='float32')
    df.columns = pd.MultiIndex.from_tuples(
        COLS, names=['physical_quantity', 'type'])
    return df


class Stores(object):
    """Real stores holding one table each, made on demand."""

    def __init__(self, kind, scratch):
        self.kind = kind
        self.scratch = scratch
        self.cache = {}

    def get(self, a, clock_i):
        k = (tuple(a), clock_i)
        if k not in self.cache:
            clock = Clock(clock_i)
            if self.kind == 'hdf':
                from nilmtk.datastore import HDFDataStore
                store = HDFDataStore(self.scratch.file('.h5'), 'w')
            else:
                from nilmtk.datastore import CSVDataStore
                store = CSVDataStore(self.scratch.dir())
            store.put('/building1/elec/meter1', frame_of(a, clock))
            if len(self.cache) > 60:
                self.drop()
            self.cache[k] = store
        return self.cache[k]

    def drop(self):
        for s in self.cache.values():
            s.close()
        self.cache.clear()


def execute(ops, stores, clock_i, key_i=0):
    from nilmtk.timeframe import TimeFrame
    from nilmtk.timeframegroup import TimeFrameGroup
    c = Clock(clock_i)
    key = KEYS[key_i % (len(KEYS) if stores.kind == 'hdf' else 1)]
    store = [None]
    gen = [None]
    csv = stores.kind == 'csv'
    st = dict(cols=0, la=0)

    def rows(df, cols):
        want = ASK[cols] or COLS
        out = [len(df)]
        if len(df) == 0:
            return out
        if len(df.columns) != len(want):
            return [-606, len(df.columns)]
        for ts, row in zip(df.index, df.values):
            out.append(c.back(ts, NEGINF))
            out += [as_int(v) for v in row]
        names = [tuple(x) if isinstance(x, tuple) else (x,) for x in df.columns]
        if names != [tuple(p or '' for p in w) for w in want]:
            return [-607]
        return out

    def step(op, a):
        s = store[0]
        if op == 'window':
            s.window = TimeFrame(c.ts(a[0]), c.ts(a[1]))
            return [0]
        if op == 'open':
            st['cols'], st['la'] = a[1], a[2]
            secs, st['periods'] = None, False
            if len(a) > 3:
                secs = []
                for i in range(3, len(a), 3):
                    t = TimeFrame(c.ts(a[i]), c.ts(a[i + 1]))
                    t.include_end = bool(a[i + 2])
                    secs.append(t)
                wid = {(t.end - t.start) if t.start is not None and t.end is not None else None for t in secs}
                if (c.base.tz is None and key_i % 3 and len(wid) == 1 and None not in wid
                        and not any(t.include_end for t in secs)
                        and all(x.end == y.start for x, y in zip(secs, secs[1:]))):
                    st['periods'] = True
                    secs = pd.PeriodIndex([pd.Period(t.start, freq=wid.copy().pop()) for t in secs])
                elif a[0] % 2:
                    secs = TimeFrameGroup(secs)
            kw = {}
            if ASK[a[1]] is not None:
                kw['columns'] = ASK[a[1]]
            if a[2]:
                kw['n_look_ahead_rows'] = a[2]
            gen[0] = s.load(key, sections=secs, chunksize=a[0], **kw)
            return [0]
        if op == 'next':
            try:
                df = next(gen[0])
            except StopIteration:
                return [-1]
            tf = df.timeframe
            end = tf.end
            if st.get('periods') and end is not None and end.nanosecond == 999:
                end += pd.Timedelta(1, 'ns')      # a period ends a nanosecond before the next
            span = [c.back(tf.start, NEGINF), c.back(end, POSINF)]
            if csv and len(df) == 1 and tf.start < tf.end:
                # the shortest frame that holds a lone row
                span = [span[0], c.back(tf.end.floor('s'), POSINF)]
            out = rows(df, st['cols']) + span
            if len(df) and st['la']:
                if csv:
                    la = df.look_ahead
                    if len(la):
                        la = la.set_axis(pd.MultiIndex.from_tuples(COLS), axis=1)
                    out += rows(la, 0)
                else:
                    out += rows(df.look_ahead, st['cols'])
            return out
        if op == 'frame':
            tf = s.get_timeframe(KEYS[0])
            return [c.back(tf.start, NEGINF), c.back(tf.end, POSINF),
                    int(tf.empty)]
        if op == 'missing':
            secs = [TimeFrame(c.ts(0), c.ts(1))] if a else None
            list(s.load('/building1/elec/meter9', sections=secs))
            return [0]
        raise AssertionError(op)

    out = []
    import vh
    for o in ops:
        if o['op'] == 'begin':
            store[0] = stores.get(o['a'], clock_i)
            store[0].window = TimeFrame()
            out.append(dict(o, res=[]))
            continue
        res = observe(lambda: step(o['op'], o['a']))
        e = dict(o, res=res)
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out
