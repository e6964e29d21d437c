"""C06: data stores remember exactly what was written."""
import copy
import glob
import os
import tempfile

import numpy as np
import pandas as pd

import vh
from vh import EXC, NEGINF, as_int, observe

KEYS = {1: '/building1/elec/meter1', 2: '/building1/elec/meter2',
        3: '/building2/elec/meter1'}
BASE = pd.Timestamp('2014-03-30 00:00:00', tz='UTC')


def block(r):
    idx = pd.DatetimeIndex([BASE + pd.Timedelta(seconds=600 * r),
                            BASE + pd.Timedelta(seconds=600 * r + 60)])
    df = pd.DataFrame({('power', 'active'): [10. * r, 10. * r + 1],
                       ('voltage', ''): [1000. + r, 2000. + r]},
                      index=idx, dtype='float32')
    df.columns = pd.MultiIndex.from_tuples(
        [('power', 'active'), ('voltage', '')],
        names=['physical_quantity', 'type'])
    if r % 5 == 2:              # a row without any reading
        df.iloc[1, :] = np.nan
    elif r % 5 == 4:            # a reading is missing
        df.iloc[0, 0] = np.nan
    return df


def metadata(b, v):
    if b == 0:
        return {'name': 'set%d' % v, 'n': v,
                'meter_devices': {'dev%d' % v: {'max_sample_period': v}}}
    return {'instance': b, 'n': v, 'rooms': [{'name': 'r%d' % v}],
            'elec_meters': {1: {'device_model': 'dev%d' % v,
                                'data_location':
                                '/building%d/elec/meter1' % b}}}


def meta_value(b, m):
    v = m.get('n', -1)
    return v if isinstance(v, int) and m == metadata(b, v) else vh.ODD


def rows(df):
    out = []
    if list(df.columns) != [('power', 'active'), ('voltage', '')]:
        return [vh.ODD]
    for ts, (p, v) in zip(df.index, df.values):
        t = (ts - BASE).total_seconds()
        r, x = divmod(int(t), 600)
        want = block(r).values[x // 60] if x in (0, 60) else [vh.ODD, 0]
        ok = np.array_equal(np.array([p, v], dtype='float32'), want, equal_nan=True)
        out.append(10 * r + x // 60 if ok else vh.ODD)
    return out


class Real(object):
    n = 0

    def opened(self, mode):
        """By its class, by the name of its format, or by what the name of the file ends in."""
        from nilmtk.datastore import HDFDataStore, CSVDataStore
        from nilmtk.utils import get_datastore
        Real.n += 1
        if Real.n % 3 == 0:
            return HDFDataStore(self.path, mode) if self.kind == 0 else CSVDataStore(self.path)
        store = get_datastore(self.path, ('HDF', 'CSV')[self.kind] if Real.n % 3 == 1 else None, mode)
        assert type(store) is (HDFDataStore, CSVDataStore)[self.kind]
        return store

    def __init__(self, kind, scratch, tmp=False):
        self.kind, self.scratch, self.tmp = kind, scratch, tmp
        from nilmtk.datastore import TmpDataStore
        if kind == 0 and tmp:
            self.store = TmpDataStore()
            self.path = self.store.full_path
        elif kind == 0:
            self.path = scratch.file('.h5')
            self.store = self.opened('w')
        else:
            self.path = os.path.join(scratch.dir(), 'x.csv')
            os.mkdir(self.path)
            self.store = self.opened('w')

    def reopen(self):
        if self.tmp:
            return
        self.store.close()
        self.store = self.opened('a')

    def close(self):
        import shutil
        self.store.close()
        if self.kind == 0:
            if os.path.exists(self.path):
                os.remove(self.path)
        else:
            shutil.rmtree(self.path, ignore_errors=True)


def tab(store, k):
    out = []
    for df in store.load(KEYS[k]):
        out += rows(df)
    return [len(out)] + out


def contents(store):
    """What a converted store holds, in the form of Contents in the spec."""
    out = [meta_value(0, store.load_metadata('/'))]
    blds = store.elements_below_key('/')
    for b in (1, 2):
        if 'building%d' % b in blds:
            out += [b, meta_value(b, store.load_metadata('/building%d' % b))]
        else:
            out.append(0)
    for k in (1, 2, 3):
        b, _, m = KEYS[k][1:].split('/')
        if b in blds and m in store.elements_below_key('/%s/elec' % b):
            out += tab(store, k)
        else:
            out.append(-2)
    return out


def execute(ops, scratch, tmp):
    from nilmtk.datastore.datastore import convert_datastore
    box = [None]

    def step(op, a):
        r = box[0]
        s = r.store
        if op == 'put':
            s.put(KEYS[a[0]], block(a[1]))
        elif op == 'append':
            s.append(KEYS[a[0]], block(a[1]))
        elif op == 'remove':
            s.remove(KEYS[a[0]])
        elif op == 'remove_building':
            s.remove('/building%d' % a[0])
        elif op == 'save':
            m = metadata(*a)
            try:
                s.save_metadata('/building%d' % a[0] if a[0] else '/', m)
            finally:
                # what the caller does with its own object is its own business
                m['n'] = -5
                m.setdefault('elec_meters', {})[7] = {}
        elif op == 'meta':
            m = s.load_metadata('/building%d' % a[0] if a[0] else '/')
            v = meta_value(a[0], m)
            m.clear()
            return [v]
        elif op == 'load':
            return tab(s, a[0])
        elif op == 'get':
            out = rows(s[KEYS[a[0]]])
            return [len(out)] + out
        elif op == 'buildings':
            return sorted(int(x[8:]) for x in s.elements_below_key())
        elif op == 'utilities':
            l = s.elements_below_key('/building%d' % a[0])
            return [1 if x == 'elec' else vh.ODD for x in l]
        elif op == 'meters':
            l = s.elements_below_key('/building%d/elec' % a[0])
            return sorted(int(x[5:]) for x in l)
        elif op == 'reopen':
            r.reopen()
        elif op == 'unopenable':
            from nilmtk.utils import get_datastore
            path = os.path.join(scratch.dir(), 'y.xml')
            x = get_datastore(*[(None,), (path, None, 'w'), (path, 'XML', 'w'),
                                (None, 'HDF')][a[0]])
            if x is None:
                return [vh.ODD]
            x.close()
        elif op == 'convert':
            o = Real(a[0], scratch)
            try:
                convert_datastore(s, o.store)
                o.reopen()
                return contents(o.store)
            finally:
                o.close()
        return [0]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            box[0] = Real(o['a'][0], scratch, tmp and o['a'][0] == 0)
            out.append(dict(o, res=[]))
            continue
        res = observe(lambda: step(o['op'], o['a']))
        if res and res[0] == EXC and o['op'] not in ('load', 'get'):
            res = [EXC, 0]
        e = dict(o, res=res)
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    box[0].close()
    return out


def rand_history(rng, kind):
    ops = [dict(op='begin', a=[kind])]
    for i in range(1, rng.randrange(8, 25)):
        o = rng.choice(['put', 'append', 'append', 'append', 'remove',
                        'remove_building', 'save', 'save', 'save', 'reopen',
                        'load', 'load', 'get', 'meta', 'buildings', 'meters',
                        'utilities', 'convert', 'unopenable'])
        if o in ('put', 'append'):
            a = [rng.randrange(1, 4), i]
        elif o in ('remove', 'load', 'get'):
            a = [rng.randrange(1, 4)]
        elif o in ('remove_building', 'meters', 'utilities'):
            a = [rng.randrange(1, 3)]
        elif o == 'save':
            a = [rng.randrange(3), i]
        elif o == 'meta':
            a = [rng.randrange(3)]
        elif o == 'convert':
            a = [rng.randrange(2)]
        elif o == 'unopenable':
            a = [rng.randrange(4)]
        else:
            a = []
        if o == 'remove_building' and rng.random() < .6:
            o, a = 'meta', [0]
        ops.append(dict(op=o, a=a))
    for k in (1, 2, 3):
        ops.append(dict(op='load', a=[k]))
    for b in (0, 1, 2):
        ops.append(dict(op='meta', a=[b]))
    # make the store convertible, whatever went before
    for b in (1, 2):
        ops.append(dict(op='append', a=[2 * b - 1, 100 + b]))
    for b in (0, 1, 2):
        ops.append(dict(op='save', a=[b, 200 + b]))
    ops.append(dict(op='convert', a=[rng.randrange(2)]))
    return ops


def check(c):
    from itertools import count
    counter = count()

    def run(ops):
        return execute(ops, c.scratch, next(counter) % 5 == 4)

    for kind in (0, 1):
        behs = c.model_check(
            'MCStore', constants={'Kind': kind, 'MaxLen': c.n(3, 4)},
            invariants=['LastWriteWins', 'HasIffWritten', 'MetaLastSaved', 'Emit'],
            properties=['IndependentKeys'],
            expect_actions=['Put', 'AppendRows', 'Remove', 'RemoveBuilding',
                            'Save', 'Reopen'],
            note='every history of %d operations, store kind %d' % (c.n(3, 4), kind))
        behs = c.rng.sample(behs, min(len(behs), c.n(500, 4000)))
        c.replay('store history (kind %d)' % kind, behs, run)
        cases = [rand_history(c.rng, kind) for _ in range(c.n(80, 1200))]
        c.validate('recorded store history (kind %d)' % kind, 'Store', cases, run)

    def leaves_nothing():
        from nilmtk.datastore import TmpDataStore
        s = TmpDataStore()
        path = s.full_path
        s.put(KEYS[1], block(1))
        there = os.path.exists(path)
        s.close()
        gone = not os.path.exists(path)
        s.close()      # closing twice is harmless
        return [int(there), int(gone)]
    got = observe(leaves_nothing)
    c.events += 1
    if got != [1, 1]:
        c.violation('temporary store: specified [1, 1], observed %s' % got,
                    dict(kind='direct', tb=vh.LAST_TB[0]))
