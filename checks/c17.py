"""C17: activations, on/off, switching."""
import contextlib
import io
import itertools
import os

import numpy as np
import pandas as pd

import vh
from vh import NAN, NEGINF, observe, as_int


def execute(ops, scratch, i):
    import meter_driver as md
    from resample_driver import RClock
    from nilmtk.appliance import Appliance
    from nilmtk.electric import get_activations
    c = RClock(i)
    u = c.unit
    box = {}

    def types():
        Appliance.appliance_types.update({
            'vt 1': {'type': 'vt 1', 'on_power_threshold': 50},
            'vt 2': {'type': 'vt 2', 'on_power_threshold': 20,
                    'min_on_duration': 2 * u, 'min_off_duration': 3 * u},
            'vt 3': {'type': 'vt 3', 'min_on_duration': u},
            'vt 4': {'type': 'vt 4', 'min_off_duration': 2 * u}})

    def begin(a):
        Appliance()
        types()
        na = a[2]
        box['apps'] = []
        for k in range(na):
            t, thr = a[3 + 2 * k:5 + 2 * k]
            x = {'type': 'vt %d' % t, 'instance': k + 1}
            if thr != 777 and i % 2:
                x['on_power_threshold'] = thr
            elif thr != 777:
                x['nominal_consumption'] = {'on_power': thr}
            box['apps'].append(Appliance(x))
        rest = a[3 + 2 * na:]
        box['t'] = [c.ts(x) for x in rest[::2]]
        box['v'] = [np.nan if x == NAN else float(x) for x in rest[1::2]]
        box['sp'], box['maxp'] = a[0], a[1]

    def meter():
        from nilmtk.datastore import HDFDataStore
        if 'm' not in box:
            cols = [('power', 'active')]
            box['path'] = scratch.file('.h5')
            box['store'] = HDFDataStore(box['path'], 'w')
            box['store'].put('/building1/elec/meter1', md.dataframe(
                box['t'], [[v] for v in box['v']], cols))
            box['m'] = md.meter(box['store'], '/building1/elec/meter1',
                                md.device(cols, box['maxp'] * u, box['sp'] * u))
            box['m'].appliances = box['apps']
        return box['m']

    def series(acts, s=None):
        out = [len(acts)]
        for x in acts:
            if s is not None:
                k = s.index.get_loc(x.index[0]) if len(x) else 0
                if not s.iloc[k:k + len(x)].equals(x):
                    out.append(vh.ODD)
            out.append(len(x))
            for t, v in zip(x.index, x.values):
                out += [c.back(t, NEGINF), as_int(v)]
        return out

    def step(op, a):
        if op == 'activations':
            s = pd.Series(box['v'], index=pd.DatetimeIndex(box['t']))
            return series(get_activations(
                chunk=s, min_off_duration=a[1] * u, min_on_duration=a[2] * u,
                border=a[3], on_power_threshold=a[0]), s)
        m = meter()
        opt = lambda x, k=1: None if x == 777 else x * k
        if op == 'meter':
            return series(m.get_activations(
                min_off_duration=opt(a[1], u), min_on_duration=opt(a[2], u),
                border=a[3], on_power_threshold=opt(a[0])))
        if op == 'script':
            from nilmtk import DataSet
            from nilmtk.building import Building
            from nilmtk.metergroup import MeterGroup
            ds, b = DataSet(), Building()
            b.metadata = {'instance': 3, 'dataset': 'D'}
            b.elec = MeterGroup([m])
            ds.buildings[3] = b
            path = scratch.file('.h5')
            with contextlib.redirect_stdout(io.StringIO()):
                ds.get_activity_script(path)
            first = box['apps'][0].metadata
            with pd.HDFStore(path, 'r') as st:
                keys = st.keys()
                if keys not in ([], ['/building3/%s__%d' % (first['type'].replace(' ', '_'), first['instance'])]):
                    return [vh.ODD]
                s = st[keys[0]] if keys else []
            os.remove(path)
            if len(s) and (s.dtype != bool or not s.index.is_monotonic_increasing):
                return [vh.ODD]
            return [y for x in (sorted((c.back(t, NEGINF), int(v)) for t, v in s.items()) if len(s) else []) for y in x]
        if op == 'when_on':
            seen = {}
            for x in m.when_on(on_power_threshold=opt(a[0]), chunksize=a[1]):
                for t, v in zip(x.index, x.values):
                    t = c.back(t, NEGINF)
                    if seen.setdefault(t, v) != v:
                        return [vh.ODD]
            return [y for t in sorted(seen) for y in (t, int(seen[t]))]
        if op == 'switch':
            return [c.back(pd.Timestamp(t).tz_localize('UTC').tz_convert(
                c.base.tz) if c.base.tz else pd.Timestamp(t), NEGINF)
                for t in m.switch_times(a[0])]
        if op == 'base':
            return [as_int(m.vampire_power())]
        if op == 'defaults':
            return [as_int(m.on_power_threshold()),
                    as_int(m.min_on_duration(), 1. / u),
                    as_int(m.min_off_duration(), 1. / u)]
        return [vh.ODD]

    out = []
    for o in ops:
        if o['op'] == 'begin':
            begin(o['a'])
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    if 'store' in box:
        box['store'].close()
        os.remove(box['path'])
    return out


def rand_case(rng):
    sp = rng.choice([1, 1, 2, 3])
    a = [sp, rng.choice([sp, 2 * sp, 6]), rng.choice([0, 1, 1, 2])]
    for _ in range(a[2]):
        a += [rng.choice([1, 2, 3, 4]), rng.choice([777, 777, 60, 100, 5])]
    t = rng.randrange(0, 4)
    lo, hi = rng.choice([(0, 60), (0, 120), (0, 60), (-60, 120)])
    level = 0
    n = rng.randrange(2, 30)
    for _ in range(n):
        if rng.random() < .4:
            level = 1 - level
        v = NAN if rng.random() < .04 else \
            (rng.choice([hi, hi, 180]) if level else rng.choice([lo, lo, 0]))
        a += [t, v]
        t += rng.choice([1, 1, 1, sp, 2, 4])
    ops = [dict(op='begin', a=a)]
    for _ in range(4):
        ops.append(dict(op='activations', a=[
            rng.choice([60, 60, 100, 0, 30, 120]), rng.choice([0, 1, 2, 3, 5]),
            rng.choice([0, 1, 2, 3, 6]), rng.choice([0, 1, 1, 2, 5])]))
    ops.append(dict(op='defaults', a=[]))
    ops.append(dict(op='meter', a=[rng.choice([777, 777, 60, 100]),
                                   rng.choice([777, 777, 0, 3]),
                                   rng.choice([777, 777, 0, 3]),
                                   rng.choice([0, 1, 2])]))
    if a[2]:
        ops.append(dict(op='script', a=[]))
    ops.append(dict(op='when_on', a=[rng.choice([777, 60, 120]),
                                     rng.choice([2, 3, 7, 1000])]))
    ops.append(dict(op='switch', a=[rng.choice([40, 0, 60, 59])]))
    ops.append(dict(op='base', a=[]))
    return ops


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return execute(ops, c.scratch, next(counter))

    behs = c.model_check(
        'MCActivations',
        constants={'N': c.n(6, 7), 'Vals': '{0, 60, 777}', 'Gaps': '{1, 3}',
                   'Offs': c.n('{0, 2}', '{0, 1, 2, 3}'),
                   'Ons': c.n('{0, 2}', '{0, 1, 2, 4}'),
                   'Borders': c.n('{0, 1}', '{0, 1, 3}')},
        invariants=['BetweenOff', 'Apart', 'Complete', 'NoMissing', 'Emit'],
        coverage=False, expect_ops=['activations'],
        note='every on/off/missing pattern')
    c.replay('activations', c.rng.sample(behs, min(len(behs), c.n(15000, 150000))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(250, 4000))]
    c.validate('recorded activations', 'Activations', cases, run)
