"""C33: disaggregating a building into a data store."""
import itertools
import warnings
from collections import OrderedDict

import numpy as np
import pandas as pd

import vh
import meter_driver as md
from resample_driver import RClock
from vh import NAN, observe, as_int

TYPES = {0: 'unknown', 1: 'fridge', 2: 'kettle', 3: 'light', 4: 'toaster', 5: 'freezer'}
CODE = {v: k for k, v in TYPES.items()}
P = ('power', 'active')


def parse(a):
    w = dict(kind=a[0], maxp=a[1], thr=a[2], noise=a[3])
    n = a[4]
    w['rows'] = [(a[5 + 2 * k], a[6 + 2 * k]) for k in range(n)]
    i = 5 + 2 * n
    w['ms'] = []
    nm = a[i]
    i += 1
    for _ in range(nm):
        inst, na = a[i:i + 2]
        apps = a[i + 2:i + 2 + na]
        i += 2 + na
        ns = a[i]
        w['ms'].append((inst, apps, a[i + 1:i + 1 + ns]))
        i += 1 + ns
    return w


def execute(ops, i, scratch):
    import nilmtk
    from nilmtk import DataSet, TimeFrame
    from nilmtk.datastore import HDFDataStore, TmpDataStore
    from nilmtk.legacy.disaggregate import (
        CombinatorialOptimisation, FHMM, Hart85)
    c = RClock(i)
    box = {}
    shared = nilmtk.STATS_CACHE
    nilmtk.STATS_CACHE = TmpDataStore()
    try:
        del nilmtk.global_meter_group.meters[:]
    except Exception:
        pass
    # the mains may be two meters, and the models learnt in another home
    two, away = i % 5 == 3, i % 3 == 1
    site = [1, 9, 12][i % 3]

    def begin(a):
        w = box['w'] = parse(a)
        box['pend'] = []
        gaps = [y[0] - x[0] for x, y in zip(w['rows'], w['rows'][1:])]
        # (sections of whole periods with data only)
        duo = two and all(g == 1 for g in gaps) and NAN not in [r[1] for r in w['rows']] and all(
            x % o['a'][0] == 0 and 0 <= x <= len(w['rows'])
            for o in ops if o['op'] == 'run' for x in o['a'][2:] or [-1])
        path = scratch.file('.h5')
        s = HDFDataStore(path, 'w')
        home = 2 if away else 1
        em = {1: {}, 2: {}}
        t = [c.ts(r[0]) for r in w['rows']]
        v = [np.nan if r[1] == NAN else float(r[1]) for r in w['rows']]
        halves = [[12 * (x // 24) for x in v], [x - 12 * (x // 24) for x in v]] if duo else [v]
        for k, vals in enumerate(halves):
            inst = site + k * 20
            key = '/building1/elec/meter%d' % inst
            s.put(key, md.dataframe(t, [[x] for x in vals], [P]))
            em[1][inst] = {'device_model': 'dev', 'data_location': key, 'site_meter': True}
        if away:
            s.put('/building2/elec/meter1', md.dataframe(t, [[x] for x in v], [P]))
            em[2][1] = {'device_model': 'dev', 'data_location': '/building2/elec/meter1', 'site_meter': True}
        apps = []
        for inst, kinds, states in w['ms']:
            key = '/building%d/elec/meter%d' % (home, inst)
            s.put(key, md.dataframe(
                t, [[float(states[(k + inst) % len(states)])] for k in range(len(t))], [P]))
            em[home][inst] = {'device_model': 'dev', 'data_location': key, 'submeter_of': 0}
            apps += [{'type': TYPES[k], 'instance': 1, 'meters': [inst]} for k in kinds]
        s.save_metadata('/', {'name': 'D', 'timezone': str(c.base.tz), 'meter_devices': {
            'dev': dict(md.device([P], w['maxp'] * c.unit, c.unit), model='dev')}})
        for b in (1, 2) if away else (1,):
            s.save_metadata('/building%d' % b, {
                'instance': b, 'elec_meters': em[b], 'appliances': apps if b == home else []})
        s.close()
        ds = box['ds'] = DataSet(path)
        box['mains'] = ds.buildings[1].elec.mains()
        box['elec'] = ds.buildings[home].elec
        meters = [ds.buildings[home].elec[m[0]] for m in w['ms']]
        if w['kind'] == 1:
            d = CombinatorialOptimisation()
            d.model = [{'states': np.array(m[2], dtype=np.int32), 'training_metadata': x}
                       for m, x in zip(w['ms'], meters)]
        elif w['kind'] == 2:
            from hmmlearn import hmm
            from nilmtk.legacy.disaggregate.fhmm_exact import create_combined_hmm
            d = FHMM()
            d.individual = OrderedDict()
            for m, x in zip(w['ms'], meters):
                n = len(m[2])
                h = hmm.GaussianHMM(n, 'full')
                h.startprob_ = np.full(n, 1. / n)
                h.transmat_ = np.full((n, n), 1. / n)
                h.n_features = 1
                h.means_ = np.array(m[2], dtype=float).reshape(-1, 1)
                h.covars_ = np.tile(5 * np.identity(1), (n, 1, 1))
                d.individual[x] = h
            d.meters = meters
            d.model = create_combined_hmm(d.individual)
        else:
            d = Hart85()
            d.columns = [P]
            d.state_threshold, d.noise_level = w['thr'], w['noise']
            d.centroids = pd.DataFrame([[float(m[2][0])] for m in w['ms']], columns=d.columns)
            d.model = dict(columns=d.columns, state_threshold=w['thr'], noise_level=w['noise'],
                           steady_states=None, transients=None, centroids=d.centroids)
        box['d'] = d

    def result():
        if 'out' not in box:
            box['out'] = DataSet(box['path'])
        return box['out']

    def series(e, inst):
        parts = [x for x in e[inst].load(columns=[P]) if len(x)]
        x = pd.concat(parts).iloc[:, 0]
        return [c.back(t, vh.NEGINF) for t in x.index], [as_int(y) for y in x.values]

    def step(op, a):
        w, d = box['w'], box['d']
        if op == 'run':
            d.MIN_CHUNK_LENGTH = a[1]
            secs = [TimeFrame(c.ts(a[k]), c.ts(a[k + 1])) for k in range(2, len(a), 2)]
            box['path'] = scratch.file('.h5')
            box.pop('out', None)
            s = HDFDataStore(box['path'], 'w')
            kw = {'sections': secs} if secs else {}
            try:
                d.disaggregate(box['mains'], s, sample_period=a[0] * c.unit, **kw)
                return [int(bool(s.store.keys()))]
            finally:
                s.close()
        if op == 'train':
            n = {}
            for m in box['elec'].submeters().meters:
                st = [x[2] for x in w['ms'] if x[0] == m.instance()][0]
                if len([x for x in st if x > 10]) > 2:
                    n[m] = len(st)
            d.model = []
            d.train(box['elec'], num_states_dict=n)
            out = []
            for m in sorted(d.model, key=lambda x: x['training_metadata'].instance()):
                out += [m['training_metadata'].instance(), len(m['states'])] + [as_int(x) for x in m['states']]
            return out
        if op == 'only':
            box['pend'] = list(zip(w['ms'], d.model))[a[0]:]
            w['ms'], d.model = w['ms'][:a[0]], d.model[:a[0]]
            return [1]
        if op == 'more':
            m, x = box['pend'].pop(0)
            meter = x['training_metadata']
            st = m[2]
            d.train_on_chunk(next(meter.power_series()), meter, 3,
                             len(st) - 1 if len([y for y in st if y > 10]) > 2 else None)
            w['ms'] = w['ms'] + [m]
            got = d.model[-1]
            return [got['training_metadata'].instance(), len(got['states'])] + [as_int(y) for y in got['states']]
        if op == 'reload':
            path = scratch.file('.pickle')
            d.export_model(path)
            n = type(d)()
            if w['kind'] == 1 and i % 2:      # into one that was used for other models
                n.MIN_CHUNK_LENGTH = 1
                n.model = [dict(x, states=x['states'] + 1) for x in d.model]
                n.disaggregate_chunk(pd.Series([1., 2.], index=[c.ts(0), c.ts(1)]))
            n.import_model(path)
            box['d'] = n
            return [1]
        with pd.HDFStore(box['path'], 'r') as raw:
            if not raw.keys():
                return [0] if op == 'estimates' else []
        ds = result()
        if set(ds.buildings) != {1}:
            return [vh.ODD]
        e = ds.buildings[1].elec
        if op == 'estimates':
            t, v = series(e, 1)
            cols = [series(e, k + 2 if w['kind'] == 3 else m[0]) for k, m in enumerate(w['ms'])]
            known = [k for k, y in enumerate(v) if y != NAN]
            rows = [[z, y] + [777777] * len(cols) for z, y in zip(t, v)]
            for n, (times, vals) in enumerate(cols):
                # all rows, or (factorial HMM) those where the mains is known
                at = known if w['kind'] == 2 else range(len(t))
                if times != [t[k] for k in at]:
                    return [vh.ODD]
                for k, y in zip(at, vals):
                    rows[k][2 + n] = y
            return [len(t)] + [y for r in rows for y in r]
        if op == 'metadata':
            out, f = [], None
            for m in sorted(e.meters, key=lambda x: x.instance()):
                f = TimeFrame.from_dict(m.metadata['statistics']['timeframe'])
                f = [c.back(f.start, vh.NEGINF), c.back(f.end, vh.POSINF)]
                p = m.device['sample_period'] / float(c.unit)
                if not out:
                    out = [as_int(p)] + f
                elif out[:3] != [as_int(p)] + f:
                    return [vh.ODD, 1]
                if m.is_site_meter():
                    up = 0
                else:
                    up = m.upstream_meter().instance()
                al = sorted((CODE.get(x.type['type'], vh.ODD), x.identifier.instance) for x in m.appliances)
                out += [m.instance(), up, len(al)] + [y for x in al for y in x]
                if m.available_columns() != [P]:
                    return [vh.ODD, 2]
            g = TimeFrame.from_dict(ds.metadata['timeframe'])
            if [c.back(g.start, vh.NEGINF), c.back(g.end, vh.POSINF)] != out[1:3]:
                return [vh.ODD, 3]
            return out
        return [vh.ODD]

    out = []
    try:
        for o in ops:
            if o['op'] == 'begin':
                begin(o['a'])
                out.append(dict(o, res=[]))
                continue
            e = dict(o, res=observe(lambda: step(o['op'], o['a'])))
            if vh.LAST_TB[0]:
                e['tb'] = vh.LAST_TB[0]
            out.append(e)
    finally:
        nilmtk.STATS_CACHE = shared
        for k in ('ds', 'out'):
            if k in box:
                try:
                    box[k].store.close()
                except Exception:
                    pass
    return out


def rand_case(rng):
    kind = rng.choice([1, 1, 2, 3])
    rows, t = [], 0
    train = kind == 1 and rng.random() < .4
    for _ in range(50 if train else rng.choice([6, 12, 20])):
        rows.append([t, 12 * rng.randrange(0, 40)])
        t += 1 if rng.random() < .9 or kind == 3 else rng.choice([2, 3, 7])
    if kind == 3:
        lv = [12 * rng.randrange(0, 40) for _ in range(3)]
        x = lv[0]
        for r in rows:
            if rng.random() < .35:
                x = rng.choice(lv)
            r[1] = x
    elif kind == 1 and rng.random() < .3:
        for r in rng.sample(rows, 1):
            r[1] = NAN
    a = [kind, rng.choice([1, 2, 4]), 20, 30, len(rows)] + [y for r in rows for y in r]
    nm = rng.choice([1, 2, 3])
    a.append(nm)
    levels = rng.sample(range(1, 40), nm)
    insts = rng.sample(range(2, 9), nm)
    for k in range(nm):
        apps = rng.sample([1, 2, 3, 4, 5], rng.choice([1, 1, 2, 0]))
        if kind == 3:
            st = [12 * levels[k]]
        else:
            st = sorted(set([0] + [rng.randrange(1, 300) for _ in range(rng.choice([1, 1, 2]))]))
        a += [insts[k], len(apps)] + apps + [len(st)] + st
    ops = [dict(op='begin', a=a)]
    step = train and nm > 1 and rng.random() < .6
    if step:
        ops.append(dict(op='only', a=[rng.randrange(1, nm)]))
        left = nm - ops[-1]['a'][0]
    elif train:
        ops.append(dict(op='train', a=[]))
    for k in range(rng.choice([2, 3]) if step else rng.choice([1, 2])):
        if step and k and left:
            left -= 1
            ops.append(dict(op='more', a=[]))
        if rng.random() < .3:
            ops.append(dict(op='reload', a=[]))
        cuts = sorted(rng.sample(range(-1, t + 3), 2 * rng.choice([1, 1, 2])))
        if rng.random() < .4:      # adjoining
            cuts = [y for x in zip(cuts, cuts[1:]) for y in x]
        if kind == 3:
            cuts = [y for x, z in zip(cuts[::2], cuts[1::2]) if any(x <= r[0] < z for r in rows) for y in (x, z)]
            if not cuts:
                continue
        if rng.random() < .2:
            cuts = []
        ops.append(dict(op='run', a=[rng.choice([1, 1, 1, 2, 3]), 1 if kind == 3 else rng.choice([1, 2, 4])] + cuts))
        ops.append(dict(op='estimates', a=[]))
        ops.append(dict(op='metadata', a=[]))
    return ops


def check(c):
    import nilmtk  # noqa
    from nilmtk.legacy.disaggregate import Hart85  # noqa
    md.fast_gc()
    counter = itertools.count()

    def run(ops):
        return execute(ops, next(counter), c.scratch)

    behs = c.model_check(
        'MCEstimates', constants={'MaxT': c.n(5, 7), 'Periods': '{1, 2}', 'Mins': '{1, 2, 3}'},
        invariants=['SameAsWhole', 'NoShort', 'Within', 'Covered', 'Unchanged', 'OffPossible', 'Emit'],
        coverage=False, expect_ops=['run', 'estimates', 'metadata'],
        note='all small mains records, models, periods and sections')
    behs = c.rng.sample(behs, min(len(behs), c.n(500, 6000)))
    c.validate('small records', 'Estimates',
               [[dict(op=e['op'], a=e['a']) for e in b] for b in behs], run)
    cases = [rand_case(c.rng) for _ in range(c.n(200, 3000))]
    c.validate('recorded runs', 'Estimates', cases, run)
