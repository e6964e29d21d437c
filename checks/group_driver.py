"""Real buildings, groups and meters, imported from metadata."""
import itertools
from copy import deepcopy

import vh
from vh import observe

TYPES = {1: 'fridge', 2: 'freezer', 3: 'kettle', 4: 'electric oven',
         5: 'light', 9: 'gizmo', 101: 'refrigerator'}
CATS = {1: 'cold', 2: 'cooking', 3: 'lighting', 11: 'large', 12: 'small'}
ROOMS = {1: 'kitchen', 2: 'lounge', 3: 'attic'}
FIELDS = {1: 'instance', 2: 'building', 3: 'dataset', 4: 'room',
          5: 'sample_period', 6: 'site_meter', 7: 'type', 8: 'category',
          9: 'bands'}
BANDS = {1: 'a', 2: 'b', 3: 'c'}
_RUN = itertools.count(1)


def make_store(md):
    """A data store that holds metadata only."""
    from nilmtk.datastore import DataStore

    class MetadataStore(DataStore):
        def __init__(self):
            self._window = None

        def load_metadata(self, key='/'):
            return deepcopy(md[key])

        def elements_below_key(self, key='/'):
            return [k[1:] for k in md if k != '/']

        def close(self):
            pass
    return MetadataStore()


def parse(a):
    i, out = 0, []
    while i < len(a):
        b, d, nm = a[i:i + 3]
        i += 3
        ms = [a[i + 6 * k:i + 6 * k + 6] for k in range(nm)]
        i += 6 * nm
        na = a[i]
        i += 1
        apps = []
        for _ in range(na):
            t, inst, room, k = a[i:i + 4]
            apps.append((t, inst, room, list(a[i + 4:i + 4 + k])))
            i += 4 + k
        out.append((b, d, ms, apps))
    return out


class World(object):
    def __init__(self, a, variant):
        import nilmtk
        try:
            del nilmtk.global_meter_group.meters[:]
        except Exception:
            pass
        self.variant = variant
        self.names = {}
        self.run = next(_RUN)
        self.blds = parse(a)
        self.ds = {}
        for d in sorted(set(x[1] for x in self.blds)):
            self.load(d)

    def name(self, d):
        return 'DS%d' % d

    def load(self, d):
        from nilmtk import DataSet
        md = {'/': {'name': self.name(d), 'meter_devices': dict(
            ('model%d' % m, {'model': 'model%d' % m, 'sample_period': 10 * d + m,
                             'max_sample_period': 100, 'measurements': [],
                             'bands': {1: ['a', 'b'], 2: ['b', 'c']}.get(
                                 m, ['c'])})
            for m in (1, 2, 3))}}
        for b, dd, ms, apps in self.blds:
            if dd != d:
                continue
            em = {}
            for inst, site, sub, dis, room, model in ms:
                m = {'device_model': 'model%d' % model,
                     'data_location': '/building%d/elec/meter%d' % (b, inst)}
                if site:
                    m['site_meter'] = True
                if sub != 777:
                    m['submeter_of'] = sub
                if dis:
                    m['disabled'] = True
                if room:
                    m['room'] = ROOMS[room]
                em[inst] = m
            al = []
            for n, (t, inst, room, meters) in enumerate(apps):
                x = {'type': TYPES[t], 'instance': inst, 'meters': meters,
                     'original_name': str(len(apps) - n)}
                if room:
                    x['room'] = ROOMS[room]
                al.append(x)
            md['/building%d' % b] = {'instance': b, 'elec_meters': em,
                                     'appliances': al}
        self.ds[d] = DataSet().import_metadata(make_store(md))

    # -- projections ------------------------------------------------------
    def code(self, m):
        i = m.identifier
        d = int(i.dataset[2:])
        if m.store is not self.ds[d].store:
            return vh.ODD                   # belongs to a dataset closed since
        if (m.instance(), m.building(), m.dataset()) != tuple(i):
            return vh.ODD
        return d * 10000 + i.building * 100 + i.instance

    def flat(self, x):
        if x is None:
            return []
        if hasattr(x, 'meters'):
            return sorted(c for m in x.meters for c in self.flat(m))
        return [self.code(x)]

    def item(self, x):
        f = self.flat(x)
        return [len(f)] + f

    def coll(self, g):
        meters = g if isinstance(g, list) else g.meters
        items = sorted((self.item(m) for m in meters), key=lambda x: x[1:])
        return [len(items)] + sum(items, [])

    # -- operations -------------------------------------------------------
    def group(self, g):
        if g:
            b, d = self.blds[g - 1][:2]
            return self.ds[d].buildings[b].elec
        from nilmtk import MeterGroup
        out = MeterGroup()
        for k in range(len(self.blds)):
            out = out.union(self.group(k + 1))
        return out

    def crit(self, a):
        out = {}
        for f, v in zip(a[::2], a[1::2]):
            out[FIELDS[f]] = self.value(f, v)
        return out

    def value(self, f, v):
        return {3: lambda: self.name(v), 4: lambda: ROOMS[v],
                6: lambda: bool(v), 7: lambda: TYPES[v],
                8: lambda: CATS[v],
                9: lambda: BANDS[v] if v < 10 else
                [BANDS[v // 10], BANDS[v % 10]]}.get(f, lambda: v)()

    def ids(self, a):
        from nilmtk.elecmeter import ElecMeterID
        return [ElecMeterID(a[i], a[i + 1], self.name(a[i + 2]))
                for i in range(0, len(a), 3)]

    def do(self, op, a):
        from nilmtk import MeterGroup
        from nilmtk.elecmeter import ElecMeterID
        from nilmtk.metergroup import MeterGroupID
        if op == 'reload':
            self.load(self.blds[a[0] - 1][1])
            return [1]
        if op == 'buildings':
            bs = self.ds[a[0]].buildings
            for k, x in bs.items():
                if x.identifier != (k, self.name(a[0])) or \
                        self.group([y[:2] for y in self.blds].index(
                            (k, a[0])) + 1) is not x.elec:
                    return [vh.ODD]
            return sorted(bs)
        g = self.group(a[0])
        if op == 'members':
            return self.coll(g)
        if op == 'disabled':
            return self.coll(g.disabled_meters)
        if op == 'mains':
            return self.item(g.mains())
        if op == 'submeters':
            return self.coll(g.submeters())
        if op == 'int':
            return self.item(g[a[1]])
        if op == 'id':
            k = ElecMeterID(a[1], a[2], self.name(a[3]))
            return self.item(g[tuple(k) if self.variant % 2 else k])
        if op == 'ids':
            ids = self.ids(a[2:])
            if a[1] == 1:
                return self.item(g[MeterGroupID(meters=tuple(ids))])
            if a[1] == 2:
                return self.item(g[ids])
            return self.item(g[ElecMeterID(tuple(i.instance for i in ids),
                                           ids[0].building, ids[0].dataset)])
        if op == 'app':
            if a[2] == 1 and self.variant % 2:
                return self.item(g[TYPES[a[1]]])
            return self.item(g[TYPES[a[1]], a[2]])
        if op == 'dict':
            return self.item(g[self.crit(a[1:])])
        if op == 'pair':
            return self.coll(g[a[1], a[2]])
        if op == 'select':
            return self.coll(g.select(**self.crit(a[1:])))
        if op == 'selectapp':
            return self.coll(g.select_using_appliances(**self.crit(a[1:])))
        if op == 'groupby':
            names = dict((v, k) for k, v in
                         (ROOMS if a[1] == 4 else TYPES).items())
            res = g.groupby(FIELDS[a[1]]).meters
            out = [len(res)]
            for x in sorted(res, key=lambda m: names[m.name]):
                out += [names[x.name]] + self.coll(x)
            return out
        if op in ('selectany', 'selectappany'):
            kw = {FIELDS[a[1]]: [self.value(a[1], v) for v in a[2:]]}
            f = g.select if op == 'selectany' else g.select_using_appliances
            return self.coll(f(**kw))
        if op in ('union', 'equal'):
            x = g.select(**self.crit(a[1:3]))
            y = g.select_using_appliances(**self.crit(a[3:5]))
            if op == 'union':
                return self.coll(x.union(y))
            y.meters.reverse()
            if self.variant % 2:
                y.name = 'other'
            eq = (x == y)
            return [eq, eq == (not (x != y)) and
                    ((not eq) or hash(x) == hash(y))]
        if op == 'fromlist':
            n = a[1]
            ids = self.ids(a[2:2 + 3 * n])
            nested = self.ids(a[2 + 3 * n:])
            if nested:
                nested = tuple(nested)
                ids.append(MeterGroupID(meters=nested) if self.variant % 2
                           else nested)
            return self.coll(g.from_list(ids))
        if op == 'periods':
            def per(m):
                if hasattr(m, 'meters'):
                    out = []
                    for x in m.meters:
                        out += per(x)
                    if out and m.sample_period() != max(p for _, p in out):
                        return [(0, vh.ODD)]
                    return out
                return [(self.code(m), m.sample_period())]
            return [x for t in sorted(per(g)) for x in t]
        meters = {}

        def walk(x):
            for m in x:
                walk(m.meters) if hasattr(m, 'meters') else \
                    meters.__setitem__(m.instance(), m)
        walk(g.all_meters())
        if op == 'upstream':
            return self.item(meters[a[1]].upstream_meter())
        if op == 'wiring':
            out = []
            for u, m in g.wiring_graph().edges():
                out.append(self.item(m)[1:] + self.item(u))
            out.sort()
            return [len(out)] + [x for e in out for x in e[1:] + e[:1]]
        if op == 'downstream':
            return self.coll(g.meters_directly_downstream_of_mains())
        if op == 'altmains':
            g.use_alternative_mains()
            return [1]
        return [vh.ODD]


def execute(ops, variant, World=World):
    out = []
    w = None
    for o in ops:
        if o['op'] == 'begin':
            w = World(o['a'], variant)
            out.append(dict(o, res=[]))
            continue
        e = dict(o, res=observe(lambda: w.do(o['op'], o['a'])))
        if vh.LAST_TB[0]:
            e['tb'] = vh.LAST_TB[0]
        out.append(e)
    return out


# -- random worlds ----------------------------------------------------------
def rand_world(rng, tidy=False):
    a, blds = [], []
    pairs = rng.sample([(b, d) for b in (1, 2, 10) for d in (1, 2)],
                       rng.choice([1, 2, 2, 3]))
    for b, d in pairs:
        nm = rng.randrange(1, 8)
        insts = sorted(rng.sample(range(1, 12), nm))
        nest = []
        ms = []
        pool = list(insts)
        nsite = rng.choice([1, 1, 1, 2, 0] if not tidy else [1, 1, 2])
        site = set(rng.sample(insts, min(nsite, nm)))
        rest = [i for i in insts if i not in site]
        if len(rest) >= 2 and rng.random() < .5:
            nest = [rng.sample(rest, 2)]
            if len(rest) >= 5 and rng.random() < .4:
                nest.append(rng.sample([r for r in rest if r not in nest[0]],
                                       rng.choice([2, 3])))
        nested = set(sum(nest, []))
        for i in insts:
            x = rng.random()
            if i in site:
                sub = 777
            elif x < .45 or len(insts) == 1:
                sub = 0
            elif x < .93 or tidy:
                sub = rng.choice([j for j in insts if j != i])
            elif x < .95:
                sub = 777
            elif x < .97:
                sub = -1
            else:
                sub = rng.choice([12, 13])
            dis = int(i not in nested and
                      rng.random() < (.35 if i in site else .1))
            ms.append((i, int(i in site), sub, dis, rng.choice([0, 0, 1, 2]),
                       rng.choice([1, 2, 3])))
        apps = []
        seen = {}
        for ids in nest + [[i] for i in rest if i not in nested]:
            for _ in range(rng.choice([0, 1, 1, 2]) if len(ids) == 1 else 1):
                t = rng.choice([1, 1, 2, 3, 3, 4, 5, 9])
                if rng.random() < .1:
                    k = rng.randrange(1, 3)
                else:
                    seen[t] = seen.get(t, 0) + 1
                    k = seen[t]
                apps.append((t, k, rng.choice([0, 1, 2, 2]), ids))
        # every nested group needs one appliance of its own
        rng.shuffle(ms)
        rng.shuffle(apps)
        a += [b, d, nm]
        for m in ms:
            a += list(m)
        a.append(len(apps))
        for t, k, room, ids in apps:
            a += [t, k, room, len(ids)] + list(ids)
        blds.append((b, d, insts, [list(n) for n in nest], ms))
    return a, blds


def rand_crit(rng, fields):
    f = rng.choice(fields)
    v = {1: lambda: rng.randrange(1, 6), 2: lambda: rng.choice([1, 2, 10]),
         3: lambda: rng.choice([1, 2]), 4: lambda: rng.choice([1, 2, 3]),
         5: lambda: rng.choice([11, 12, 21, 22, 23]), 6: lambda: 1,
         7: lambda: rng.choice([1, 2, 3, 4, 5, 9, 101]),
         8: lambda: rng.choice([1, 2, 3, 11, 12]),
         9: lambda: rng.choice([1, 2, 3])}[f]()
    return [f, v]
