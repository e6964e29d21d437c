"""C35: what groups say about themselves, and their counterparts elsewhere."""
import itertools
import re

import group_driver as gd
import vh

NAMES = {1: 'boiler', 2: 'Solar panel', 3: 'ev charger'}
KEYS = {4: 'room', 7: 'type', 10: 'n_ancestors', 11: 'synonyms'}


def first_up(s):
    return s[:1].upper() + s[1:]


PRETTY = {'': 0, 'Site meter': 1}
PRETTY.update((first_up(s), 50 + n) for n, s in NAMES.items())
PRETTY.update((first_up(s), 100 + n) for n, s in gd.TYPES.items())
CODE = dict((s, n) for n, s in gd.TYPES.items())
ONE = re.compile(r"\('([^']*)', (\d+)\)$")


def pretty(s):
    return PRETTY.get(s, vh.ODD)


class World(gd.World):
    def app(self, x):
        m = x.metadata
        return int(m['dataset'][2:]) * 10000 + m['building'] * 100 + \
            int(m['original_name'])

    def long(self, s):
        if s == 'SITE METER':
            return [-1]
        for n, v in NAMES.items():
            if s == v:
                return [-2, n]
        out = []
        # a list of appliances such as "('fridge', 1), ('KETTLE', 2)"
        parts = [x if x.endswith(')') else x + ')'
                 for x in s.split('), ')] if s else []
        for x in parts:
            m = ONE.match(x)
            if m is None:
                return [vh.ODD]
            t = m.group(1)
            out += [CODE.get(t.lower(), vh.ODD), int(m.group(2)),
                    t.isupper()]
        return [len(parts)] + out

    def meter(self, g, inst):
        found = []

        def walk(ms):
            for m in ms:
                walk(m.meters) if hasattr(m, 'meters') else \
                    found.append(m) if m.instance() == inst else None
        walk(self.group(g).all_meters())
        return found[0]

    def do(self, op, a):
        from nilmtk import MeterGroup
        from nilmtk.metergroup import \
            iterate_through_submeters_of_two_metergroups as pairs
        if op == 'rename':
            m = self.meter(a[0], a[1])
            m.name = NAMES[a[2]]
            return [1 if m.name == NAMES[a[2]] else vh.ODD]
        if op in ('mark', 'unmark'):
            m = self.meter(a[0], a[1])
            if a[2] > len(m.appliances):
                return [0]
            m.appliances[a[2] - 1].metadata['dominant_appliance'] = \
                op == 'mark'
            return [1]
        if op == 'dominant':
            x = self.meter(a[0], a[1]).dominant_appliance()
            return [] if x is None else [self.app(x)]
        if op == 'label':
            m = self.meter(a[0], a[1])
            if a[2]:
                return [pretty(m.label() if self.variant % 2
                               else m.label(pretty=True))]
            return self.long(m.label(pretty=False))
        if op == 'elecs':
            e = self.ds[a[0]].elecs()
            return sorted(k for k, x in self.ds[a[0]].buildings.items()
                          if any(x.elec is y for y in e)) \
                if len(e) == len(self.ds[a[0]].buildings) else [vh.ODD]
        if op in ('upall', 'onedom', 'issite'):
            g = MeterGroup([self.meter(a[0], i) for i in a[1:]])
            if op == 'issite':
                return [g.is_site_meter()]
            if op == 'upall':
                return self.item(g.upstream_meter())
            x = g.dominant_appliance()
            return [] if x is None else \
                [CODE[x.identifier.type], x.identifier.instance]
        if op in ('dominants', 'appliances', 'values', 'labels', 'where',
                  'sorted', 'counterpart', 'zip'):
            g = self.group(a[0])
        if op == 'dominants':
            return sorted(self.app(x) for x in g.dominant_appliances())
        if op == 'appliances':
            return sorted(self.app(x) for x in g.appliances)
        if op == 'values':
            v = g.values_for_appliance_metadata_key(
                KEYS[a[1]], only_consider_dominant_appliance=bool(a[2]))
            back = {4: dict((s, n) for n, s in gd.ROOMS.items()), 10: None
                    }.get(a[1], CODE)
            return sorted(x if back is None else back[x] for x in v)
        if op == 'labels':
            order = sorted(g.meters, key=lambda m: self.item(m)[1:])
            ids = [m.identifier for m in order]
            out = []
            for s in g.get_labels(ids):
                ps = s.split(', ')
                out += [len(ps)] + sorted(pretty(x) for x in ps)
            return out
        if op == 'where':
            def some(x):
                x = [] if x is None else list(x) if isinstance(x, tuple) \
                    else [x]
                return [len(x)] + sorted(x)
            names = g.dataset()
            names = names if isinstance(names, tuple) else \
                () if names is None else (names,)
            return (some(g.building())
                    + some(tuple(int(x[2:]) for x in names))
                    + [g.contains_meters_from_multiple_buildings()])
        if op == 'sorted':
            g = MeterGroup(list(g.meters)[::-1])
            if any(hasattr(m, 'meters') for m in g.meters):
                return [-98]
            g.sort_meters()
            return list(g.instance())
        if op == 'counterpart':
            return self.coll(MeterGroup.from_other_metergroup(
                g, self.name(a[1])))
        if op == 'zip':
            h = self.group(a[1])
            if isinstance(h.dataset(), tuple) or h.dataset() is None:
                return [-98] if g.submeters().meters else [0]
            out = sorted((self.item(x), self.item(y)) for x, y in pairs(g, h))
            out.sort(key=lambda p: p[0][1])
            return [len(out)] + [v for p in out for q in p for v in q]
        return super().do(op, a)


def rand_world(rng):
    """Often the second dataset describes the same homes."""
    a, blds = gd.rand_world(rng, tidy=True)
    if rng.random() < .75:
        parts = gd.parse(a)
        a, twins = [], []
        have = set((b, d) for b, d, _, _ in parts)
        for b, d, ms, apps in parts:
            if (b, 3 - d) in have:
                continue
            ms2 = [list(m) for m in ms]
            apps2 = [list(x) for x in apps]
            x = rng.random()
            nested = set(i for p in apps2 if len(p[3]) > 1 for i in p[3])
            if x < .25 and len(ms2) > 1:
                spare = [m for m in ms2 if m[0] not in nested and
                         not any(m[0] in p[3] for p in apps2)]
                if spare:
                    ms2.remove(rng.choice(spare))
            elif x < .4 and len(ms2) > 1:
                k = rng.randrange(len(apps2)) if apps2 else None
                if k is not None:
                    apps2.pop(k)
            for m in ms2:
                m[5] = rng.choice([1, 2, 3])
                m[4] = rng.choice([0, 1, 2])
            rng.shuffle(ms2)
            rng.shuffle(apps2)
            twins.append((b, 3 - d, ms2, apps2))
        a = []
        parts = parts + twins
        for b, d, ms, apps in parts:
            # an appliance on the mains
            apps = [list(x) for x in apps]
            if rng.random() < .4 and any(m[1] and not m[3] for m in ms):
                apps.insert(rng.randrange(len(apps) + 1),
                            [rng.choice([2, 4]), 7, rng.choice([0, 1]), [0]])
            a += [b, d, len(ms)] + [v for m in ms for v in m] + [len(apps)]
            for t, k, room, ids in apps:
                a += [t, k, room, len(ids)] + list(ids)
    return a, [(b, d, [m[0] for m in ms]) for b, d, ms, _ in gd.parse(a)]


OPS = ['rename', 'rename', 'mark', 'mark', 'unmark', 'dominant', 'dominants', 'onedom',
       'appliances', 'values', 'values', 'label', 'label', 'labels', 'labels',
       'where', 'upall', 'upall', 'issite', 'sorted', 'counterpart', 'counterpart',
       'zip', 'zip', 'elecs', 'reload', 'altmains', 'submeters', 'mains']


def rand_op(rng, blds):
    op = rng.choice(OPS)
    n = len(blds)
    g = rng.randrange(1, n + 1)
    insts = blds[g - 1][2]
    if op in ('rename', 'mark', 'unmark', 'dominant', 'label'):
        a = [g, rng.choice(insts)]
        if op != 'dominant':
            a.append({'rename': rng.choice([1, 2, 3]),
                      'mark': rng.choice([1, 2, 2]), 'unmark': rng.choice([1, 2]),
                      'label': rng.choice([0, 1])}[op])
        return dict(op=op, a=a)
    if op in ('upall', 'onedom', 'issite'):
        k = rng.choice([1, 2, 2, 3] if op == 'upall' else [0, 1, 2, 2, 3])
        return dict(op=op, a=[g] + rng.sample(insts, min(k, len(insts))))
    if op in ('dominants', 'appliances', 'labels', 'where', 'submeters',
              'mains', 'values'):
        if op == 'mains' and n > 1:
            a = [g]
        else:
            a = [rng.choice([0, g])]
        if op == 'values':
            a += [rng.choice([4, 7, 10, 11]), rng.choice([0, 1])]
        return dict(op=op, a=a)
    if op == 'elecs':
        return dict(op=op, a=[blds[g - 1][1]])
    if op == 'counterpart':
        return dict(op=op, a=[g, rng.choice([1, 2])])
    if op == 'zip':
        twin = [k + 1 for k, x in enumerate(blds)
                if x[0] == blds[g - 1][0] and k + 1 != g]
        return dict(op=op, a=[g, rng.choice(
            twin * 3 + list(range(0, n + 1)))])
    return dict(op=op, a=[g])


def rand_case(rng):
    a, blds = rand_world(rng)
    return [dict(op='begin', a=a)] + [rand_op(rng, blds) for _ in range(22)]


def check(c):
    import nilmtk  # noqa
    counter = itertools.count()

    def run(ops):
        return gd.execute(ops, next(counter), World)

    behs = c.model_check(
        'MCDescribe', constants={'Changes': c.n(1, 2)},
        invariants=['DominantsAreAppliances', 'NoneLost', 'ThereAndBack',
                    'NamesShow', 'Emit'],
        coverage=False,
        expect_ops=['rename', 'mark', 'dominant', 'dominants', 'appliances',
                    'labels', 'where', 'values', 'label', 'upall', 'onedom', 'issite',
                    'counterpart', 'zip', 'elecs'],
        note='a home described twice, every naming and marking')
    behs.sort(key=str)
    c.replay('naming, describing and carrying over',
             c.rng.sample(behs, min(len(behs), c.n(12000, 10 ** 6))), run)
    cases = [rand_case(c.rng) for _ in range(c.n(500, 8000))]
    c.validate('recorded descriptions', 'Describe', cases, run)
