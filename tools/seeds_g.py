"""Planted bugs, batch G: descriptions of groups and their counterparts."""
MG = 'nilmtk/metergroup.py'
EM = 'nilmtk/elecmeter.py'
HOME = """
from h import *
from nilmtk import DataSet, MeterGroup
t = range(12)

def home(name='D', n=5, apps=(), meters=None, values=None):
    p = dataset({(1, k): df(t, values[k] if values else [10 * k] * 12) for k in range(1, n + 1)}, name=name, buildings={1: {
        'appliances': [dict(a) for a in apps],
        'elec_meters': {k: dict({'device_model': 'dev'}, **((meters or {}).get(k) or (
            {'site_meter': True} if k == 1 else {'submeter_of': 0}))) for k in range(1, n + 1)}}})
    return DataSet(p)

def app(type, instance, *meters, **kw):
    return dict(type=type, instance=instance, meters=list(meters), **kw)
"""

SEEDS = [
 dict(id='C35-nested-three', property='C35',
  edits=[(MG, "metergroup = self.from_list(meter_id.meters)", "metergroup = self.from_list(meter_id.meters[:2])")],
  needs='a nested group of three meters that does not exist yet in the group it is put together from',
  breaks='the counterpart of a three-phase appliance lacks one of its meters',
  demo=HOME + """
a = [app('electric oven', 1, 2, 3, 4), app('fridge', 1, 5)]
x, y = home('X', apps=a), home('Y', apps=a)
g = MeterGroup.from_other_metergroup(x.buildings[1].elec.submeters(), 'Y')
got = sorted(sorted(k.instance() for k in m.meters) if hasattr(m, 'meters') else [m.instance()] for m in g.meters)
assert got == [[2, 3, 4], [5]], got
"""),
 dict(id='C35-said-not-dominant', property='C35',
  edits=[(EM, """            for app in self.appliances:
                if app.metadata.get('dominant_appliance'):
                    return app
""", """            for app in self.appliances:
                if 'dominant_appliance' in app.metadata:
                    return app
""")],
  needs='an appliance whose metadata says it is not the dominant one, ahead of the one that is',
  breaks='the wrong appliance is taken for the dominant one and names the meter',
  demo=HOME + """
d = home(n=2, apps=[app('kettle', 1, 2, dominant_appliance=False), app('fridge', 1, 2, dominant_appliance=True)])
m = d.buildings[1].elec[2]
assert m.dominant_appliance().identifier.type == 'fridge'
assert m.label() == 'Fridge', m.label()
"""),
 dict(id='C35-site-before-name', property='C35',
  edits=[(EM, """        name = self.metadata.get("name")
        if name:
            label = name
        elif self.is_site_meter():
            label = 'Site meter'
""", """        name = self.metadata.get("name")
        if self.is_site_meter():
            label = 'Site meter'
        elif name:
            label = name
""")],
  needs='a site meter that has a name', breaks='the name of the meter is not shown',
  demo=HOME + """
d = home(n=2)
m = d.buildings[1].elec.mains()
assert m.label() == 'Site meter'
m.name = 'grid connection'
assert m.label() == 'Grid connection', m.label()
"""),
 dict(id='C35-site-meter-upstream', property='C35',
  edits=[(MG, """            upstream_meters.append(meter.upstream_meter())
""", """            if not meter.is_site_meter():
                upstream_meters.append(meter.upstream_meter())
        if not upstream_meters:
            return
""")],
  needs='a group of a site meter and submeters', breaks='the group reports an upstream meter although its members do not share it',
  demo=HOME + """
e = home(n=3).buildings[1].elec
assert MeterGroup([e[2], e[3]]).upstream_meter() == e[1]
assert MeterGroup([e[1]]).upstream_meter() is None
try:
    up = MeterGroup([e[1], e[2]]).upstream_meter()
except RuntimeError:
    pass
else:
    raise AssertionError('not refused: %s' % up)
"""),
 dict(id='C35-sorted-as-text', property='C35',
  edits=[(MG, "meter_sorting_key = lambda meter: meter.instance()", "meter_sorting_key = lambda meter: str(meter.instance())")],
  needs='more than nine meters', breaks='meter 10 is sorted before meter 2',
  demo=HOME + """
e = home(n=11).buildings[1].elec
g = MeterGroup(e.meters[::-1])
g.sort_meters()
assert list(g.instance()) == list(range(1, 12)), g.instance()
"""),
 dict(id='C35-all-site', property='C35',
  edits=[(MG, "return any([meter.is_site_meter() for meter in self.meters])", "return bool(self.meters) and all(\n            [meter.is_site_meter() for meter in self.meters])")],
  needs='a group with site meters and others', breaks='the group is not taken for a site meter',
  demo=HOME + """
e = home(n=3).buildings[1].elec
assert MeterGroup([e[2], e[1]]).is_site_meter()
assert not MeterGroup([e[2], e[3]]).is_site_meter()
assert not MeterGroup().is_site_meter()
"""),
 dict(id='C31-median-dropout', property='C31',
  edits=[(MG, "            return np.mean(dropout_rates)", "            return np.median(dropout_rates)")],
  needs='three or more meters with different dropout rates', breaks='the dropout rate of a group is not the mean of the rates of its meters',
  demo=HOME + """
full = list(range(20)); gaps = [k for k in full if k not in (3, 7, 8, 11, 15)]
p = dataset({(1, 1): df(full, [5.] * 20), (1, 2): df(full, [5.] * 20), (1, 3): df(gaps, [5.] * 15)})
e = DataSet(p).buildings[1].elec
assert abs(e.dropout_rate() - .25 / 3) < 1e-9, e.dropout_rate()
"""),
 dict(id='C11-samples-of-largest', property='C11',
  edits=[('nilmtk/stats/dropoutrateresults.py', "self._data['n_samples'].loc[i] += other._data['n_samples'].loc[i]",
          "self._data['n_samples'].loc[i] = max(self._data['n_samples'].loc[i], other._data['n_samples'].loc[i])")],
  needs='results of two meters unified for several stretches in which they have different numbers of samples',
  breaks='the weights of the stretches are wrong, and so is the combined rate',
  demo=HOME + """
from nilmtk.stats.dropoutrateresults import DropoutRateResults
from nilmtk.timeframe import TimeFrame
def res(*rows):
    r = DropoutRateResults()
    for k, (d, n) in enumerate(rows):
        r.append(TimeFrame(T(100 * k), T(100 * k + 50)), {'dropout_rate': d, 'n_samples': n})
    return r
a, b = res((.5, 10), (0., 10)), res((.5, 30), (0., 10))
a.unify(b)
assert abs(a.combined() - .5 * 40 / 60) < 1e-9, a.combined()
"""),
]
