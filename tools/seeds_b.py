"""Planted bugs, batch B: statistics cache, columns, groups, lookup, wiring, activations, resampling."""
EM, MG, EL = 'nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/electric.py'
RES, UT = 'nilmtk/results.py', 'nilmtk/utils.py'

SEEDS = [
 dict(id='C10-longer-section', property='C10',
  edits=[(RES, "            if row['end'] == section.end:\n", "            if row['end'] >= section.end:\n")],
  needs='a longer section with the same start asked for before',
  breaks='the statistic of the longer section is returned as well',
  demo="""
from h import *
import nilmtk
from nilmtk.datastore import TmpDataStore
from nilmtk.timeframe import TimeFrame
nilmtk.STATS_CACHE = TmpDataStore()
s = hdf()
s.put('/building1/elec/meter1', df(range(0, 100), [100] * 100))
m = meter(s)
sec = lambda a, b: dict(sections=[TimeFrame(T(a), T(b))])
long = m.total_energy(**sec(10, 60))['active']
short = m.total_energy(**sec(10, 30))['active']
assert short < long * .5, (short, long)
"""),
 dict(id='C13-list-of-unavailable', property='C13',
  edits=[(EM, "                if not columns:\n                    msg += \"AC type '{}' not available. \".format(ac_type)\n",
              "                if not columns and not isinstance(ac_type, list):\n                    msg += \"AC type '{}' not available. \".format(ac_type)\n")],
  needs='a list of AC types none of which is recorded, together with a quantity that is',
  breaks='all columns of the quantity are loaded instead of refusing',
  demo="""
from h import *
s = hdf()
s.put('/building1/elec/meter1', df([0, 1, 2], [1, 2, 3]))
m = meter(s)
try:
    got = list(next(m.load(physical_quantity='power', ac_type=['reactive'])).columns)
except Exception as e:
    got = type(e).__name__
assert got == 'MeasurementError', got
"""),
 dict(id='C13-energy-in-cumulative', property='C13',
  edits=[(EM, "                if m['physical_quantity'] == physical_quantity\n                and 'type' in m]\n",
              "                if m['physical_quantity'].endswith(physical_quantity)\n                and 'type' in m]\n")],
  needs='the best AC type of energy where cumulative energy has a better one',
  breaks='a column that is not recorded is asked for',
  demo="""
from h import *
cols = [('energy', 'reactive'), ('cumulative energy', 'active')]
s = hdf()
s.put('/building1/elec/meter1', df([0, 1, 2], [(1, 2), (3, 4), (5, 6)], cols))
m = meter(s, cols=cols)
got = list(next(m.load(physical_quantity='energy', ac_type='best')).columns)
assert got == [('energy', 'reactive')], got
"""),
 dict(id='C14-first-reading-zero', property='C14',
  edits=[(MG, "            where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)\n",
              "            where_both_are_nan = ~(cumulator_col > 0) & np.isnan(aligned)\n")],
  needs='a meter reading zero while a later meter has no reading',
  breaks='the group has no reading although one of its meters has',
  demo="""
from h import *
from nilmtk.metergroup import MeterGroup
s = hdf()
s.put('/building1/elec/meter1', df(range(0, 6), [0, 0, 5, 0, 0, 0]))
s.put('/building1/elec/meter2', df([0, 1, 5], [7, 7, 7]))
g = MeterGroup([meter(s, max_period=1), meter(s, '/building1/elec/meter2', instance=2, max_period=1)])
x = next(g.load(sample_period=1)).iloc[:, 0]
got = [None if np.isnan(v) else int(v) for v in x]
assert got[:5] == [7, 7, 5, 0, 0], got
"""),
 dict(id='C14-first-empty-meter', property='C14',
  edits=[(MG, "        except StopIteration:\n            continue\n\n        del generator\n", "        except StopIteration:\n            break\n\n        del generator\n")],
  needs='a CSV meter without rows in the section that is not the last of the group',
  breaks='the meters after it are left out of the sum',
  demo="""
from h import *
from nilmtk.metergroup import MeterGroup
from nilmtk.timeframe import TimeFrame
s = csv()
s.put('/building1/elec/meter1', df(range(0, 10), [1] * 10))
s.put('/building1/elec/meter2', df(range(100, 110), [1] * 10))
s.put('/building1/elec/meter3', df(range(0, 10), [2] * 10))
g = MeterGroup([meter(s, '/building1/elec/meter%d' % i, instance=i) for i in (1, 2, 3)])
x = next(g.load(sample_period=1, sections=[TimeFrame(T(2), T(6))])).iloc[:, 0]
assert list(x) == [3, 3, 3, 3], list(x)
"""),
 dict(id='C15-list-attribute', property='C15',
  edits=[(EM, "                if (isinstance(metadata_value, list) and\n                        not isinstance(v, list)):\n                    if v not in metadata_value:\n                        match = False\n",
              "                if isinstance(metadata_value, list):\n                    if v not in metadata_value:\n                        match = False\n")],
  needs='criteria whose value is the whole list of a device attribute, with another criterion',
  breaks='the matching meter is not selected',
  demo="""
from h import *
from nilmtk.metergroup import MeterGroup
from nilmtk.elecmeter import ElecMeter
s = hdf()
s.put('/building1/elec/meter1', df(range(0, 6), [1] * 6))
m = meter(s)
ElecMeter.meter_devices[m.metadata['device_model']]['bands'] = ['a', 'b']
assert m.matches({'bands': 'a', 'building': 1})
assert m.matches({'bands': ['a', 'b'], 'building': 1})
assert not m.matches({'bands': ['a'], 'building': 1})
"""),
 dict(id='C15-identifier-any-order', property='C15',
  edits=[(MG, "                if (set(group.identifier.meters) == key_meters):\n", "                if (set(group.identifier.meters) >= key_meters):\n")],
  needs='two nested groups one of which holds the meters of the other and more',
  breaks='the larger group is returned for the identifier of the smaller',
  demo="""
from h import *
from nilmtk.metergroup import MeterGroup
s = hdf()
ms = []
for i in (1, 2, 3, 4):
    s.put('/building1/elec/meter%d' % i, df(range(0, 6), [1] * 6))
    ms.append(meter(s, '/building1/elec/meter%d' % i, instance=i))
big, small = MeterGroup(ms[:3]), MeterGroup(ms[:2])
g = MeterGroup([big, small, ms[3]])
assert len(g[small.identifier].meters) == 2
assert len(g[big.identifier].meters) == 3
"""),
 dict(id='C16-upstream-in-building', property='C16',
  edits=[(EM, "        id_of_upstream = ElecMeterID(instance=submeter_of,\n                                     building=self.identifier.building,\n",
              "        id_of_upstream = ElecMeterID(instance=submeter_of,\n                                     building=upstream_meter_in_building or 1,\n")],
  needs='a building other than the first',
  breaks='the upstream meter is looked up in the first building',
  demo="""
from h import *
from nilmtk import DataSet
p = dataset({(b, m): df(range(5), [1] * 5) for b in (1, 2) for m in (1, 2)})
d = DataSet(p)
u = d.buildings[2].elec[2].upstream_meter()
assert u.identifier.building == 2, u.identifier
assert d.buildings[1].elec[2].upstream_meter().identifier.building == 1
"""),
 dict(id='C16-nested-meters-skipped', property='C16',
  edits=[(MG, "                    _build_wiring_graph(metergroup.meters)\n", "                    _build_wiring_graph(metergroup.meters[:1])\n")],
  needs='a building in which several meters form a nested group',
  breaks='edges to all but the first of the nested meters are missing',
  demo="""
from h import *
from nilmtk import DataSet
md = {1: {'appliances': [{'type': 'oven', 'instance': 1, 'meters': [2, 3]}],
          'elec_meters': {1: {'device_model': 'dev', 'site_meter': True}, 2: {'device_model': 'dev', 'submeter_of': 1},
                          3: {'device_model': 'dev', 'submeter_of': 1}}}}
p = dataset({(1, m): df(range(5), [1] * 5) for m in (1, 2, 3)}, buildings=md)
g = DataSet(p).buildings[1].elec.wiring_graph()
assert sorted(b.instance() for a, b in g.edges()) == [2, 3], list(g.edges())
"""),
 dict(id='C17-bridge-then-drop', property='C17',
  edits=[(EL, "            off_durations >= min_off_duration)[0]\n", "            off_durations > min_off_duration)[0]\n")],
  needs='an off-period of exactly the minimum off duration',
  breaks='two activations are reported as one',
  demo="""
from h import *
from nilmtk.electric import get_activations
t = range(0, 12)
x = df(t, [0, 9, 9, 0, 0, 0, 9, 9, 0, 0, 0, 0]).iloc[:, 0]
assert len(get_activations(x, min_off_duration=3)) == 2
assert len(get_activations(x, min_off_duration=4)) == 1
"""),
 dict(id='C17-border-before-start', property='C17',
  edits=[(EL, "        on -= 1 + border\n        if on < 0:\n            on = 0\n", "        on -= 1 + border\n        if on < 0:\n            on = off - 1 - border\n")],
  needs='a run so near the start of the series that the border does not fit before it',
  breaks='the start of the run is cut off',
  demo="""
from h import *
from nilmtk.electric import get_activations
x = df(range(0, 9), [0, 9, 9, 9, 9, 9, 9, 0, 0]).iloc[:, 0]
got = [len(a) for a in get_activations(x, border=1)]
assert got == [8], got
"""),
 dict(id='C10-joined-instances', property='C10',
  edits=[(EM, """            meter_str = "_".join([str(i) for i in (self.instance())])\n""", """            meter_str = "".join([str(i) for i in (self.instance())])\n""")],
  needs='a meter whose instance is a pair of numbers next to the meter numbered with the same digits',
  breaks='the statistics of one are returned for the other',
  demo="""
from h import *
import nilmtk
from nilmtk.datastore import TmpDataStore
nilmtk.STATS_CACHE = TmpDataStore()
s = hdf()
s.put('/building1/elec/meter1', df(range(0, 100), [100] * 100))
s.put('/building1/elec/meter12', df(range(0, 100), [50] * 100))
a, b = meter(s, instance=(1, 2)), meter(s, '/building1/elec/meter12', instance=12)
ea, eb = a.total_energy()['active'], b.total_energy()['active']
assert abs(ea - 2 * eb) < 1e-9, (ea, eb)
"""),
 dict(id='C24-floor-of-limit', property='C24',
  edits=[(EM, "                    np.ceil(self.device['max_sample_period'] / sample_period))\n", "                    np.floor(self.device['max_sample_period'] / sample_period))\n")],
  needs='a maximum sample period that is no multiple of the sample period asked for',
  breaks='the last bin within the allowed gap is left without a value',
  demo="""
from h import *
s = hdf()
s.put('/building1/elec/meter1', df([0, 3, 6, 30, 33], [1, 2, 3, 4, 5]))
m = meter(s, period=3, max_period=10)
x = next(m.load(sample_period=3)).iloc[:, 0]
got = [None if np.isnan(v) else int(v) for v in x]
assert got == [1, 2, 3, 3, 3, 3, 3, None, None, None, 4, 5], got
"""),
 dict(id='C24-duplicates-keep-last', property='C24',
  edits=[(UT, "        dups_in_index = data.index.duplicated(keep='first')\n", "        dups_in_index = data.index.duplicated(keep='last')\n")],
  needs='two readings with the same time stamp and different values',
  breaks='the second is used instead of the first', demo="""
from h import *
s = hdf()
s.put('/building1/elec/meter1', df([0, 1, 1, 2], [1, 2, 9, 3]))
m = meter(s)
x = next(m.load(sample_period=1)).iloc[:, 0]
assert list(x) == [1, 2, 3], list(x)
"""),
]
