"""Planted bugs, batch D: derived figures, comparisons, and second ones elsewhere."""
EL, MG = 'nilmtk/electric.py', 'nilmtk/metergroup.py'
TG, GS, TE = 'nilmtk/timeframegroup.py', 'nilmtk/stats/goodsections.py', 'nilmtk/stats/totalenergy.py'

SEEDS = [
 dict(id='C31-ratio-of-sums', property='C31',
  edits=[(EL, """            return (total_energy[shared_ac_types] / 
                    other_total_energy[shared_ac_types]).mean()
""", """            return (total_energy[shared_ac_types].sum() /
                    other_total_energy[shared_ac_types].sum())
""")],
  needs='two meters which both record two AC types in different proportions',
  breaks='the proportion weighs the AC types by energy',
  demo="""
from h import *
import nilmtk
from nilmtk import DataSet
C = [('power', 'active'), ('power', 'apparent')]
d = DataSet(dataset({(1, 1): df(range(9), [[100, 400]] * 9, C), (1, 2): df(range(9), [[50, 100]] * 9, C)}))
e = d.buildings[1].elec
p = e[2].proportion_of_energy(e[1])
assert abs(p - .375) < 1e-6, p
"""),
 dict(id='C31-top-remainder', property='C31',
  edits=[(MG, "            remainder_ids = list(top_k_series[k:].index)\n", "            remainder_ids = list(top_k_series[k:][lambda x: x > 0].index)\n")],
  needs='asking for the top meters with the rest grouped, where one of the rest used nothing',
  breaks='that meter is in neither the top nor the rest',
  demo="""
from h import *
from nilmtk import DataSet
d = DataSet(dataset({(1, k): df(range(9), [v] * 9) for k, v in ((1, 90), (2, 50), (3, 0), (4, 10))}))
g = d.buildings[1].elec.select_top_k(2, group_remainder=True)
assert len(g.meters) == 3 and sorted(m.instance() for m in g.meters[-1].meters) == [3, 4], g.meters
"""),
 dict(id='C31-period-of-record', property='C31',
  edits=[(EL, "        periods = uptime_secs / offset_alias_to_seconds(offset_alias)\n", "        periods = max(1, uptime_secs / offset_alias_to_seconds(offset_alias))\n")],
  needs='a meter up for less than one of the periods asked for',
  breaks='its average energy per period is its energy so far',
  demo="""
from h import *
from nilmtk import DataSet
d = DataSet(dataset({(1, 1): df(range(0, 1801, 10), [1000] * 181)}))
e = d.buildings[1].elec[1]
a = e.average_energy_per_period('h')
assert abs(a['active'] - 1) < 1e-6, a
"""),
 dict(id='C32-mean-of-last-section', property='C32',
  edits=[(EL, "                n += len(power.index)\n                cumulator += power.sum()\n            return n, cumulator\n",
              "                n += len(power.index)\n                cumulator += power.mean() * len(power.index) if n > 1 else 0.\n            return n, cumulator\n")],
  needs='a section holding a single reading which comes first',
  breaks='that reading is left out of the mean',
  demo="""
from h import *
from nilmtk import DataSet
from nilmtk.timeframe import TimeFrame
x, y = [9, 1, 2, 3, 4, 2], [1, 3, 2, 5, 4, 3]
d = DataSet(dataset({(1, 1): df(range(6), x), (1, 2): df(range(6), y)}))
e = d.buildings[1].elec
r = e[1].correlation(e[2], sections=[TimeFrame(T(0), T(1)), TimeFrame(T(1), T(7))])
assert abs(r - np.corrcoef(x, y)[0, 1]) < 1e-6, r
"""),
 dict(id='C32-switch-down', property='C32',
  edits=[(EL, "            delta_power_absolute = delta_power.abs()\n", "            delta_power_absolute = delta_power.abs().where(power >= 0, 0).where(delta_power.shift(-1) != -delta_power, 0)\n")],
  needs='a change undone by the very next reading',
  breaks='a one-sample spike is not reported as switching on',
  demo="""
from h import *
from nilmtk import DataSet
v = [0, 0, 100, 0, 0, 0]
d = DataSet(dataset({(1, 1): df(range(6), [300] * 6), (1, 2): df(range(6), v), (1, 3): df(range(6), v)}))
s = d.buildings[1].elec.simultaneous_switches(40)
assert len(s) == 2 and set(s) == {2}, s
"""),
 dict(id='C32-activity-last-period', property='C32',
  edits=[(EL, "            hist += matrix.sum(axis=0)\n", "            hist += matrix[:max(1, len(matrix) - (on_chunk.iloc[-1] == 0))].sum(axis=0)\n")],
  needs='readings over several periods, the last part of the last period being off',
  breaks='activity of the last period is not counted',
  demo="""
from h import *
from nilmtk import DataSet
v = [100 if t % 60 < 10 else 0 for t in range(240)]
d = DataSet(dataset({(1, 1): df(range(240), v)}))
h = d.buildings[1].elec[1].activity_histogram(period='60s', bin_duration='10s', on_power_threshold=50)
assert list(h) == [4, 0, 0, 0, 0, 0], h
"""),
]
