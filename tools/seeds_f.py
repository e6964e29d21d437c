"""Planted bugs, batch F: training of event detectors, odds and ends."""
HA = 'nilmtk/disaggregate/hart_85.py'
CL = 'nilmtk/feature_detectors/cluster.py'
TRAIN = """
from h import *
from nilmtk.disaggregate import Hart85

def frame(v):
    return df(range(len(v)), v)

def series(*runs):
    return [x for v, n in runs for x in [v] * n]
"""

SEEDS = [
 dict(id='C34-off-size-only', property='C34',
  edits=[(CL, """                    (np.fabs(
                        row['T1 Active']) +
                        np.fabs(
                        row['T2 Active'])) /
                    2),""", """                    (np.fabs(
                        row['T1 Active']) +
                        np.fabs(
                        row['T1 Active'])) /
                    2),""")],
  needs='an appliance whose rise and fall differ', breaks='the level learnt is the size of the rise, not of the pair',
  demo=TRAIN + """
a = series((0, 4), (200, 4), (0, 4))
m = series((40, 4), (240, 4), (20, 4))
h = Hart85({})
h.partial_fit([frame(m)], [('fridge', [frame(a)])])
assert h.centroids.values.tolist() == [[210.0]], h.centroids
"""),
 dict(id='C34-longer-record', property='C34',
  edits=[(HA, """            gt_df=gt_df[:a]""", """            gt_df=gt_df[-a:]""")],
  needs='an appliance record that is longer than the mains',
  breaks='the record is compared from its end instead of its beginning and the wrong level can be chosen',
  demo=TRAIN + """
a = series((0, 4), (200, 10), (0, 16))
k = series((0, 20), (320, 3), (0, 7))
m = [x + y for x, y in zip(a, k)]
h = Hart85({})
h.partial_fit([frame(m)], [('fridge', [frame(a + [0] * 15)]), ('kettle', [frame(k)])])
lv = [h.centroids.values[h.best_matches[n]][0] for n in ('fridge', 'kettle')]
assert lv == [200.0, 320.0], lv
"""),
 dict(id='C18-pairs-of-last-look', property='C18',
  edits=[(HA, """            if self.matched_pairs.empty:
                self.matched_pairs = pd.DataFrame(""", """            if self.matched_pairs.empty or len(new_matched_pairs) > 1:
                self.matched_pairs = pd.DataFrame(""")],
  needs='two pairs that are found by one and the same look through the buffer',
  breaks='all pairs found before are forgotten',
  demo=TRAIN + """
from nilmtk.disaggregate.hart_85 import PairBuffer
b = PairBuffer([('power', 'active')], 20, 100, .035, 1000, 2)
for k, v in enumerate([500, -500]):
    b.add_transition((T(k), v))
b.pair_transitions()
for k, v in enumerate([200, -200, 900, -900]):
    b.add_transition((T(k + 2), v))
b.pair_transitions()
assert len(b.matched_pairs) == 3, b.matched_pairs
"""),
 dict(id='C34-match-of-last-appliance', property='C34',
  edits=[(HA, """            abs_value = np.abs(transient_tuple[1:])
                positive = transient_tuple[1] > 0
                abs_value_transient_minus_centroid = pd.DataFrame(
                    (self.centroids - abs_value).abs())
                if len(transient_tuple) == 2:
                    # 1d data
                    index_least_delta = (abs_value_transient_minus_centroid.idxmin().values[0])
                else:
                    # 2d data.
                    # Need to find absolute value before computing minimum
                    columns = abs""", """            abs_value = np.abs(transient_tuple[1:])
                positive = transient_tuple[1] > self.noise_level * 2
                abs_value_transient_minus_centroid = pd.DataFrame(
                    (self.centroids - abs_value).abs())
                if len(transient_tuple) == 2:
                    # 1d data
                    index_least_delta = (abs_value_transient_minus_centroid.idxmin().values[0])
                else:
                    # 2d data.
                    # Need to find absolute value before computing minimum
                    columns = abs""")],
  needs='an appliance whose level is between one and two noise levels',
  breaks='its rises count as falls when levels are matched with appliances',
  demo=TRAIN + """
a = series((0, 4), (100, 6), (0, 4), (100, 6), (0, 20))
k = series((0, 24), (125, 6), (0, 10))
m = [x + y for x, y in zip(a, k)]
h = Hart85({})
h.partial_fit([frame(m)], [('fridge', [frame(a)]), ('freezer', [frame(k)])], min_tolerance=10)
lv = [h.centroids.values[h.best_matches[n]][0] for n in ('fridge', 'freezer')]
assert lv == [100.0, 125.0], lv
"""),
 dict(id='C04-period-end', property='C04',
  edits=[('nilmtk/timeframegroup.py', """            timeframes = [TimeFrame(period.start_time, period.end_time)
""", """            timeframes = [TimeFrame(period.start_time, period.end_time.floor('s'))
""")],
  needs='sections given as periods and a reading in the last second of one',
  breaks='the reading in the last second of every period is not loaded',
  demo="""
from h import *
from nilmtk.datastore import HDFDataStore
p = path()
s = HDFDataStore(p, 'w')
d = df(range(10), range(10))
d.index = d.index.tz_localize(None)
s.put('/building1/elec/meter1', d)
x = pd.period_range(d.index[0], periods=2, freq='5s')
got = [list(c.iloc[:, 0]) for c in s.load('/building1/elec/meter1', sections=x)]
assert got == [[0, 1, 2, 3, 4], [5, 6, 7, 8, 9]], got
"""),
]
