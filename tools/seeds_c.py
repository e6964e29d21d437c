"""Planted bugs, batch C: algorithms, experiments, metrics, keys, series, checkpoints, histogram, converters, window."""
ST, HA = 'nilmtk/feature_detectors/steady_states.py', 'nilmtk/disaggregate/hart_85.py'
CO, FH, MN = 'nilmtk/disaggregate/combinatorial_optimisation.py', 'nilmtk/disaggregate/fhmm_exact.py', 'nilmtk/disaggregate/mean.py'
API, LO, ME, EL = 'nilmtk/api.py', 'nilmtk/losses.py', 'nilmtk/metrics.py', 'nilmtk/electric.py'
UT, KEY, HI = 'nilmtk/utils.py', 'nilmtk/datastore/key.py', 'nilmtk/stats/histogram.py'
DIS, RC = 'nilmtk/disaggregate/disaggregator.py', 'nilmtk/dataset_converters/redd/convert_redd.py'
UK, DS = 'nilmtk/dataset_converters/ukdale/convert_ukdale.py', 'nilmtk/dataset.py'

PB = """
from h import *
from nilmtk.disaggregate.hart_85 import PairBuffer
def pairs(edges, size=20, tol=10, pct=.035, large=1000):
    b = PairBuffer([('power', 'active')], size, tol, pct, large, 2)
    for i, e in enumerate(edges):
        if len(b.transition_list) == size:
            b.clean_buffer()
        b.add_transition((i, e))
        b.pair_transitions()
    return [(r['T1 Time'], r['T2 Time']) for _, r in b.matched_pairs.iterrows()]
"""

SEEDS = [
 dict(id='C18-farther-match', property='C18',
  edits=[(HA, "                                    else (self._percent_tol * max(np.fabs([val[ix], compval[ix]])))\n",
              "                                    else max(self._min_tol, self._percent_tol * max(np.fabs([val[ix], compval[ix]])))\n")],
  needs='a large edge whose percentage of tolerance is below the minimum tolerance',
  breaks='large edges of unequal size are paired',
  demo=PB + """
assert pairs([1000, -1050], tol=100) == [], pairs([1000, -1050], tol=100)
assert pairs([1000, -1030], tol=100) == [(0, 1)]
"""),
 dict(id='C18-first-removed-edge', property='C18',
  edits=[(ST, "            steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0] == dataframe.iloc[0].name:\n",
              "            steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0]:\n")],
  needs='a series that starts below the noise level',
  breaks='its first real transition is not reported',
  demo="""
from h import *
from nilmtk.feature_detectors.steady_states import find_steady_states
_, t = find_steady_states(df(range(12), [0] * 4 + [200] * 4 + [0] * 4))
assert len(t) == 2, t
"""),
 dict(id='C19-nearest-below', property='C19',
  edits=[(UT, "    idx2 = np.clip(idx1 - 1, 0, len(known_array_sorted)-1)\n", "    idx2 = np.clip(idx1 - 1, 1, len(known_array_sorted)-1)\n")],
  needs='a reading between the lowest combination and the next, nearer to the lowest',
  breaks='the nearest combination is missed',
  demo="""
from h import *
from nilmtk.utils import find_nearest
i, r = find_nearest(np.array([0, 100, 300]), np.array([20, 260, 90]))
assert list(i) == [0, 2, 1], i
"""),
 dict(id='C19-second-training', property='C19',
  edits=[(CO, "                self.state_combinations.shape[1] != len(self.model)):\n", "                self.state_combinations.shape[1] < len(self.model) - 1):\n")],
  needs='one more appliance learnt after a first prediction',
  breaks='the new appliance takes part in no combination',
  demo="""
from h import *
from nilmtk.disaggregate import CO
c = CO({})
f = lambda v: [df(range(40), [v] * 40)]
c.partial_fit(f(100), [('a', f(100))])
c.disaggregate_chunk(f(100))
c.partial_fit(f(150), [('b', f(50))])
p = c.disaggregate_chunk(f(150))[0]
assert list(p.columns) == ['a', 'b'] and p.iloc[0].sum() == 150, p.head(1)
"""),
 dict(id='C20-decode-order', property='C20',
  edits=[(FH, "            factor = factor // len(centroids[appliance])\n\n            temp = int(states[i]) / factor\n            hmm_states[appliance][i] = temp % len(centroids[appliance])\n",
              "            factor = factor // len(centroids[appliance])\n\n            temp = int(states[i]) / factor\n            hmm_states[appliance][i] = min(temp, len(centroids[appliance]) - 1)\n")],
  needs='three appliances, or a state in which the first appliance is not off',
  breaks='appliances after the first get the wrong state',
  demo="""
from h import *
from nilmtk.disaggregate.fhmm_exact import decode_hmm
c = {'a': [0, 10], 'b': [0, 1, 2]}
s, p = decode_hmm(6, c, ['a', 'b'], range(6))
assert list(s['a']) == [0, 0, 0, 1, 1, 1] and list(s['b']) == [0, 1, 2, 0, 1, 2], s
"""),
 dict(id='C20-sort-rows-only', property='C20',
  edits=[(FH, "            A_new[i, j] = A[mapping[i], mapping[j]]\n", "            A_new[i, j] = A[mapping[i], mapping[j]] if num_elements == 2 else A[mapping[i], j]\n")],
  needs='an appliance with three or more states learnt out of order',
  breaks='transition probabilities lead to the wrong states',
  demo="""
from h import *
from nilmtk.disaggregate.fhmm_exact import sort_learnt_parameters
A = np.arange(9.).reshape(3, 3)
r = sort_learnt_parameters(np.array([.1, .2, .7]), np.array([[5.], [9.], [1.]]), np.ones((3, 1, 1)), A)
assert (r[3] == A[np.ix_([2, 0, 1], [2, 0, 1])]).all(), r[3]
"""),
 dict(id='C21-shared-counts', property='C21',
  edits=[(MN, "            app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})\n", "            app_dict = dict(self.model.get(app_name) or next(iter(self.model.values()), {'sum': 0,'n_elem': 0}))\n            if app_name not in self.model and len(self.model) < 2:\n                app_dict = {'sum': 0,'n_elem': 0}\n")],
  needs='three appliances', breaks='the third starts from the readings of the first',
  demo="""
from h import *
from nilmtk.disaggregate import Mean
f = lambda v: [df(range(4), [v] * 4)]
m = Mean({})
m.partial_fit(f(9), [('a', f(1)), ('b', f(2)), ('c', f(3))])
p = m.disaggregate_chunk(f(9))[0]
assert list(p.iloc[0]) == [1, 2, 3], p
"""),
 dict(id='C22-truth-of-first-building', property='C22',
  edits=[(API, "        for meter,data in test_submeters:\n", "        for meter,data in test_submeters[:len(self.appliances)]:\n")],
  needs='two test buildings without chunks',
  breaks='the predictions for the second building are compared with the truth of the first',
  demo="""
from h import *
from nilmtk.api import API
from nilmtk.disaggregate import Mean
bl = lambda: {'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2]}],
      'elec_meters': {1: {'device_model': 'dev', 'site_meter': True}, 2: {'device_model': 'dev', 'submeter_of': 1}}}
t = {(b, m): df(range(20), [100. * b + 10 * m] * 20) for b in (1, 2) for m in (1, 2)}
p = dataset(t, buildings={1: bl(), 2: bl()})
w = {'start_time': '2014-01-06 00:00:00', 'end_time': '2014-01-06 00:00:20'}
a = API({'power': {'mains': ['active'], 'appliance': ['active']}, 'sample_rate': 1, 'appliances': ['fridge'],
     'methods': {'Mean': Mean({})}, 'train': {'datasets': {'D': {'path': p, 'buildings': {1: dict(w)}}}},
     'test': {'datasets': {'D': {'path': p, 'buildings': {1: dict(w), 2: dict(w)}}}, 'metrics': ['mae']}})
got = [float(e.iloc[0, 0]) for e in a.errors]
assert abs(got[0]) < 1e-3 and abs(got[1] - 100) < 1e-3, got
"""),
 dict(id='C22-common-instants', property='C22',
  edits=[(API, "        mains_df = mains_df.loc[ix]\n        new_appliances_list = []\n", "        mains_df = mains_df.iloc[:len(ix)]\n        new_appliances_list = []\n")],
  needs='an appliance with a missing reading that is not the last',
  breaks='mains and appliances are on different instants',
  demo="""
from h import *
from nilmtk.api import API
a = API.__new__(API)
m, l = a.dropna(df(range(6), range(6)), [df(range(6), [0, np.nan, 2, 3, 4, 5])])
assert list(m.index) == list(l[0].index)
"""),
 dict(id='C23-relative-error-sign', property='C23',
  edits=[(LO, "    denominator = constant + app_pred\n", "    denominator = np.maximum(constant, app_pred)\n")],
  needs='any prediction above zero', breaks='the relative error is too large',
  demo="""
from h import *
from nilmtk.losses import relative_error
assert abs(relative_error(pd.Series([4., 0.]), pd.Series([1., 3.])) - (3 / 2. + 3 / 4.) / 2) < 1e-9
"""),
 dict(id='C23-rms-per-chunk', property='C23',
  edits=[(ME, "            n_samples += len(diff)\n", "            n_samples += len(aligned_meters_chunk)\n")],
  needs='periods in which only one of the meters has a reading',
  breaks='the root mean square error divides by samples that are not aligned',
  demo="""
from h import *
from nilmtk.metergroup import MeterGroup
from nilmtk.metrics import rms_error_power
s, r = hdf(), hdf()
for x in (s, r):
    x.put('/building1/elec/meter1', df(range(12), [9] * 12))
s.put('/building1/elec/meter2', df(range(12), [5] * 12))
r.put('/building1/elec/meter2', df([0, 1, 2, 3, 9, 10, 11], [3] * 7))
def g(x, d):
    k = [meter(x, '/building1/elec/meter%d' % i, instance=i, dataset=d, max_period=2,
               md={'site_meter': True} if i == 1 else {'submeter_of': 1}) for i in (1, 2)]
    return MeterGroup(k)
e = rms_error_power(g(s, 'P'), g(r, 'T'))
assert abs(e[2] - 2) < 1e-6, e
"""),
 dict(id='C25-utility-lost', property='C25',
  edits=[(KEY, "                assert split[2].startswith('meter')\n", "                assert split[2].startswith('meter')\n                self.utility = self.utility.lower()\n")],
  needs='a utility that is not written in lower case', breaks='the key does not parse back to the same text',
  demo="""
from h import *
from nilmtk.datastore import Key
assert str(Key('/building1/Gas/meter2')) == '/building1/Gas/meter2', str(Key('/building1/Gas/meter2'))
"""),
 dict(id='C26-first-chunk-empty', property='C26',
  edits=[(EL, "            if len(series) > 0:\n                chunks.append(series)\n", "            if len(series) > 1:\n                chunks.append(series)\n")],
  needs='a section with a single reading', breaks='that reading is lost',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
s = hdf()
s.put('/building1/elec/meter1', df([0, 1, 2, 50, 90, 91], range(6)))
m = meter(s)
x = m.power_series_all_data(sections=[TimeFrame(T(0), T(10)), TimeFrame(T(40), T(60)), TimeFrame(T(80), T(100))])
assert len(x) == 6, x
"""),
 dict(id='C27-prefix-anywhere', property='C27',
  edits=[(DIS, "entry.name.startswith(self.file_prefix) and entry.name.endswith(\".h5\")", "self.file_prefix in entry.name and entry.name.endswith(\".h5\")")],
  needs='a file of another model whose name contains the prefix', breaks='the file of the other model is deleted',
  demo="""
from h import *
from nilmtk.disaggregate import Disaggregator
os.chdir(D)
for f in ('dae-1.h5', 'old-dae-1.h5'):
    open(f, 'w').close()
class M(Disaggregator):
    MODEL_NAME = 'x'
    file_prefix = 'dae'
    def __init__(self): pass
M().clear_model_checkpoints()
assert not os.path.exists('dae-1.h5') and os.path.exists('old-dae-1.h5')
"""),
 dict(id='C28-range-of-later-chunk', property='C28',
  edits=[(HI, "                range = (range[0], chunk.max())\n", "                range = (range[0], max(range[0] + 1, chunk.max()))\n")],
  needs='an open upper end less than one above the given lower end', breaks='the bin edges differ from the range of the readings',
  demo="""
from h import *
from nilmtk.stats.histogram import histogram_from_generator
c, e = histogram_from_generator([pd.Series([0., .25, .5])], bins=2, range=(0, None))
assert list(e) == [0, .25, .5] and list(c) == [1, 2], (c, e)
"""),
 dict(id='C29-house-prefix', property='C29',
  edits=[(RC, "        filename = join(path, filename)\n" if False else "    filename = 'channel_{:d}.dat'.format(key_obj.meter)\n", "    filename = 'channel_{:d}.dat'.format(key_obj.meter % 100)\n")],
  needs='a house with more than a hundred channels', breaks='channel 101 gets the readings of channel 1',
  demo="""
from h import *
from nilmtk.dataset_converters.redd import convert_redd as cr
from nilmtk.datastore import Key
d = path('')
os.makedirs(os.path.join(d, 'house_1'))
for c in (1, 101):
    open(os.path.join(d, 'house_1', 'channel_%d.dat' % c), 'w').write('1300000000 %d\\n1300000001 %d\\n' % (c, c))
s = hdf()
cr._convert(d, s, lambda h, c: [('power', 'active')], 'US/Eastern')
assert s.store['/building1/elec/meter101'].iloc[0, 0] == 101
"""),
 dict(id='C29-duplicates-one-second', property='C29',
  edits=[(UK, "        df = _load_csv(filename, ONE_SEC_COLUMNS, TZ, drop_duplicates=drop_duplicates)\n", "        df = _load_csv(filename, ONE_SEC_COLUMNS, TZ)\n")],
  needs='one-second mains with a repeated time stamp', breaks='the repeated reading is kept',
  demo="""
from h import *
from nilmtk.dataset_converters.ukdale import convert_ukdale as cu
d = path('')
os.makedirs(os.path.join(d, 'house_1'))
open(os.path.join(d, 'house_1', 'mains.dat'), 'w').write('1300000000 1 2 3\\n1300000000 4 5 6\\n1300000001 7 8 9\\n')
s = hdf()
p = s.store.filename
cu._convert_one_sec_data(d, s, {(1, 3): ['active', 'apparent']}, True)
assert len(pd.read_hdf(p, '/building1/elec/meter3')) == 2
"""),
 dict(id='C30-window-zone', property='C30',
  edits=[(DS, "        self.store.window = TimeFrame(start, end, tz)\n", "        self.store.window = TimeFrame(start, end, tz if start is not None else None)\n")],
  needs='a window with only an end', breaks='the end is not interpreted in the time zone of the dataset',
  demo="""
from h import *
from nilmtk import DataSet
tz = 'US/Eastern'
t0 = pd.Timestamp('2014-01-06', tz=tz)
d = DataSet(dataset({(1, 1): df([t0 + pd.Timedelta(seconds=60 * i) for i in range(10)], range(10))}, timezone=tz, period=60, max_period=120))
d.set_window(end='2014-01-06 00:05:00')
n = sum(len(c) for c in d.buildings[1].elec[1].load())
assert n == 5, n
"""),
]
