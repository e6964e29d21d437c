HDF = 'nilmtk/datastore/hdfdatastore.py'
CSV = 'nilmtk/datastore/csvdatastore.py'
GS = 'nilmtk/stats/goodsections.py'
TE = 'nilmtk/stats/totalenergy.py'
DR = 'nilmtk/stats/dropoutrate.py'
RES = 'nilmtk/results.py'
NODE = 'nilmtk/node.py'
SEEDS = [
 dict(id='C04-empty-section-ends-load', property='C04',
  edits=[(HDF, """                data.timeframe = section
                yield data
                continue

            terms""", """                data.timeframe = section
                yield data
                break

            terms""")],
  needs='a list of sections in which one outside the window comes before one inside it',
  breaks='the sections after it are not loaded',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
s = hdf()
s.put('/building1/elec/meter1', df(range(20), range(20)))
s.window = TimeFrame(T(5), T(15))
got = list(s.load('/building1/elec/meter1', sections=[TimeFrame(T(0), T(3)), TimeFrame(T(6), T(9))]))
assert sum(len(x) for x in got) == 3, got
"""),
 dict(id='C04-look-ahead-shared-row', property='C04',
  edits=[(HDF, """                        look_ahead_start_i = chunk_end_i
                        look_ahead_end_i = look_ahead_start_i + n_look_ahead_rows
""", """                        look_ahead_start_i = min(chunk_end_i, section_end_i)
                        look_ahead_end_i = look_ahead_start_i + n_look_ahead_rows
""")],
  needs='look-ahead rows asked for on the last chunk of a section',
  breaks='the look-ahead begins with the last row of the chunk itself',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
s = hdf()
s.put('/building1/elec/meter1', df(range(20), range(20)))
got = list(s.load('/building1/elec/meter1', sections=[TimeFrame(T(2), T(9))], chunksize=3, n_look_ahead_rows=2))
for x in got:
    n = int(x.iloc[-1, 0])
    assert list(x.look_ahead.iloc[:, 0]) == [n + 1, n + 2], (x, x.look_ahead)
"""),
 dict(id='C04-first-span-start', property='C04',
  edits=[(HDF, """        if chunk_i == 0:
            start = window_intersect.start
    elif""", """        if chunk_i == 0 and window_intersect.end is not None:
            start = window_intersect.start
    elif""")],
  needs='a section without an end, beginning between two stored rows, loaded in several chunks',
  breaks='the span of the first chunk leaves out the time before its first row',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
s = hdf()
s.put('/building1/elec/meter1', df(range(0, 40, 2), range(20)))
got = [x.timeframe for x in s.load('/building1/elec/meter1', sections=[TimeFrame(T(3), None)], chunksize=3)]
assert got[0].start == T(3), got
"""),
 dict(id='C05-lone-late-row', property='C05',
  edits=[(CSV, """                if len(subchunk)>0:
                    subchunk_end""", """                if len(subchunk)>(1 if chunk_idx else 0):
                    subchunk_end""")],
  needs='a chunk after the first with exactly one row inside the section',
  breaks='that row is not delivered',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
s = csv()
s.put('/building1/elec/meter1', df(range(12), range(12)))
got = pd.concat(list(s.load('/building1/elec/meter1', sections=[TimeFrame(T(1), T(7))], chunksize=3)))
assert list(got.iloc[:, 0]) == [1, 2, 3, 4, 5, 6], got
"""),
 dict(id='C05-window-start-row', property='C05',
  edits=[(CSV, "(chunk.index>=window_intersect.start))", "(chunk.index>=window_intersect.start) if chunk_idx == 0 else (chunk.index>window_intersect.start))")],
  needs='a row exactly at the start of a section which is not in the first chunk of the file',
  breaks='that row is not delivered',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
s = csv()
s.put('/building1/elec/meter1', df(range(12), range(12)))
got = pd.concat(list(s.load('/building1/elec/meter1', sections=[TimeFrame(T(4), T(9))], chunksize=3)))
assert list(got.iloc[:, 0]) == [4, 5, 6, 7, 8], got
"""),
 dict(id='C06-append-drops-empty-rows', property='C06',
  edits=[(HDF, "        self.store.append(key=key, value=value)\n", "        self.store.append(key=key, value=value, dropna=True)\n")],
  needs='appending rows in which every reading is missing',
  breaks='those rows are lost',
  demo="""
from h import *
s = hdf()
k = '/building1/elec/meter1'
s.put(k, df([0, 1], [1, 2]))
s.append(k, df([2, 3], [np.nan, 4]))
assert len(s[k]) == 4, s[k]
"""),
 dict(id='C06-metadata-shared', property='C06',
  edits=[(HDF, "metadata = deepcopy(node._v_attrs.metadata)\n        return", "metadata = dict(node._v_attrs.metadata)\n        return")],
  needs='changing a nested part of loaded metadata and loading it again',
  breaks='metadata that was never saved is returned',
  demo="""
from h import *
s = hdf()
s.save_metadata('/', {'name': 'x', 'meter_devices': {'m': {'sample_period': 6}}})
s.load_metadata()['meter_devices']['m']['sample_period'] = 99
assert s.load_metadata()['meter_devices']['m']['sample_period'] == 6, s.load_metadata()
"""),
 dict(id='C06-convert-one-utility', property='C06',
  edits=[('nilmtk/datastore/datastore.py', """                if meter == 'cache':
                    continue
""", """                if meter.startswith('c') or not meter.endswith(tuple('123456789')):
                    continue
""")],
  needs='converting a store with a meter whose number ends in 0',
  breaks='the rows of meter 10, 20, ... are not converted',
  demo="""
from h import *
from nilmtk.datastore import convert_datastore if False else HDFDataStore
from nilmtk.datastore.datastore import convert_datastore
a, b = hdf(), csv()
for m in (1, 10):
    a.put('/building1/elec/meter%d' % m, df([0, 1], [m, 2]))
a.save_metadata('/', {'name': 'x', 'meter_devices': {}})
a.save_metadata('/building1', {'instance': 1, 'elec_meters': {}})
convert_datastore(a, b)
assert sorted(b.elements_below_key('/building1/elec')) == ['meter1', 'meter10']
""".replace('convert_datastore if False else ', '')),
 dict(id='C07-look-ahead-gap', property='C07',
  edits=[(GS, "    elif look_ahead_valid and look_ahead_gap <= max_sample_period:\n", "    elif look_ahead_valid and look_ahead_gap < max_sample_period:\n")],
  needs='a chunk whose last sample begins a good section, the next sample being exactly the maximum sample period later',
  breaks='the good section begins one sample late or the sections no longer match',
  demo="""
from h import *
from nilmtk.stats.goodsections import get_good_sections
d = df([0, 10, 20, 70], range(4))
got = get_good_sections(d, 10, df([80, 90], [4, 5]))
assert [(t.start, t.end) for t in got] == [(T(0), T(20)), (T(70), None)], got
"""),
 dict(id='C07-unsorted-index', property='C07',
  edits=[(GS, "    index = df.dropna().sort_index().index\n", "    index = df.dropna(how='all').sort_index().index\n")],
  needs='a meter with two measurements one of which is missing for longer than the maximum sample period',
  breaks='the incomplete samples count as samples, so the gap is not seen',
  demo="""
from h import *
s = hdf()
cols = [P, ('voltage', '')]
s.put('/building1/elec/meter1', df([0, 10, 20, 30, 40], [(1, 1), (1, 1), (1, np.nan), (1, 1), (1, 1)], cols))
m = meter(s, max_period=10, cols=cols)
got = [(t.start, t.end) for t in m.good_sections()]
assert got == [(T(0), T(10)), (T(30), T(40))], got
"""),
 dict(id='C08-preference', property='C08',
  edits=[(TE, """            if pq in physical_quantities:
                selected_columns.append((pq, ac_type))
                break
""", """            if pq in physical_quantities:
                selected_columns.append((pq, ac_type))
                if pq != "energy":
                    break
""")],
  needs='a meter that records both energy and power of the same AC type',
  breaks='the total is computed from power although energy is recorded',
  demo="""
from h import *
s = hdf()
cols = [('energy', 'active'), P]
s.put('/building1/elec/meter1', df([0, 1, 2], [(1, 5000), (2, 5000), (3, 5000)], cols))
m = meter(s, cols=cols)
e = m.total_energy()['active']
assert abs(e - 6) < 1e-6, e
"""),
 dict(id='C08-clip-after', property='C08',
  edits=[(TE, "    timedelta_secs = timedelta_secs.clip(max=max_sample_period)\n", "    timedelta_secs = np.where(timedelta_secs > 2 * max_sample_period, max_sample_period, timedelta_secs)\n")],
  needs='two readings between one and two maximum sample periods apart',
  breaks='the elapsed time is not capped',
  demo="""
from h import *
s = hdf()
s.put('/building1/elec/meter1', df([0, 10, 25], [3600, 3600, 3600]))
e = meter(s, max_period=10).total_energy(full_results=False)['active']
assert abs(e - 0.02) < 1e-9, e
"""),
 dict(id='C09-missing-samples', property='C09',
  edits=[(DR, "                                 'n_samples': len(chunk)})\n", "                                 'n_samples': len(chunk.dropna())})\n")],
  needs='sections of unequal dropout one of which contains missing readings',
  breaks='the combined rate is weighted differently',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
s = hdf()
t = list(range(0, 10)) + list(range(20, 40, 2))
s.put('/building1/elec/meter1', df(t, [np.nan if 0 < x < 6 else 1 for x in t]))
m = meter(s, period=1, max_period=10)
r = m.dropout_rate(ignore_gaps=False, sections=[TimeFrame(T(0), T(10)), TimeFrame(T(20), T(40))])
want = ((1 - 10 / 10.) * 10 + (1 - 10 / 19.) * 10) / 20
assert abs(r - want) < 1e-6, (r, want)
"""),
 dict(id='C09-minimum', property='C09',
  edits=[(DR, "    if len(data) < MIN_N_SAMPLES:\n", "    if len(data.dropna()) < MIN_N_SAMPLES:\n")],
  needs='a stretch with five or more samples, some without a reading',
  breaks='the rate is undefined although there are enough samples',
  demo="""
from h import *
from nilmtk.stats.dropoutrate import get_dropout_rate
r = get_dropout_rate(df(range(6), [1, np.nan, 2, np.nan, 3, 4]), 1)
assert r == 0, r
"""),
 dict(id='C11-sum-of-some', property='C11',
  edits=[(RES, "        return self._data[self._columns_with_end_removed()].sum()\n", "        return self._data[self._columns_with_end_removed()].sum(skipna=False)\n")],
  needs='entries that do not all have the same AC types',
  breaks='the combined value of an AC type is undefined as soon as one entry lacks it',
  demo="""
from h import *
from nilmtk.stats.totalenergyresults import TotalEnergyResults
from nilmtk.timeframe import TimeFrame
a = TotalEnergyResults()
a.append(TimeFrame(T(0), T(100)), {'active': 1.})
a.append(TimeFrame(T(100), T(200)), {'active': 2., 'reactive': 4.})
c = a.combined()
assert c['active'] == 3 and c['reactive'] == 4, c
"""),
 dict(id='C12-clip-by-quantity', property='C12',
  edits=[('nilmtk/preprocessing/clip.py', "                lower = lower if self.lower is None else self.lower\n", "                lower = self.lower or lower\n")],
  needs='a clip node whose own lower limit is zero while the device has another',
  breaks='readings are clipped to the device limit instead of the limit of the node',
  demo="""
from h import *
from nilmtk.preprocessing import Clip
from nilmtk.node import Node
s = hdf()
s.put('/building1/elec/meter1', df([0, 1, 2], [-5, 3, 20]))
m = meter(s, limits={P: {'lower_limit': 10, 'upper_limit': 1000}})
c = Clip(Node(m, generator=m.load()))
c.lower = 0
got = list(pd.concat(list(c.process())).iloc[:, 0])
assert got == [0, 3, 20], got
"""),
 dict(id='C12-dry-run-order', property='C12',
  edits=[(NODE, """            except KeyError:
                msg = ("Requires '{}={}' but '{}' not in state dict."
                       .format(key, value, key))
                unsatisfied.append(msg)
""", """            except KeyError:
                msg = ("Requires '{}={}' but '{}' not in state dict."
                       .format(key, value, key))
                if value is not None:
                    unsatisfied.append(msg)
""")],
  needs='a requirement whose required value is None on a property that is absent',
  breaks='the node runs although the property it requires is missing',
  demo="""
from h import *
from nilmtk.node import find_unsatisfied_requirements as f
assert f({'statistics': {}}, {'statistics': {'dropout_rate': None}})
assert not f({'statistics': {'dropout_rate': None}}, {'statistics': {'dropout_rate': None}})
"""),
]
