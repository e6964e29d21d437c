"""Planted bugs, batch H: converters of shared files, and a second one for properties with a single one."""
DC = 'nilmtk/dataset_converters/'
RAW = """
from h import *
import contextlib, io

def put(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(text)

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)

src, out = path(''), path()
"""
TF = 'nilmtk/timeframe.py'

SEEDS = [
 dict(id='C36-eco-negative', property='C36',
  edits=[(DC + 'eco/convert_eco.py', "df = df[df.power.active != -1]", "df = df[df.power.active >= 0]")],
  needs='a plug whose readings dip below zero without being the -1 that marks a missing one',
  breaks='readings of the plug are dropped',
  demo=RAW + """
from nilmtk.dataset_converters import convert_eco
zeros = ','.join(['1'] * 16) + chr(10)
put(src + '/01_sm_csv/01/2012-06-01.csv', zeros * 86400)
day = ['5'] * 86400
day[7], day[9] = '-1', '-0.25'
for k in ('01', '02', '03'):
    put(src + '/01_plugs_csv/%s/2012-06-01.csv' % k, chr(10).join(day) + chr(10))
quiet(convert_eco, src, out, 'CET')
with pd.HDFStore(out, 'r') as st:
    assert len(st['/building1/elec/meter4']) == 86399, len(st['/building1/elec/meter4'])
"""),
 dict(id='C36-dataport-second-panel', property='C36',
  edits=[(DC + 'dataport/csv_converter.py', '            gen += cleaned["solar2"]', '            gen = cleaned["solar2"]')],
  needs='a building with two photovoltaic systems', breaks='what the first system produced is missing from the use',
  demo=RAW + """
from nilmtk.dataset_converters.dataport.csv_converter import convert_dataport
put(src + '/metadata.csv', '''dataid,building_type,city,state,house_construction_year,egauge_1s_data_availability,grid
head,x,x,x,x,x,x
26,Home,Austin,Texas,1990,99%,yes
''')
put(src + '/d.csv', '''dataid,localminute,grid,solar,solar2
26,2018-01-01 00:00:00-06,1,2,4
26,2018-01-01 00:00:01-06,1,2,4
''')
quiet(convert_dataport, [src + '/d.csv'], src + '/metadata.csv', out)
with pd.HDFStore(out, 'r') as st:
    got = st['/building1/elec/meter1'].values.ravel().tolist()
assert got == [7000, 7000], got
"""),
 dict(id='C36-iawe-last-duplicate', property='C36',
  edits=[(DC + 'iawe/convert_iawe.py', 'df.drop_duplicates(subset=["timestamp"], inplace=True)',
          'df.drop_duplicates(subset=["timestamp"], keep="last", inplace=True)')],
  needs='a stamp that occurs twice with different readings', breaks='the later of the readings is stored',
  demo=RAW + """
from nilmtk.dataset_converters import convert_iawe
for m in range(1, 12):
    put(src + '/electricity/%d.csv' % m, '''timestamp,W
1373700000,100
1373700000,900
1373700060,100
''')
quiet(convert_iawe, src, out)
with pd.HDFStore(out, 'r') as st:
    got = sorted(set(st['/building1/elec/meter3'].values.ravel().tolist()))
assert got == [0, 100], got
"""),
 dict(id='C36-hes-channel-again', property='C36',
  edits=[(DC + 'hes/convert_hes.py', """                    nilmtk_meter_id = house_appliance_codes[hes_house_id].index(appliance_code)+1
                    _process""", """                    nilmtk_meter_id = len(house_appliance_codes[hes_house_id])
                    _process""")],
  needs='a channel of a house that comes up again after another channel of the house',
  breaks='its later readings are stored under the other channel',
  demo=RAW + """
from nilmtk.dataset_converters import convert_hes
put(src + '/anonhes/ipsos-anonymised-corrected_310713.csv', 'house,x' + chr(10) + '202,1' + chr(10))
put(src + '/agd-1a/appliance_group_data-1a.csv', '''1,202,0,2010-05-01,1,00:00:00
1,202,5,2010-05-01,2,00:00:00
''')
put(src + '/agd-1b/appliance_group_data-1b.csv', '''1,202,0,2010-05-01,3,00:02:00
''')
quiet(convert_hes, src, out)
with pd.HDFStore(out, 'r') as st:
    got = [st['/building1/elec/meter%d' % m].values.ravel().tolist() for m in (1, 2)]
assert got == [[10, 30], [20]], got
"""),
 dict(id='C36-greend-common-columns', property='C36',
  edits=[(DC + 'greend/convert_greend.py', "pd.concat(house_data_dfs, sort=False)", "pd.concat(house_data_dfs, sort=False, join='inner')")],
  needs='a sensor that is missing on some days', breaks='the sensor gets no meter and the others change theirs',
  demo=RAW + """
from nilmtk.dataset_converters import convert_greend
for b in range(8):
    put(src + '/building%d/dataset_2014-01-01.csv' % b, '''timestamp,000A,000B
1388534400.5,1,2
1388534401.5,1,2
''')
    put(src + '/building%d/dataset_2014-01-02.csv' % b, '''timestamp,000B
1388620800.5,3
1388620801.5,3
''')
quiet(convert_greend, src, out, use_mp=False)
with pd.HDFStore(out, 'r') as st:
    assert '/building1/elec/meter2' in st.keys(), st.keys()
    assert st['/building1/elec/meter2'].values.ravel().tolist() == [2, 2, 3, 3]
"""),
 dict(id='C36-smart-year-without-files', property='C36',
  edits=[(DC + 'smart/convert_smart.py', """            if not meters_paths_csv:
                continue
""", """            if not meters_paths_csv:
                break
""")],
  needs='a year without half-hourly files between years that have some', breaks='the years after it are lost',
  demo=RAW + """
from nilmtk.dataset_converters import convert_smart
for h in 'ABC':
    for y in (2014, 2015, 2016):
        p = '%s/Home%s/%d/Home%s-meter1' % (src, h, y, h)
        half = y != 2015
        put(p + '.txt', chr(10).join(['Home%s-meter1' % h, 'x', '%s minutes' % (30 if half else 1), 'e']))
        put(p + '_%d.csv' % y, '''Date & Time,use [kW],Fridge [kW]
%d-01-01 00:00:00,1,2
%d-01-01 00:30:00,1,2
''' % (y, y))
quiet(convert_smart, src, out)
with pd.HDFStore(out, 'r') as st:
    t = st['/building1/elec/meter1']
assert sorted(set(t.index.tz_convert('UTC').year)) == [2014, 2016], t
"""),
 dict(id='C36-hipe-clip', property='C36',
  edits=[(DC + 'hipe/convert_hipe.py', "    return df.abs()  #", "    return df.clip(lower=0)  #")],
  needs='a machine that is metered with the opposite sign', breaks='its power becomes zero',
  demo=RAW + """
from nilmtk.dataset_converters.hipe.convert_hipe import convert_hipe
for m in ('MainTerminal ChipPress ChipSaw HighTemperatureOven PickAndPlaceUnit ScreenPrinter SolderingOven '
          'VacuumOven VacuumPump1 VacuumPump2 WashingMachine').split():
    put(src + '/%s_PhaseCount_2.csv' % m, '''Machine,SensorDateTime,P_kW,Q
x,2017-10-23T00:00:00.000+02:00,-0.5,3
x,2017-10-23T00:00:05.000+02:00,1.5,3
''')
quiet(convert_hipe, src, out)
with pd.HDFStore(out, 'r') as st:
    assert st['/building1/elec/meter2'].values.ravel().tolist() == [500, 1500]
"""),
 dict(id='C01-open-overlap', property='C01',
  edits=[(TF, "        if not intersect.empty:\n            raise ValueError(\"Periods", "        if intersect.timedelta:\n            raise ValueError(\"Periods")],
  needs='two frames whose common part has no start or no end', breaks='their overlap goes unnoticed',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
a, b = TimeFrame(start='2014-01-01'), TimeFrame(start='2013-01-01')
try:
    a.check_for_overlap(b)
except ValueError:
    pass
else:
    raise AssertionError('overlap not noticed')
TimeFrame(end='2014-01-01').check_for_overlap(TimeFrame(start='2014-01-01'))
"""),
 dict(id='C03-exact-length', property='C03',
  edits=[('nilmtk/timeframegroup.py', "total_seconds() >= threshold", "total_seconds() > threshold")],
  needs='a frame exactly as long as the minimum', breaks='the frame is removed',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup
g = TimeFrameGroup([TimeFrame('2014-01-01 00:00:00', '2014-01-01 00:01:00'),
                    TimeFrame('2014-01-01 01:00:00', '2014-01-01 01:00:30')])
assert len(g.remove_shorter_than(30)) == 2
assert len(g.remove_shorter_than(31)) == 1
"""),
 dict(id='C25-lone-slash', property='C25',
  edits=[('nilmtk/datastore/datastore.py', "        if arg_stripped:\n            key +=", "        if str(arg):\n            key +=")],
  needs='a part that consists of slashes only', breaks='the key gets an empty element',
  demo="""
from h import *
from nilmtk.datastore.datastore import join_key
assert join_key('/', 'building1', '//', 'elec/') == '/building1/elec', join_key('/', 'building1', '//', 'elec/')
assert join_key('/') == '/' and join_key('') == '/'
"""),
 dict(id='C26-lone-reading', property='C26',
  edits=[('nilmtk/electric.py', "            if len(series) > 0:\n                chunks", "            if len(series) > 1:\n                chunks")],
  needs='a chunk with a single reading', breaks='the reading is lost',
  demo="""
from h import *
st = hdf()
st.put('/building1/elec/meter1', df([0, 1, 2, 3, 4], [1, 2, 3, 4, 5]))
m = meter(st)
from nilmtk.timeframe import TimeFrame
got = m.power_series_all_data(sections=[TimeFrame(T(0), T(2)), TimeFrame(T(2), T(3)), TimeFrame(T(3), T(9))]).tolist()
assert got == [1, 2, 3, 4, 5], got
"""),
 dict(id='C27-longer-ending', property='C27',
  edits=[('nilmtk/disaggregate/disaggregator.py', 'entry.name.endswith(".h5")', 'os.path.splitext(entry.name)[1].startswith(".h5")')],
  needs='a file of the model whose ending only begins with .h5', breaks='a file that is no checkpoint is deleted',
  demo="""
from h import *
from nilmtk.disaggregate import Disaggregator
os.chdir(D)
names = ['m-1.h5', 'm-1.h5.bak', 'm-1.h5old', 'm.txt']
for n in names:
    open(n, 'w').close()
d = Disaggregator()
d.file_prefix, d.MODEL_NAME = 'm', 'm'
d.clear_model_checkpoints()
left = sorted(n for n in os.listdir(D) if n in names)
assert left == ['m-1.h5.bak', 'm-1.h5old', 'm.txt'], left
"""),
 dict(id='C28-top-edge-later', property='C28',
  edits=[('nilmtk/stats/histogram.py', """        if histogram_cumulator is None:
            histogram_cumulator = hist
""", """        if histogram_cumulator is not None:
            hist, bins = np.histogram(chunk[chunk < bins[-1]], bins=bins, **kwargs)
        if histogram_cumulator is None:
            histogram_cumulator = hist
""")],
  needs='a reading at the very top of the range in a chunk after the first', breaks='the reading is not counted',
  demo="""
from h import *
from nilmtk.stats.histogram import histogram_from_generator
a, b = pd.Series([0., 1., 4.]), pd.Series([4., 2., 4.])
h, e = histogram_from_generator(iter([a, b]), bins=4, range=(0, 4))
assert h.tolist() == np.histogram(pd.concat([a, b]), bins=4, range=(0, 4))[0].tolist(), h
"""),
 dict(id='C30-section-of-days', property='C30',
  edits=[('nilmtk/metergroup.py', "int((ts.end - ts.start).total_seconds() / sample_period)", "int((ts.end - ts.start).seconds / sample_period)")],
  needs='a good section longer than a day', breaks='the split leaves the wrong fraction for training',
  demo="""
from h import *
from nilmtk import DataSet
t = [3600 * k for k in range(72)] + [3600 * k for k in range(100, 148)]
d = DataSet(dataset({(1, 1): df(t, [5] * len(t))}, period=3600, max_period=7200))
at = d.buildings[1].train_test_split(.5) if hasattr(d.buildings[1], 'train_test_split') else d.buildings[1].elec.train_test_split(.5)
first = 71 * 3600 / 2. + 47 * 3600 / 2.
assert abs((at - T(0)).total_seconds() - first) <= 3600, at
"""),
 dict(id='C21-shared-predictions', property='C21',
  edits=[('nilmtk/disaggregate/mean.py', """        test_predictions_list = []
        for test_df in test_mains:
            appliance_powers = pd.DataFrame()
""", """        test_predictions_list = []
        appliance_powers = pd.DataFrame()
        for test_df in test_mains:
""")],
  needs='mains to disaggregate in more than one piece', breaks='later pieces overwrite the predictions of the first',
  demo="""
from h import *
from nilmtk.disaggregate import Mean
m = Mean({})
m.partial_fit([df(range(4), [10] * 4)], [('fridge', [df(range(4), [1, 2, 3, 6])])])
out = m.disaggregate_chunk([df(range(3), [9] * 3), df(range(10, 15), [9] * 5)])
assert [o['fridge'].tolist() for o in out] == [[3.0] * 3, [3.0] * 5], out
assert list(out[1].index) == list(df(range(10, 15), [9] * 5).index)
"""),
]
