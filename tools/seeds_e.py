"""Planted bugs, batch E: disaggregation into a data store."""
CO = 'nilmtk/legacy/disaggregate/combinatorial_optimisation.py'
DG = 'nilmtk/legacy/disaggregate/disaggregator.py'
FH = 'nilmtk/legacy/disaggregate/fhmm_exact.py'
HA = 'nilmtk/legacy/disaggregate/hart_85.py'

HOMES = """
from h import *
from nilmtk import DataSet
from nilmtk.datastore import HDFDataStore
from nilmtk.timeframe import TimeFrame
from nilmtk.legacy.disaggregate import CombinatorialOptimisation, FHMM, Hart85

def homes(mains, n=1, apps=None, extra=()):
    t = {}
    md = {}
    for b in range(1, n + 1):
        em = {1: {'device_model': 'dev', 'site_meter': True}}
        t[(b, 1)] = df([k for k in range(len(mains)) if mains[k] is not None], [x for x in mains if x is not None])
        for m in (2, 5) + tuple(extra):
            t[(b, m)] = df(range(len(mains)), [0] * len(mains))
            em[m] = {'device_model': 'dev', 'submeter_of': 1}
        md[b] = {'elec_meters': em, 'appliances': apps or [
            {'type': 'fridge', 'instance': 1, 'meters': [2]}, {'type': 'kettle', 'instance': 1, 'meters': [5]}]}
    return DataSet(dataset(t, buildings=md))

def co(e, *models):
    d = CombinatorialOptimisation()
    d.MIN_CHUNK_LENGTH = 3
    d.model = [{'states': np.array(s), 'training_metadata': e[m]} for m, s in models]
    return d

def run(d, mains, *secs):
    p = path()
    s = HDFDataStore(p, 'w')
    d.disaggregate(mains, s, sample_period=1, sections=[TimeFrame(T(a), T(b)) for a, b in secs])
    s.close()
    return DataSet(p)

def values(e, m):
    return [int(x) for x in e[m].power_series_all_data()]
"""

SEEDS = [
 dict(id='C33-short-piece-counts', property='C33',
  edits=[(CO, """            # Check that chunk is sensible size
            if len(chunk) < self.MIN_CHUNK_LENGTH:
                continue

            # Record metadata
            timeframes.append(chunk.timeframe)
            measurement""", """            # Record metadata
            timeframes.append(chunk.timeframe)

            # Check that chunk is sensible size
            if len(chunk) < self.MIN_CHUNK_LENGTH:
                continue

            measurement""")],
  needs='a first or last section too short to be disaggregated',
  breaks='the time frame of the output covers the skipped section',
  demo=HOMES + """
h = homes([10] * 20)
e = h.buildings[1].elec
o = run(co(e, (2, [0, 10])), e[1], (0, 2), (5, 10))
t = TimeFrame.from_dict(o.metadata['timeframe'])
assert (t.start, t.end) == (T(5), T(10)), t
"""),
 dict(id='C33-frame-of-first-run', property='C33',
  edits=[(DG, "                                    merged_timeframes[-1].end)", "                                    merged_timeframes[0].end)")],
  needs='two sections with more than a sample period between them',
  breaks='the time frame of the output ends with the first section',
  demo=HOMES + """
h = homes([10] * 20)
e = h.buildings[1].elec
o = run(co(e, (2, [0, 10])), e[1], (0, 5), (9, 15))
t = TimeFrame.from_dict(o.metadata['timeframe'])
assert (t.start, t.end) == (T(0), T(15)), t
o = run(co(e, (2, [0, 10])), e[1], (0, 5), (5, 15))
t = TimeFrame.from_dict(o.metadata['timeframe'])
assert (t.start, t.end) == (T(0), T(15)), t
"""),
 dict(id='C33-stale-combinations', property='C33',
  edits=[(CO, """        if (self.state_combinations is None or
                self.state_combinations.shape[1] != len(self.model)):
""", """        if self.state_combinations is None:
""")],
  needs='a meter learnt after the model was used once',
  breaks='the combinations known before are used on',
  demo=HOMES + """
h = homes([10, 110, 100, 0, 10, 110] * 3)
e = h.buildings[1].elec
d = co(e, (2, [0, 10]))
run(d, e[1], (0, 18))
d.train_on_chunk(df(range(40), [0, 100] * 20).iloc[:, 0], e[5], 3, None)
o = run(d, e[1], (0, 6)).buildings[1].elec
assert values(o, 5) == [0, 100, 100, 0, 0, 100], values(o, 5)
"""),
 dict(id='C33-home-of-the-model', property='C33',
  edits=[(CO, """                key = '{}/elec/meter{}'.format(building_path, meter_instance)
                output_datastore.append(key, df)
""", """                model_path = '/building{}'.format(
                    model['training_metadata'].building())
                key = '{}/elec/meter{}'.format(model_path, meter_instance)
                output_datastore.append(key, df)
""")],
  needs='a model trained in one home and used in another',
  breaks='the estimates are stored in the home of the training data, where the metadata do not point',
  demo=HOMES + """
h = homes([10, 110, 100, 0, 10, 110], 2)
o = run(co(h.buildings[2].elec, (2, [0, 10]), (5, [0, 100])), h.buildings[1].elec[1], (0, 6))
e = o.buildings[1].elec
assert values(e, 5) == [0, 100, 100, 0, 0, 100]
"""),
 dict(id='C33-one-appliance-per-meter', property='C33',
  edits=[(DG, """                    appliances.append(appliance)

                # Setting the name""", """                if meter.appliances:
                    appliances.append(appliance)

                # Setting the name""")],
  needs='a modelled meter with two appliances',
  breaks='only one of its appliances is in the metadata of the output',
  demo=HOMES + """
h = homes([10] * 9, apps=[{'type': 'fridge', 'instance': 1, 'meters': [2]}, {'type': 'kettle', 'instance': 1, 'meters': [2]}])
e = h.buildings[1].elec
o = run(co(e, (2, [0, 10])), e[1], (0, 9)).buildings[1].elec
assert sorted(a.type['type'] for a in o[2].appliances) == ['fridge', 'kettle']
"""),
 dict(id='C33-hmm-other-pace', property='C33',
  edits=[(FH, """        load_kwargs.setdefault('sample_period', 60)
        load_kwargs.setdefault('sections', mains.good_sections())

        timeframes = []
        building_path = '/building{}'.format(mains.building())
        mains_data_location = building_path + '/elec/meter1'
        data_is_available = False

        for chunk in mains.power_series(**load_kwargs):

            # Check that chunk is sensible size before resampling
            if len(chunk) < self.MIN_CHUNK_LENGTH:
                continue
""", """        load_kwargs.setdefault('sample_period', 60)
        load_kwargs.setdefault('sections', mains.good_sections())

        timeframes = []
        building_path = '/building{}'.format(mains.building())
        mains_data_location = building_path + '/elec/meter1'
        data_is_available = False

        for chunk in mains.power_series(**load_kwargs):

            # Check that chunk is sensible size before resampling
            if chunk.count() <= self.MIN_CHUNK_LENGTH:
                continue
""")],
  needs='a section with exactly the minimum number of rows, or with missing ones',
  breaks='it is skipped by the HMM',
  demo=HOMES + """
from collections import OrderedDict
from hmmlearn import hmm
from nilmtk.legacy.disaggregate.fhmm_exact import create_combined_hmm
h = homes([10, 0, 10, 0, 10, 10])
e = h.buildings[1].elec
d = FHMM()
d.MIN_CHUNK_LENGTH = 3
g = hmm.GaussianHMM(2, 'full')
g.startprob_, g.transmat_, g.n_features = np.full(2, .5), np.full((2, 2), .5), 1
g.means_, g.covars_ = np.array([[0.], [10.]]), np.tile(np.identity(1), (2, 1, 1))
d.individual, d.meters = OrderedDict([(e[2], g)]), [e[2]]
d.model = create_combined_hmm(d.individual)
o = run(d, e[1], (0, 3)).buildings[1].elec
assert values(o, 2) == [10, 0, 10]
"""),
]
