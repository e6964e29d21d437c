"""Planted bugs, batch J: what must be refused."""
SEEDS = [
 dict(id='C11-foreign-results', property='C11',
  edits=[('nilmtk/results.py', "if not isinstance(new_result, self.__class__):", "if not hasattr(new_result, '_data'):")],
  needs='results of another kind are merged into a table', breaks='the foreign entry is taken in and the table holds time it knows nothing about',
  demo="""
from h import *
from nilmtk.timeframe import TimeFrame
from nilmtk.stats.totalenergyresults import TotalEnergyResults
from nilmtk.stats.dropoutrateresults import DropoutRateResults
t, d = TotalEnergyResults(), DropoutRateResults()
t.append(TimeFrame('2014-01-01', '2014-01-02'), {'active': 3.})
d.append(TimeFrame('2014-01-03', '2014-01-04'), {'dropout_rate': .5, 'n_samples': 2})
try:
    t.update(d)
except Exception:
    pass
else:
    raise SystemExit('taken in')
assert len(t._data) == 1 and t.combined()['active'] == 3
"""),
 dict(id='C30-unknown-zone-utc', property='C30',
  edits=[('nilmtk/dataset.py', """raise RuntimeError("'timezone' is not set in dataset metadata.")""", "tz = 'UTC'")],
  needs='a data set whose metadata has no time zone', breaks='the bounds are silently taken for UTC',
  demo="""
from h import *
from nilmtk import DataSet
from nilmtk.timeframe import TimeFrame
ds = DataSet()
class Store(object):
    window = TimeFrame()
ds.store, ds.metadata = Store(), {}
try:
    ds.set_window('2014-01-01', '2014-01-02')
except Exception:
    pass
else:
    raise SystemExit('accepted')
assert ds.store.window.start is None
"""),
 dict(id='C06-unknown-format-hdf', property='C06',
  edits=[('nilmtk/utils.py', "raise ValueError('format not recognised')", "return HDFDataStore(filename, mode)")],
  needs='a name or format of no known kind', breaks='a store of another format than asked for is made',
  demo="""
from h import *
import os, tempfile, shutil
from nilmtk.utils import get_datastore
d = tempfile.mkdtemp()
try:
    for fmt in (None, 'XML'):
        try:
            get_datastore(os.path.join(d, 'x.xml'), fmt, 'w').close()
        except ValueError:
            continue
        raise SystemExit('made a store')
finally:
    shutil.rmtree(d)
"""),
]
