"""Planted bugs, batch I: information, tables of appliances, activity scripts, CAXE."""
EL = 'nilmtk/electric.py'
UT = 'nilmtk/utils.py'
PAIR = """
from h import *
rng = np.random.default_rng(3)
N = 10400
X = rng.normal(size=N) * 50
Y = X * .6 + rng.normal(size=N) * 30

def pair(a, b):
    s = hdf()
    ms = []
    for k, v in ((1, X), (2, Y)):
        key = '/building1/elec/meter%d' % k
        s.put(key, df(list(range(b - a)), v[a:b]))
        ms.append(meter(s, key, instance=k))
    return ms

def close(a, b):
    assert abs(a - b) < 1e-3, (a, b)
"""
SEEDS = [
 dict(id='C37-ball-in-base', property='C37',
  edits=[(EL, 'const = digamma(N)-digamma(k) + d*log(2)', 'const = digamma(N)-digamma(k) + d*log(base)')],
  needs='a base other than two', breaks='the volume of the ball is taken in the base of the result, the entropy is off by a constant',
  demo=PAIR + """
x, y = pair(0, 200)
close(x.entropy(base=4), x.entropy() / 2)
close(x.entropy(k=2, base=8), x.entropy(k=2) / 3)
"""),
 dict(id='C37-pieces-default-k', property='C37',
  edits=[(EL, 'out.append(kdtree_mi(x, y, k, base))', 'out.append(kdtree_mi(x, y, 3, base))')],
  needs='a series longer than one piece and k other than three', breaks='the pieces are estimated with k of three',
  demo=PAIR + """
x, y = pair(0, N)
a, b = pair(0, N // 2), pair(N // 2, N)
close(x.mutual_information(y, k=1), (a[0].mutual_information(a[1], k=1) + b[0].mutual_information(b[1], k=1)) / 2)
"""),
 dict(id='C37-length-of-whole', property='C37',
  edits=[(EL, 'digamma(k), digamma(len(x))', 'digamma(k), digamma(num_elements)')],
  needs='a series longer than one piece', breaks='pieces are estimated with the number of readings of the whole series',
  demo=PAIR + """
x, y = pair(0, N)
a, b = pair(0, N // 2), pair(N // 2, N)
close(x.mutual_information(y), (a[0].mutual_information(a[1]) + b[0].mutual_information(b[1])) / 2)
"""),
 dict(id='C23-table-missing-zero', property='C23',
  edits=[(UT, "df_app = pd.DataFrame({'gt': gt_app, 'pr': pred_app}, index=gt_app.index).dropna()",
          "df_app = pd.DataFrame({'gt': gt_app, 'pr': pred_app}, index=gt_app.index).fillna(0)")],
  needs='a prediction that lacks some of the readings', breaks='missing predictions count as predictions of zero',
  demo="""
from h import *
from nilmtk.utils import compute_rmse
ix = pd.date_range('2014', periods=4, freq='s')
g = pd.DataFrame({'fridge': [10., 20, 30, 40]}, index=ix)
p = pd.DataFrame({'fridge': [13., 24]}, index=ix[:2])
assert abs(compute_rmse(g, p, pretty=False)['fridge'] - (25 / 2) ** .5) < 1e-9
"""),
 dict(id='C23-table-twins', property='C23',
  edits=[(UT, "            if current_count < 2:", "            if current_count <= 2:")],
  needs='exactly two appliances with the same label', breaks='one of the two disappears from the table',
  demo="""
from h import *
from nilmtk.utils import compute_rmse
ms = [meter(None, '/building%d/elec/meter1' % b, building=b, md={'name': 'Lamp'}) for b in (1, 2)]
ix = pd.date_range('2014', periods=2, freq='s')
g = pd.DataFrame([[10., 20], [30, 40]], index=ix)
p = pd.DataFrame([[13., 24], [33, 44]], index=ix)
g.columns = p.columns = ms
r = compute_rmse(g, p)
assert sorted(r.values) == [3, 4], r
"""),
 dict(id='C17-script-shared-stamp', property='C17',
  edits=[('nilmtk/dataset.py', "                script = script.sort_index()",
          "                script = script[~script.index.duplicated()].sort_index()")],
  needs='an activation that starts at the reading the one before it ended at', breaks='the end of the earlier activation is missing from the script',
  demo="""
from h import *
import contextlib, io
from nilmtk import DataSet
b = {1: {'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2], 'on_power_threshold': 50}], 'elec_meters': {
    1: {'device_model': 'dev', 'site_meter': True}, 2: {'device_model': 'dev', 'submeter_of': 0}}}}
t = df(list(range(9)), [0, 90, 90, 0, 0, 90, 90, 0, 0])
out = path()
d = DataSet(dataset({(1, 1): t, (1, 2): t}, buildings=b))
with contextlib.redirect_stdout(io.StringIO()):
    d.get_activity_script(out)
with pd.HDFStore(out, 'r') as s:
    x = s['/building1/fridge__1']
assert x.sum() == 2 and len(x) == 4, x
"""),
 dict(id='C36-caxe-median', property='C36',
  edits=[('nilmtk/dataset_converters/caxe/convert_caxe.py', 'df = df.resample("1T").mean()', 'df = df.resample("1T").median()')],
  needs='three or more readings in a minute that are not evenly spread', breaks='the middle reading is stored, not the mean',
  demo="""
from h import *
import contextlib, io
from nilmtk.dataset_converters import convert_caxe
import nilmtk.dataset_converters.caxe as pkg
src = path('.csv')
with open(src, 'w') as f:
    for k, v in enumerate([10, 10, 40]):
        f.write('2020-01-01 10:00:%02d+00:00' % (10 * k) + ',%d' % v * 6 + chr(10))
# wherever the description of the meter is looked for
os.chdir(os.path.dirname(pkg.__file__))
import nilmtk.dataset_converters.caxe.convert_caxe
mod = sys.modules['nilmtk.dataset_converters.caxe.convert_caxe']
out, real = path(), mod.get_datastore
mod.get_datastore = lambda name, **k: real(out, **k)
mod.convert_yaml_to_hdf5 = lambda *a: None
with contextlib.redirect_stdout(io.StringIO()):
    convert_caxe(src)
with pd.HDFStore(out, 'r') as s:
    v = s['/building1/elec/meter1'].values
assert (v == 20).all(), v
""".replace('import contextlib, io\nfrom nilmtk.dataset_converters import', 'import contextlib, io, sys\nfrom nilmtk.dataset_converters import')),
]
