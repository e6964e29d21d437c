"""Small real stores and meters for the demonstration."""
import atexit
import os
import shutil
import tempfile
import warnings

warnings.simplefilter('ignore')
import numpy as np
import pandas as pd

D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
tempfile.tempdir = D
os.environ['TMPDIR'] = D
_n = [0]
P = ('power', 'active')
TZ = 'Europe/London'


def path(suffix='.h5'):
    _n[0] += 1
    return os.path.join(D, 'f%d%s' % (_n[0], suffix))


def T(s, day='2014-01-06', tz=TZ):
    return pd.Timestamp(day, tz=tz) + pd.Timedelta(seconds=s)


def df(times, values, cols=(P,)):
    v = [list(x) if isinstance(x, (list, tuple)) else [x] for x in values]
    d = pd.DataFrame(v, index=pd.DatetimeIndex([T(t) if isinstance(t, (int, float)) else t for t in times]),
                     dtype='float64')
    d.columns = pd.MultiIndex.from_tuples(list(cols), names=['physical_quantity', 'type'])
    return d


def hdf():
    from nilmtk.datastore import HDFDataStore
    return HDFDataStore(path(), 'w')


def csv():
    from nilmtk.datastore import CSVDataStore
    p = path('')
    os.mkdir(p)
    return CSVDataStore(p)


def measurements(cols, limits=None):
    out = []
    for pq, ac in cols:
        m = {'physical_quantity': pq, 'lower_limit': 0, 'upper_limit': 100000}
        if ac:
            m['type'] = ac
        m.update((limits or {}).get((pq, ac), {}))
        out.append(m)
    return out


def meter(store, key='/building1/elec/meter1', cols=(P,), period=1, max_period=10, instance=1, building=1,
          dataset='D', md=None, limits=None):
    from nilmtk.elecmeter import ElecMeter, ElecMeterID
    _n[0] += 1
    model = 'model%d' % _n[0]
    ElecMeter.meter_devices[model] = {'model': model, 'sample_period': period, 'max_sample_period': max_period,
                                      'measurements': measurements(cols, limits)}
    return ElecMeter(store, dict({'device_model': model, 'data_location': key}, **(md or {})),
                     ElecMeterID(instance, building, dataset))


def dataset(tables, name='D', devices=None, buildings=None, timezone=TZ, period=1, max_period=10):
    """tables: {(building, meter): frame}; meter 1 is the site meter unless `buildings` says otherwise."""
    store = hdf()
    p = store.store.filename
    for (b, m), t in tables.items():
        store.put('/building%d/elec/meter%d' % (b, m), t)
    devs = devices or {'dev': {'model': 'dev', 'sample_period': period, 'max_sample_period': max_period,
                               'measurements': measurements(next(iter(tables.values())).columns)}}
    store.save_metadata('/', {'name': name, 'timezone': timezone, 'meter_devices': devs})
    for b in sorted({k[0] for k in tables}):
        md = (buildings or {}).get(b) or {'appliances': [], 'elec_meters': {
            m: dict({'device_model': 'dev'}, **({'site_meter': True} if m == 1 else {'submeter_of': 0}))
            for bb, m in tables if bb == b}}
        md = dict(md, instance=b)
        for m, x in md['elec_meters'].items():
            x.setdefault('data_location', '/building%d/elec/meter%d' % (b, m))
        store.save_metadata('/building%d' % b, md)
    store.close()
    return p
