"""Real ElecMeter objects over real data stores, for several checks."""
import gc

import pandas as pd

from vh import NEGINF, POSINF, as_int
from tf_driver import Clock

_N = [0]


class NoCache(object):
    """Stands in for the statistics cache: remembers nothing."""

    def __getitem__(self, key):
        raise KeyError(key)

    def append(self, key, value):
        pass

    put = append

    def remove(self, key):
        raise KeyError(key)


def fast_gc():
    """The code under test calls gc.collect() often; keep that cheap."""
    gc.collect()
    gc.freeze()


def device(columns, max_sample_period, sample_period, limits=None):
    ms = []
    for pq, ac in columns:
        m = {'physical_quantity': pq}
        if ac:
            m['type'] = ac
        m.update((limits or {}).get((pq, ac), {'lower_limit': 0,
                                               'upper_limit': 100000}))
        ms.append(m)
    return {'model': 'dev', 'max_sample_period': max_sample_period,
            'sample_period': sample_period, 'measurements': ms}


def dataframe(times, values, columns):
    df = pd.DataFrame(values, index=pd.DatetimeIndex(times), dtype='float64')
    df.columns = pd.MultiIndex.from_tuples(
        columns, names=['physical_quantity', 'type'])
    return df


def meter(store, key, dev, instance=1, building=1, dataset='D', cache=None,
          metadata=None):
    from nilmtk.elecmeter import ElecMeter, ElecMeterID
    _N[0] += 1
    model = 'model%d' % _N[0]
    ElecMeter.meter_devices.pop('model%d' % (_N[0] - 400), None)
    ElecMeter.meter_devices[model] = dict(dev, model=model)
    md = {'device_model': model, 'data_location': key}
    md.update(metadata or {})
    m = ElecMeter(store, md, ElecMeterID(instance, building, dataset))
    m.cache = NoCache() if cache is None else cache
    return m


def frames(a, clock):
    from nilmtk.timeframe import TimeFrame
    out = []
    for i in range(0, len(a), 3):
        t = TimeFrame(clock.ts(a[i]), clock.ts(a[i + 1]))
        t.include_end = bool(a[i + 2])
        out.append(t)
    return out
