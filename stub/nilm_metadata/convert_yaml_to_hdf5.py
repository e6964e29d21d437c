import os
from os.path import isdir, isfile, join

import yaml

from .object_concatenation import get_appliance_types


def _load_file(directory, filename):
    path = join(directory, filename)
    if not isfile(path):
        raise IOError(filename + ' not found in ' + directory)
    with open(path, 'rb') as fh:
        return yaml.safe_load(fh)


def _read(yaml_dir):
    assert isdir(yaml_dir)
    dataset = dict(_load_file(yaml_dir, 'dataset.yaml'))
    devices = _load_file(yaml_dir, 'meter_devices.yaml') \
        if isfile(join(yaml_dir, 'meter_devices.yaml')) else {}
    dataset['meter_devices'] = devices
    yield '/', dataset
    for name in sorted(os.listdir(yaml_dir)):
        if not (name.startswith('building') and name.endswith('.yaml')):
            continue
        building = _load_file(yaml_dir, name)
        key = name[:-5]
        for i, m in building.get('elec_meters', {}).items():
            m.setdefault('data_location', '/{}/elec/meter{:d}'.format(key, i))
        yield '/' + key, building


def convert_yaml_to_hdf5(yaml_dir, hdf_filename):
    import pandas as pd
    store = pd.HDFStore(hdf_filename, 'a')
    for key, md in _read(yaml_dir):
        if key == '/':
            store.root._v_attrs.metadata = md
        else:
            try:
                group = store._handle.create_group('/', key[1:])
            except Exception:
                group = store._handle.get_node('/' + key[1:])
            group._f_setattr('metadata', md)
    store.close()


def save_yaml_to_datastore(yaml_dir, store):
    for key, md in _read(yaml_dir):
        store.save_metadata(key, md)
