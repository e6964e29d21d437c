from copy import deepcopy


def recursively_update_dict(to_update, source):
    """Deep-update: dicts are merged, lists are concatenated, others replaced."""
    for key, value in source.items():
        if isinstance(value, dict):
            node = to_update.get(key)
            if not isinstance(node, dict):
                node = {}
                to_update[key] = node
            recursively_update_dict(node, value)
        elif isinstance(value, list) and isinstance(to_update.get(key), list):
            to_update[key].extend(deepcopy(value))
        else:
            to_update[key] = deepcopy(value)


def _t(name, trad, size='small', n_ancestors=2, thresh=None, **extra):
    d = {'type': name,
         'categories': {'traditional': trad, 'size': size},
         'n_ancestors': n_ancestors}
    if thresh is not None:
        d['on_power_threshold'] = thresh
    d.update(extra)
    return d


_TYPES = [
    _t('fridge', 'cold', 'large', 3, 50, synonyms=['refrigerator'],
       categories={'traditional': 'cold', 'size': 'large',
                   'electrical': ['single-phase induction motor']}),
    _t('freezer', 'cold', 'large', 3, 50),
    _t('fridge freezer', 'cold', 'large', 4, 50),
    _t('kettle', 'cooking', 'small', 2, 2000),
    _t('microwave', 'cooking', 'small', 2, 200),
    _t('electric oven', 'cooking', 'large', 2, 10),
    _t('toaster', 'cooking', 'small', 2),
    _t('washing machine', 'wet', 'large', 2, 20),
    _t('dish washer', 'wet', 'large', 2, 10),
    _t('washer dryer', 'wet', 'large', 2, 20),
    _t('light', 'lighting', 'small', 1, 10),
    _t('sockets', 'misc', 'small', 1),
    _t('electric space heater', 'heating', 'large', 2),
    _t('television', 'consumer electronics', 'small', 2),
    _t('audio system', 'consumer electronics', 'small', 2),
    _t('computer', 'ICT', 'small', 2),
    _t('unknown', 'misc', 'small', 1),
]


def get_appliance_types():
    return {d['type']: deepcopy(d) for d in _TYPES}
