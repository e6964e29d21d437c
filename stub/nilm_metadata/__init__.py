"""Minimal stand-in for the nilm_metadata package, which cannot be had offline.

Only the names nilmtk itself imports are provided.  The semantics follow the
upstream documentation (a small appliance-type catalogue instead of the full
one).  It is part of the trusted base of the checks: see DESIGN.md.
"""
from copy import deepcopy

from .object_concatenation import get_appliance_types, recursively_update_dict
from .convert_yaml_to_hdf5 import (convert_yaml_to_hdf5,
                                   save_yaml_to_datastore)
