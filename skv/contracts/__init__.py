"""The contracts of the public functions, by module."""
import importlib

NAMES = ['vectors', 'arrays', 'points', 'lines', 'planes', 'segments', 'rounds', 'cylinders', 'measures', 'triangles', 'plots', 'fits']
_loaded = []


def load():
    if not _loaded:
        for n in NAMES:
            importlib.import_module(f'skv.contracts.{n}')
        _loaded.append(True)
