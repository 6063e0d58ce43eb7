"""Load the command-line programs of /repo/scripts as modules."""
import importlib.util
import os
import sys

from .core import REPO

_cache = {}


def load(name):
    if name not in _cache:
        path = os.path.join(REPO, 'scripts', name + '.py')
        spec = importlib.util.spec_from_file_location('script_' + name, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = mod
        spec.loader.exec_module(mod)
        _cache[name] = mod
    return _cache[name]
