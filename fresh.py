"""Independent fresh copies of the library (all caches cold)."""
import importlib
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
NAMES = ('cached', 'polynomials', 'vectors', 'partitions', 'tableaux', 'symmetric', 'words', 'permutations', 'insertion',
         'crystals', 'operators', 'dualops', 'boxes', 'vst', 'utils')


def _ours(name, module):
    path = getattr(module, '__file__', None) or ''
    return os.path.dirname(os.path.abspath(path)) == os.path.abspath(REPO) if path else False


def world(*names):
    """Import the named modules again, with everything of /repo they need, apart from the loaded ones."""
    saved = {k: m for k, m in sys.modules.items() if _ours(k, m)}
    for k in saved:
        del sys.modules[k]
    try:
        for k in names or NAMES:
            importlib.import_module(k)
        loaded = {k: m for k, m in sys.modules.items() if _ours(k, m)}
    finally:
        for k in [k for k, m in sys.modules.items() if _ours(k, m)]:
            del sys.modules[k]
        sys.modules.update(saved)
    return types.SimpleNamespace(**loaded)
