"""Registry of harnesses: name -> (function, parameter sets per tier, options)."""
import importlib
import os
import pkgutil

H = {}


class Harness:
    def __init__(self, name, prop, fn, quick, thorough, opts):
        self.name, self.prop, self.fn, self.quick, self.thorough, self.opts = name, prop, fn, quick, thorough, opts


def harness(prop, quick=({},), thorough=None, **opts):
    """quick / thorough: parameter sets of the tier; opts: time (s per task), paths (maximum), validate (models per path) ..."""
    def deco(fn):
        n = '%s.%s' % (prop, fn.__name__)
        assert n not in H, n
        H[n] = Harness(n, prop, fn, list(quick), list(thorough if thorough is not None else quick), opts)
        return fn
    return deco


_loaded = False


def load_all():
    global _loaded
    if _loaded:
        return
    _loaded = True
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
    for m in sorted(os.listdir(d)):
        if m.endswith('.py') and not m.startswith('_'):
            importlib.import_module('harness.' + m[:-3])


def get_harness(n):
    load_all()
    return H[n]
