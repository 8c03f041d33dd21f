"""Stand-in for the parts of lmatools that glmtools imports.

lmatools is not installable here (no network), yet glmtools.grid.make_grids,
glmtools.grid.accumulate and glmtools.io.mimic_lma need it.  These modules
model its documented behaviour: generator coroutines, time framing by
searchsorted, histogram accumulation and the GOES-R fixed grid tables.
"""


class Missing(object):
    """Placeholder for lmatools names the simulator does not model.

    Importing one is harmless; using one raises.
    """

    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *args, **kwargs):
        raise NotImplementedError('lmatools stub does not model ' + self.__name__)


def missing_names(module_name):
    def __getattr__(name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Missing(module_name + '.' + name)
    return __getattr__
