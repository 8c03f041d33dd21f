"""Imports everything once, in the process all runs are forked from."""
import sys


def load():
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import numpy, pandas, xarray, netCDF4, scipy.spatial, scipy.interpolate  # noqa
    import xarray.backends.netCDF4_, xarray.backends.api  # noqa
    import pyclipper, concurrent.futures, concurrent.futures.process, multiprocessing  # noqa
    try:
        import shapely.geometry  # noqa
        import sklearn.neighbors  # noqa
    except ImportError:
        pass
    import simpool
    simpool.install()
    import baton
    baton.install()
    # sources of /repo are compiled afresh: a stale bytecode file must not be used
    keep, sys.pycache_prefix = sys.pycache_prefix, '/nonexistent/pycache'
    try:
        import glmtools  # noqa
        import glmtools.io.glm, glmtools.io.traversal, glmtools.io.imagery  # noqa
        import glmtools.io.mimic_lma, glmtools.io.ccd, glmtools.io.convert_lcfa  # noqa
        import glmtools.grid.make_grids, glmtools.grid.accumulate  # noqa
        import glmtools.grid.clipping, glmtools.grid.split_events  # noqa
    finally:
        sys.pycache_prefix = keep
    assert glmtools.__file__.startswith('/repo/'), glmtools.__file__
    baton.watch()
    import job
    job.warm()
