import numpy as np
from lmatools import missing_names
from lmatools.stream.subset import coroutine


@coroutine
def flash_count_log(logfile, format_string="%s flashes in frame starting at %s"):
    while True:
        frame_start, n_flashes = (yield)
        if logfile is not None:
            logfile.write(format_string % (n_flashes, frame_start) + '\n')


@coroutine
def flashes_to_frames(time_edges, targets, time_key='start', do_events=False,
                      time_edges_datetime=None, flash_counter=None):
    if time_edges_datetime is None:
        time_edges_datetime = [None] * len(time_edges)
    assert len(time_edges) == len(time_edges_datetime)
    assert len(time_edges) == len(targets) + 1
    while True:
        events, flashes = (yield)
        sort_idx = np.argsort(flashes[time_key], kind='stable')
        idx = np.searchsorted(flashes[time_key][sort_idx], time_edges)
        slices = [slice(*i) for i in zip(idx[:-1], idx[1:])]
        if do_events is not False:
            ev_sort_idx = np.argsort(events[do_events], kind='stable')
            ev_idx = np.searchsorted(events[do_events][ev_sort_idx], time_edges)
            ev_slices = [slice(*i) for i in zip(ev_idx[:-1], ev_idx[1:])]
        else:
            ev_slices = [None] * len(slices)
        for target, s, ev_s, frame_start in zip(targets, slices, ev_slices,
                                                time_edges_datetime[:-1]):
            these_flashes = flashes[sort_idx][s]
            if do_events is not False:
                these_events = events[ev_sort_idx][ev_s]
            else:
                these_events = events
            if flash_counter is not None:
                flash_counter.send((frame_start, len(these_flashes)))
            target.send((these_events, these_flashes))
        del events, flashes


@coroutine
def extract_events_for_flashes(target, flashID_key='flash_id'):
    while True:
        events, flashes = (yield)
        keep = np.isin(events[flashID_key], flashes[flashID_key])
        target.send((events[keep], flashes))
        del events, flashes


@coroutine
def no_projection(x_coord, y_coord, z_coord, target, use_flashes=False):
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        target.send((events, flashes, points[x_coord], points[y_coord],
                     points[z_coord]))
        del events, flashes, points


@coroutine
def project(x_coord, y_coord, z_coord, mapProj, geoProj, target,
            use_flashes=False, transform=True):
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        x, y, z = mapProj.fromECEF(*geoProj.toECEF(
            points[x_coord], points[y_coord], points[z_coord]))
        target.send((events, flashes, np.atleast_1d(x), np.atleast_1d(y),
                     np.atleast_1d(z)))
        del events, flashes, points


@coroutine
def point_density(target, weight_key=None, weight_flashes=True):
    while True:
        events, flashes, x, y, z = (yield)
        if len(x) > 0:
            weights = None
            if weight_key is not None:
                weights = (flashes if weight_flashes else events)[weight_key]
            target.send((x, y, weights))
        del events, flashes, x, y, z


@coroutine
def extent_density(x0, y0, dx, dy, target, flash_id_key='flash_id',
                   weight_key=None, event_grid_area_fraction_key=None):
    while True:
        events, flashes, x, y, z = (yield)
        if len(x) > 0:
            xi = np.floor((x - x0) / dx).astype('int64')
            yi = np.floor((y - y0) / dy).astype('int64')
            key = np.core.records.fromarrays(
                (xi, yi, events[flash_id_key].astype('int64')), names='x,y,f')
            _, first = np.unique(key, return_index=True)
            weights = None
            if weight_key is not None:
                lookup = dict(zip(flashes[flash_id_key], flashes[weight_key]))
                weights = np.asarray([lookup[f] for f in
                                      events[flash_id_key][first]])
            target.send((x[first], y[first], weights))
        del events, flashes, x, y, z


def _histogram(grid, xedge, yedge, x, y, weights):
    count, _ = np.histogramdd((np.atleast_1d(x), np.atleast_1d(y)),
                              bins=(xedge, yedge), weights=weights)
    grid += count.astype(grid.dtype)


@coroutine
def accumulate_points_on_grid(grid, xedge, yedge, out=None, label='',
                              grid_frac_weights=False):
    assert xedge.shape[0] == grid.shape[0] + 1
    assert yedge.shape[0] == grid.shape[1] + 1
    if out is None:
        out = {}
    try:
        while True:
            x, y, weights = (yield)
            if len(x) > 0:
                _histogram(grid, xedge, yedge, x, y, weights)
            del x, y, weights
    except GeneratorExit:
        out['out'] = grid


accumulate_energy_on_grid = accumulate_points_on_grid

__getattr__ = missing_names(__name__)
