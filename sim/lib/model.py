"""Reference model of an opened event/group/flash file.

Everything here works from the plain tables of a synthetic file (synth.py).
"""
import math

import numpy as np

import synth as S

AREA_MAX_RAW = 65535


def tree(spec):
    """Rows that form a consistent tree: flashes with a group, groups with a flash,
    events with such a group."""
    fids = {f[S.F_ID] for f in spec['flashes']}
    parents = {g[S.G_PAR] for g in spec['groups']}
    flashes = [f for f in spec['flashes'] if f[S.F_ID] in parents]
    groups = [g for g in spec['groups'] if g[S.G_PAR] in fids]
    gids = {g[S.G_ID] for g in groups}
    events = [e for e in spec['events'] if e[S.E_PAR] in gids]
    return dict(spec, flashes=flashes, groups=groups, events=events)


def area(raw):
    return S.A_OFF + S.A_SCALE * raw          # 65535 marks an unknown area: the largest value


def energy(raw, q=None):
    return S.energy_of(raw, q) * 1e9


def event_energy(raw, q=None):
    return (S.energy_of(raw, q) if raw else .5 * S.energy_of(1, q)) * 1e9


def when(spec, raw):
    """Seconds from the start of the file."""
    return S.seconds_of(raw, spec.get('quirks', {}))


def expected(spec, rev=-1):
    """Tables by ID of what an opened file must contain, on a given ellipsoid or the one of the day."""
    t = tree(spec)
    par = {g[S.G_ID]: g[S.G_PAR] for g in t['groups']}
    rev = S.ellipse_rev(spec['t0']) if rev < 0 else rev
    q = spec.get('quirks')
    at = S.nadir(q)
    ev = {}
    for e in t['events']:
        lon, lat = S.lon_of(e[S.E_LON], at), S.lat_of(e[S.E_LAT])
        x, y = S.geo_fixed(lon, lat, rev, at)
        ev[e[S.E_ID]] = dict(parent=e[S.E_PAR], flash=par[e[S.E_PAR]], lat=lat, lon=lon, x=x, y=y,
                             energy=event_energy(e[S.E_EN], q), t=when(spec, e[S.E_T]))
    n_ev = {}
    for e in t['events']:
        n_ev[e[S.E_PAR]] = n_ev.get(e[S.E_PAR], 0) + 1
    gr = {}
    for g in t['groups']:
        x, y = S.geo_fixed(g[S.G_LON], g[S.G_LAT], rev, at)
        gr[g[S.G_ID]] = dict(parent=g[S.G_PAR], lat=g[S.G_LAT], lon=g[S.G_LON], x=x, y=y,
                             area=area(g[S.G_AREA]), energy=energy(g[S.G_EN], q),
                             t=when(spec, g[S.G_T]), n=n_ev.get(g[S.G_ID], 0))
    fl = {}
    for f in t['flashes']:
        x, y = S.geo_fixed(f[S.F_LON], f[S.F_LAT], rev, at)
        kids = [g for g in t['groups'] if g[S.G_PAR] == f[S.F_ID]]
        fl[f[S.F_ID]] = dict(lat=f[S.F_LAT], lon=f[S.F_LON], x=x, y=y, area=area(f[S.F_AREA]),
                             energy=energy(f[S.F_EN], q), t=when(spec, f[S.F_T0]), t1=when(spec, f[S.F_T1]),
                             ng=len(kids), ne=sum(n_ev.get(g[S.G_ID], 0) for g in kids))
    return {'flash': fl, 'group': gr, 'event': ev}


VARS = {
    'event': [('parent', 'event_parent_group_id'), ('flash', 'event_parent_flash_id'),
              ('lat', 'event_lat'), ('lon', 'event_lon'), ('x', 'event_x'), ('y', 'event_y'),
              ('energy', 'event_energy'), ('t', 'event_time_offset')],
    'group': [('parent', 'group_parent_flash_id'), ('lat', 'group_lat'), ('lon', 'group_lon'),
              ('x', 'group_x'), ('y', 'group_y'), ('area', 'group_area'), ('energy', 'group_energy'),
              ('t', 'group_time_offset'), ('n', 'group_child_event_count')],
    'flash': [('lat', 'flash_lat'), ('lon', 'flash_lon'), ('x', 'flash_x'), ('y', 'flash_y'),
              ('area', 'flash_area'), ('energy', 'flash_energy'),
              ('t', 'flash_time_offset_of_first_event'), ('t1', 'flash_time_offset_of_last_event'),
              ('ng', 'flash_child_group_count'), ('ne', 'flash_child_event_count')],
}
# times of the frames, present in later files; here equal to the event times
FRAME_VARS = {'group': [('tf', 'group_frame_time_offset')],
              'flash': [('tf', 'flash_frame_time_offset_of_first_event'), ('t1f', 'flash_frame_time_offset_of_last_event')]}
SAME = {'tf': 't', 't1f': 't1'}
TOL = {'tf': (2e-3, 0), 't1f': (2e-3, 0), 'lat': (2e-5, 0), 'lon': (2e-5, 0), 'x': (1e-6, 0), 'y': (1e-6, 0), 'area': (0, 2e-5),
       'energy': (1e-12, 2e-5), 't': (2e-3, 0), 't1': (2e-3, 0)}


def seconds(values, t0):
    """Times of a dataset as seconds from the start of the file."""
    v = np.asarray(values)
    if v.dtype.kind == 'M':
        start = np.datetime64(S.dt_of(t0), 'ns')
        return (v.astype('M8[ns]') - start) / np.timedelta64(1, 'ns') * 1e-9
    if v.dtype.kind == 'm':
        return v / np.timedelta64(1, 'ns') * 1e-9
    return v.astype(float)


def tables(ds, t0, skip=()):
    """Plain tables of a dataset, as picklable arrays: {level: {column: array}}."""
    out = {}
    for level, cols in VARS.items():
        cols = cols + [c for c in FRAME_VARS.get(level, ()) if c[1] in ds.variables]
        t = {'id': np.array(ds[level + '_id'].data, dtype='i8')}
        for col, var in cols:
            if col in skip:
                continue
            d = ds[var].data
            if col[0] == 't':
                d = seconds(d, t0)
            t[col] = np.array(d)
        out[level] = t
    return out


def sort_key(t):
    return np.argsort(t['id'], kind='stable')


def same_tables(a, b, tol=True):
    """Are two extracted tables equal (row order ignored)?  Returns '' or a reason."""
    for level in ('flash', 'group', 'event'):
        x, y = a[level], b[level]
        if sorted(x['id'].tolist()) != sorted(y['id'].tolist()):
            return '%s IDs differ: %s vs %s' % (level, sorted(x['id'].tolist())[:20], sorted(y['id'].tolist())[:20])
        i, j = sort_key(x), sort_key(y)
        for col in x:
            if col not in y:
                continue
            u, v = np.asarray(x[col])[i].astype(float), np.asarray(y[col])[j].astype(float)
            at, rt = TOL.get(col, (0, 0))
            if not np.allclose(u, v, atol=at, rtol=rt, equal_nan=True):
                k = int(np.argmax(~np.isclose(u, v, atol=at, rtol=rt, equal_nan=True)))
                return '%s %s of ID %s: %r vs %r' % (level, col, x['id'][i][k], u[k], v[k])
    return ''


def diff(tabs, exp, skip=()):
    """Compare extracted tables with the model.  '' or (kind, text)."""
    for level in ('flash', 'group', 'event'):
        t, want = tabs[level], exp[level]
        ids = t['id'].tolist()
        if len(set(ids)) != len(ids):
            return 'duplicate-' + level, 'IDs %s' % sorted(ids)[:30]
        extra, missing = set(ids) - set(want), set(want) - set(ids)
        if missing:
            return 'lost-' + level, 'missing %s IDs %s of %d' % (level, sorted(missing)[:10], len(want))
        if extra:
            return 'stray-' + level, 'unexpected %s IDs %s' % (level, sorted(extra)[:10])
        for col, arr in t.items():
            if col == 'id' or col in skip:
                continue
            if len(arr) != len(ids):
                return 'bad-shape-' + level, '%s has %d rows for %d IDs' % (col, len(arr), len(ids))
            at, rt = TOL.get(col, (0, 0))
            for k, i in enumerate(ids):
                w, got = want[i][SAME.get(col, col)], float(arr[k])
                if not (abs(got - w) <= at + rt * abs(w)):
                    return 'wrong-%s-%s' % (level, col), '%s %s %s is %r, expected %r' % (level, i, col, got, w)
    return ''


def pick(spec, flashes=None, groups=None, events=None):
    """The part of a spec that belongs to the given IDs at one level: descendants and ancestors."""
    if flashes is not None:
        fs = set(flashes)
        gr = [g for g in spec['groups'] if g[S.G_PAR] in fs]
        gs = {g[S.G_ID] for g in gr}
        return dict(spec, flashes=[f for f in spec['flashes'] if f[S.F_ID] in fs], groups=gr,
                    events=[e for e in spec['events'] if e[S.E_PAR] in gs])
    if groups is not None:
        gs = set(groups)
        gr = [g for g in spec['groups'] if g[S.G_ID] in gs]
        fs = {g[S.G_PAR] for g in gr}
        return dict(spec, flashes=[f for f in spec['flashes'] if f[S.F_ID] in fs], groups=gr,
                    events=[e for e in spec['events'] if e[S.E_PAR] in gs])
    es = set(events)
    ev = [e for e in spec['events'] if e[S.E_ID] in es]
    gs = {e[S.E_PAR] for e in ev}
    gr = [g for g in spec['groups'] if g[S.G_ID] in gs]
    fs = {g[S.G_PAR] for g in gr}
    return dict(spec, flashes=[f for f in spec['flashes'] if f[S.F_ID] in fs], groups=gr, events=ev)
