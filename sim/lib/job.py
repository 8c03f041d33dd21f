"""Whole gridding jobs: batches of input files, the call, and the reference result."""
import os
import pickle
from datetime import datetime, timedelta

import numpy as np

import model
import product as P
import synth as S

_lut = {}


def lut_path():
    import glmtools.io
    return os.path.join(os.path.dirname(os.path.abspath(glmtools.io.__file__)), 'G16_corner_lut_fixedgrid.pickle')


def lut():
    """Pixel corner offsets, as one interpolator."""
    if not _lut:
        from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
        with open(lut_path(), 'rb') as f:
            x, y, c = pickle.load(f)
        pts = (x.flatten() * 1e-6, y.flatten() * 1e-6)
        val = c.reshape(-1, 8) * 1e-6
        _lut['lin'] = LinearNDInterpolator(pts, val)
        _lut['near'] = NearestNDInterpolator(pts, val)
    return _lut


def warm():
    """Called once in the zygote: the triangulation of the corner table is a pure
    function of that table, so all runs share the first result."""
    import scipy.spatial._qhull as q
    real, memo = q.Delaunay, {}

    class Delaunay(real):
        def __new__(cls, points, *a, **k):
            if a or k:
                return real(points, *a, **k)
            key = np.ascontiguousarray(points, 'f8').tobytes()
            if key not in memo:
                memo[key] = real(points)
            return memo[key]
    q.Delaunay = Delaunay
    lut()['lin'](np.zeros((1, 2)))
    lut()['near'](np.zeros((1, 2)))


def quads(xy):
    xy = np.asarray(xy, 'f8').reshape(-1, 2)
    off = lut()['lin'](xy)
    bad = np.isnan(off).any(axis=1)
    if bad.any():
        off[bad] = lut()['near'](xy[bad])
    return xy[:, None, :] + off.reshape(-1, 4, 2)


def gen(rng, files=None, frames=None, max_n=9, dxs=(112e-6, 224e-6, 280e-6, 280e-6), ops=None, quirky=True,
        at=None, signless=False, wide=False, oblong=False):
    """A grid, a span and the files delivered for it."""
    if wide:
        dxs, files, frames = (280e-6,), 1, 1
    dx = rng.choice(dxs)
    # cells need not be square
    dy = rng.choice([d for d in (112e-6, 224e-6, 280e-6) if d != dx]) if oblong and rng.random() < .15 else dx
    nx, ny = rng.randrange(3, max_n), rng.randrange(3, max_n)
    if wide:
        nx, ny = rng.randrange(40, 80), rng.randrange(40, 80)
    frame_s = rng.choice([20, 60, 60, 120])
    frames = frames or rng.choice([1, 1, 2, 3])
    day = rng.choice([rng.randrange(0, 250), rng.randrange(300, 900)])
    start = day * 86400 + rng.randrange(0, 86400, 20)
    if rng.random() < .15:
        start = (day + 1) * 86400 - rng.choice([20, 40, 60])
    if at is not None:
        start = at
    quirks = {}
    if quirky and rng.random() < .5:
        quirks['late_times'] = True
    if signless:
        # times without their unsigned mark, as delivered in October 2018
        quirks.update(late_times=True, unsigned_missing=True)
        start = (datetime(2018, 10, 16) - P.EPOCH).days * 86400 + rng.randrange(0, 18 * 86400, 20)
    if rng.random() < .3:
        quirks['packed'] = True
    big = rng.random() < .15
    dense = rng.random() < .12 and not wide
    twice = rng.random() < .15
    far = rng.random() < .12 and not wide
    edge = rng.random() < .15
    pixel = rng.choice([.09] * 7 + [.03])
    # files need not start on a frame boundary
    phase = rng.choice([0, 0, 0, 0, 7, 13])
    if rng.random() < .25:
        quirks['sat'] = rng.choice(['west', 'west', 'test'])
    # the ellipsoid may be given instead of being taken from the date
    rev = rng.choice([-1, -1, -1, -1, 0, 1])
    below = S.nadir(quirks)
    centre = (below + rng.uniform(-25, 25), rng.uniform(-25, 25))
    t0 = S.t0_of(P.EPOCH + timedelta(seconds=start))
    x, y = S.geo_fixed(centre[0], centre[1], S.ellipse_rev(t0), below)
    cfg = {'t': start, 'frame_s': frame_s, 'frames': frames, 'dx': dx, 'dy': dy, 'nx': nx, 'ny': ny,
           'i0': int(np.floor(x / dx)) - nx // 2, 'j0': int(np.floor(y / dy)) - ny // 2, 'sat': quirks.get('sat', 'east'), 'rev': rev,
           'min_events': rng.choice([None, None, None, 1, 2, 4]), 'min_groups': rng.choice([None, None, None, 1, 2])}
    n = files or rng.choice([1, 2, 3, 4])
    slots = list(range(-1, frames * frame_s // 20 + 1))
    ids = {}
    specs = []
    for s in sorted(rng.sample(slots, min(n, len(slots)))):
        more = dict(n_flash=rng.randrange(4, 8), max_groups=6, spread=1) if dense else dict(max_groups=3, spread=4)
        if wide:
            more = dict(n_flash=70, max_groups=4, spread=35)
        spec = S.gen_file(rng, t0 + 20 * s + phase, centre, next_ids=ids, quirks=quirks, max_events=4, big_ids=big, pixel_deg=pixel, **more)
        if twice:
            again(rng, spec, ids)
        if dense:
            # many groups light the same pixel
            for e in spec['events']:
                if rng.random() < .6:
                    e[S.E_LAT], e[S.E_LON] = spec['events'][0][S.E_LAT], spec['events'][0][S.E_LON]
        if edge:
            to_edge(rng, spec)
        if far:
            outlying(rng, spec, ids)
        specs.append(spec)
    cfg['centre'] = centre
    return cfg, specs


def redeliver(rng, cfg, spec):
    """Another file for the slot of `spec`."""
    return S.gen_file(rng, spec['t0'], cfg['centre'], quirks=spec['quirks'], max_groups=3, max_events=4, spread=4)


def to_edge(rng, spec):
    """Some flashes lie around the border of what is read for the grid."""
    for f in spec['flashes']:
        if rng.random() < .5:
            gs = [g for g in spec['groups'] if g[S.G_PAR] == f[S.F_ID]]
            gi = {g[S.G_ID] for g in gs}
            es = [e for e in spec['events'] if e[S.E_PAR] in gi]
            a = rng.randrange(2)
            n = rng.choice([-1, 1]) * rng.randrange(300, 1100)
            for e in es:
                e[(S.E_LAT, S.E_LON)[a]] += n
            for r, c in [(f, (S.F_LAT, S.F_LON)[a])] + [(g, (S.G_LAT, S.G_LON)[a]) for g in gs]:
                r[c] = float(np.float32(r[c] + n * S.LL_SCALE))


def outlying(rng, spec, ids):
    """Some groups have an event far outside of any grid."""
    for g in spec['groups']:
        if rng.random() < .4:
            e = next(e for e in spec['events'] if e[S.E_PAR] == g[S.G_ID])
            e = [ids['e'] % (1 << 32)] + e[1:]
            e[rng.choice([S.E_LAT, S.E_LON])] += rng.choice([-1, 1]) * rng.randrange(3000, 4500)
            spec['events'].append(e)
            ids['e'] += 1


def again(rng, spec, ids):
    """Some pixels are lit twice in the same group."""
    for e in list(spec['events']):
        if rng.random() < .4:
            spec['events'].append([ids['e'] % (1 << 32)] + e[1:])
            ids['e'] += 1


def write(specs, folder):
    os.makedirs(folder, exist_ok=True)
    return [S.write(s, os.path.join(folder, S.filename(s))) for s in specs]


def bounds(cfg):
    dx, dy = P.cell(cfg)
    return (np.array([cfg['i0'] * dx, (cfg['i0'] + cfg['nx']) * dx]), np.array([cfg['j0'] * dy, (cfg['j0'] + cfg['ny']) * dy]))


def call(files, cfg, outpath, scaled=False, subdivide=1, **extra):
    """The real job.  Returns what grid_GLM_flashes returns."""
    from glmtools.grid.make_grids import grid_GLM_flashes
    from lmatools.grid.fixed import get_GOESR_coordsys
    below = S.nadir(cfg)
    coords, _ = get_GOESR_coordsys(below)
    start = P.start_of(cfg)
    end = start + timedelta(seconds=cfg['frame_s'] * cfg['frames'])
    xb, yb = bounds(cfg)
    kw = dict(proj_name='geos', base_date=datetime(start.year, start.month, start.day), dx=cfg['dx'], dy=P.cell(cfg)[1],
              frame_interval=float(cfg['frame_s']), x_bnd=xb, y_bnd=yb, ctr_lat=0., ctr_lon=below,
              outpath=outpath, min_points_per_flash=cfg.get('min_events'), min_groups_per_flash=cfg.get('min_groups'),
              output_writer=None, subdivide=subdivide, output_filename_prefix='GLM',
              output_kwargs={'scale_and_offset': scaled}, spatial_scale_factor=1., fixed_grid=True, nadir_lon=below,
              clip_events=True, energy_grids=('total_energy',), pixel_coords=coords, ellipse_rev=cfg['rev'])
    kw.update(extra)
    return grid_GLM_flashes(files, start, end, **kw)


def reference(cfg, specs):
    """Accumulated fields of every frame, computed with exact polygon intersections.

    Returns a list (one per frame) of {'fields', 'x', 'y', 'span', 'slack': {field: array}}.
    `slack` is what the cell may differ by; cells with slack inf are not compared.
    """
    from shapely.geometry import Polygon, box
    dx, dy = P.cell(cfg)
    nx, ny, nf = cfg['nx'], cfg['ny'], cfg['frames']
    shape = (nx, ny, nf)
    A = {f: np.zeros(shape) for f in P.FIELDS}
    sl = {f: np.zeros(shape) for f in P.FIELDS}
    touch = np.zeros(shape)
    start = P.start_of(cfg)
    # a sliver of a pixel may be missed: at most a few microradians along one side
    eps = 2e-3 if min(dx, dy) > 60e-6 else .12
    for spec in specs:
        ex = model.expected(spec, cfg['rev'])
        if not ex['event']:
            continue
        off = (S.dt_of(spec['t0']) - start).total_seconds()
        fl = {k: f for k, f in ex['flash'].items()
              if f['ne'] >= (cfg.get('min_events') or 0) and f['ng'] >= (cfg.get('min_groups') or 0)}
        gr = {k: g for k, g in ex['group'].items() if g['parent'] in fl}
        for kind, rows in (('flash_centroid_density', fl), ('group_centroid_density', gr)):
            for own, r in ((r.get('parent', n), r) for n, r in rows.items()):
                t = (off + r['t']) / cfg['frame_s']
                i, j = r['x'] / dx - cfg['i0'], r['y'] / dy - cfg['j0']
                k = int(np.floor(t))
                if not fl[own]['ne']:
                    # a flash that lost all of its events: counted or not
                    if 0 <= i < nx and 0 <= j < ny and 0 <= k < nf:
                        sl[kind][int(i), int(j), k] += 1
                near_t = abs(t - round(t)) * cfg['frame_s'] < 3e-3
                near_x = min(abs(i - round(i)) * dx, abs(j - round(j)) * dy) < 1.5e-6
                if near_t or near_x:
                    # on an edge: either side will do
                    for kk in {int(np.floor(t - 1e-4)), int(np.floor(t + 1e-4))} if near_t else {k}:
                        for ii in (int(np.floor(i - .02)), int(np.floor(i + .02))):
                            for jj in (int(np.floor(j - .02)), int(np.floor(j + .02))):
                                if 0 <= ii < nx and 0 <= jj < ny and 0 <= kk < nf:
                                    sl[kind][ii, jj, kk] += 1
                    if near_x and not near_t:
                        pass
                if 0 <= i < nx and 0 <= j < ny and 0 <= k < nf:
                    A[kind][int(i), int(j), k] += 1
        k = int(np.floor(off / cfg['frame_s']))
        if not 0 <= k < nf:
            continue
        pix = {}
        for e in ex['event'].values():
            if e['flash'] in fl:
                pix.setdefault((round(e['lon'], 7), round(e['lat'], 7)), []).append(e)
        rows = list(pix.values())
        if not rows:
            continue
        for es, q in zip(rows, quads([(es[0]['x'], es[0]['y']) for es in rows])):
            poly = Polygon(q)
            fids, gids = {e['flash'] for e in es}, {e['parent'] for e in es}
            en = sum(e['energy'] for e in es)
            fa, ga = sum(fl[f]['area'] for f in fids), sum(gr[g]['area'] for g in gids)
            mn = min(fl[f]['area'] for f in fids)
            lo = np.floor(q.min(axis=0) / (dx, dy)).astype(int) - [cfg['i0'], cfg['j0']]
            hi = np.floor(q.max(axis=0) / (dx, dy)).astype(int) - [cfg['i0'], cfg['j0']]
            for i in range(max(lo[0] - 1, 0), min(hi[0] + 2, nx)):
                for j in range(max(lo[1] - 1, 0), min(hi[1] + 2, ny)):
                    x0, y0 = (cfg['i0'] + i) * dx, (cfg['j0'] + j) * dy
                    a = poly.intersection(box(x0, y0, x0 + dx, y0 + dy)).area
                    w, pf = a / (dx * dy), a / poly.area
                    if w == 0 and poly.distance(box(x0, y0, x0 + dx, y0 + dy)) > .05 * min(dx, dy):
                        continue
                    c = (i, j, k)
                    for f, v in (('flash_extent_density', len(fids)), ('group_extent_density', len(gids)),
                                 ('average_flash_area', fa), ('average_group_area', ga)):
                        A[f][c] += v * w
                        sl[f][c] += v * eps
                    A['total_energy'][c] += en * pf
                    sl['total_energy'][c] += en * eps * dx * dy / poly.area
                    if w > eps:
                        old = A['minimum_flash_area'][c]
                        A['minimum_flash_area'][c] = min(old, mn) if old else mn
                    else:
                        sl['minimum_flash_area'][c] = np.inf
    out = []
    x, y = P.edges(cfg)
    for k in range(nf):
        fields, slack = {}, {}
        for f in P.FIELDS:
            a, s = A[f][:, :, k], sl[f][:, :, k]
            if f in P.OVER:
                d, ds = A[P.OVER[f]][:, :, k], sl[P.OVER[f]][:, :, k]
                with np.errstate(all='ignore'):
                    m = np.where(d > 0, a / d, 0)
                    # error of a ratio whose parts are off by s and ds
                    s = np.where(d > 3 * ds, (s + m * ds) / np.maximum(d - ds, 1e-9), np.where(d + ds > 0, np.inf, 0))
                a = m
            fields[f] = np.flipud(a.T)
            slack[f] = np.flipud(s.T) + 1e-4 * np.abs(np.flipud(a.T))
        out.append({'fields': fields, 'slack': slack, 'x': x, 'y': y[::-1], 'span': P.span(cfg)[k], 'sat': S.sat(cfg)})
    return out


def differ(got, ref, scaled, part=None):
    """'' or (kind, text).  `part`: (rows, columns) slices of the reference to use."""
    rs, cs = part or (slice(None), slice(None))
    for f in P.FIELDS:
        if f not in got['vars']:
            return 'field-missing', f
        a, w, s = got['vars'][f], ref['fields'][f][rs, cs], ref['slack'][f][rs, cs]
        if a.shape != w.shape:
            return 'field-shape', '%s is %s, expected %s' % (f, a.shape, w.shape)
        a = np.where(np.isnan(a), 0, a)
        st = P.STEP[f]
        tol = s + 1e-9
        if scaled:
            # stored in steps; anything below one step is stored as one
            w = np.where((w > 0) & (w < st), st, np.minimum(w, 65535 * st))
            tol = tol + .51 * st + np.where(s > 0, .5 * st, 0) * (w <= 2 * st)
        with np.errstate(all='ignore'):
            bad = ~(np.abs(a - w) <= tol) & np.isfinite(s)
        if bad.any():
            p = tuple(int(q) for q in np.argwhere(bad)[0])
            return 'wrong-value', '%s%s is %.8g, expected %.8g +- %.2g' % (f, p, a[p], w[p], tol[p])
    for c, ix in (('x', cs), ('y', rs)):
        a, w = got['vars'].get(c), ref[c][ix]
        if a is None or a.shape != w.shape or not (np.abs(a - w) <= P.off_lattice(w)).all():
            return 'wrong-coordinate', '%s is %s, expected %s' % (c, None if a is None else a[:4], w[:4])
    for key, t in zip(('time_coverage_start', 'time_coverage_end'), ref['span']):
        have = P.stamp(got['attrs'][key])
        if abs((have - t).total_seconds()) > 1e-3:
            return 'wrong-time', '%s is %s, expected %s' % (key, have, t)
    return P.wrong_satellite(got, ref['sat'])


def chunked(files, cfg, outpath, scaled, chunk):
    """The same job driven by hand, reading `chunk` flashes at a time."""
    from glmtools.grid.clipping import QuadMeshSubset
    from glmtools.grid.make_grids import GLMlutGridder
    from glmtools.io.glm import GLMDataset
    from glmtools.io.mimic_lma import read_flashes
    from lmatools.grid.fixed import get_GOESR_coordsys
    below = S.nadir(cfg)
    coords, _ = get_GOESR_coordsys(below)
    start = P.start_of(cfg)
    end = start + timedelta(seconds=cfg['frame_s'] * cfg['frames'])
    dx, dy = P.cell(cfg)
    n, m = int(2800e-6 / dx), int(2800e-6 / dy)
    xb, yb = bounds(cfg)
    xb, yb = xb + [-n * dx, n * dx], yb + [-m * dy, m * dy]
    g = GLMlutGridder(start, end, do_3d=False, proj_name='geos', base_date=datetime(start.year, start.month, start.day),
                      dx=dx, dy=dy, frame_interval=float(cfg['frame_s']), x_bnd=xb, y_bnd=yb, ctr_lat=0., ctr_lon=below,
                      spatial_scale_factor=1., energy_grids=('total_energy',), pixel_coords=coords,
                      event_grid_area_fraction_key='mesh_frac')
    mesh = QuadMeshSubset(*np.meshgrid(g.xedge, g.yedge), n_neighbors=160, regular=True)
    for k, f in enumerate(files):
        glm = GLMDataset(f, ellipse_rev=cfg['rev'])
        if k == 0:
            g.first_file_attrs = dict(glm.dataset.attrs)
        if glm.dataset.dims['number_of_events']:
            glm.dataset.load()
            read_flashes(glm, g.framer, base_date=g.t_ref, min_events=cfg.get('min_events'),
                         min_groups=cfg.get('min_groups'), x_range=xb, y_range=yb, clip_events=mesh, fixed_grid=True,
                         nadir_lon=below, chunk_size=chunk)
        glm.dataset.close()
    pad = slice(n, n + cfg['nx']), slice(m, m + cfg['ny'])
    return g.write_grids(outpath=outpath, output_kwargs={'scale_and_offset': scaled, 'pad': pad})
