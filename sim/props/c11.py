import inspect
import os
from datetime import datetime, timedelta

import job as J
import numpy as np
import product as P
import synth as S
from core import Violation
from props import c06
from world import Clock

ID = 'C11'
RUNS = {'quick': 320, 'thorough': 6000}
RULE = ('a run counts when a job was split into at least two tiles; distinct by the hash of the operation trace, the tiles and their order')
STATES = 'distinct (tiles per side, cells, order of tiles, fault, outcome) tuples'
REAL = ['glmtools.grid (all of the clipping gridder and the tiling)', 'glmtools.io.glm', 'glmtools.io.mimic_lma', 'glmtools.io.imagery',
        'xarray', 'netCDF4/HDF5', 'pyclipper', 'scipy']
STUB = ['lmatools gridder base class and fixed-grid tables', 'input files are synthetic', 'clock', 'process death',
        'file call results at injected faults']
ASSUMPTIONS = ['a tile has at least two cells each way', 'no flash is wider than the 100 km margin read around a tile']
SHRINK = ['specs', 'specs.*.flashes', 'faults', 'order']


def gen_wide(rng):
    """A larger area with several storms, some of them on the borders of tiles."""
    cfg, _ = J.gen(rng, files=1, frames=rng.choice([1, 1, 2]), dxs=(112e-6, 224e-6, 280e-6), oblong=True)
    s = rng.choice([2, 2, 3, 4])
    cfg['nx'], cfg['ny'] = rng.randrange(3 * s, 27), rng.randrange(3 * s, 27)
    (dx, dy), t0 = P.cell(cfg), S.t0_of(P.start_of(cfg))
    # somewhere near the middle of the disk, so that all of the grid is on it
    below = S.nadir(cfg)
    lon, lat = below + rng.uniform(-15, 15), rng.uniform(-15, 15)
    x, y = S.geo_fixed(lon, lat, S.ellipse_rev(t0), below)
    cfg['i0'], cfg['j0'] = int(np.floor(x / dx)) - cfg['nx'] // 2, int(np.floor(y / dy)) - cfg['ny'] // 2
    half = cfg['nx'] * dx / 2 / 160e-6 * .09, cfg['ny'] * dy / 2 / 160e-6 * .09
    quirks = {'late_times': True} if rng.random() < .4 else {}
    quirks['sat'] = cfg['sat']
    pixel = int(round(.09 / S.LL_SCALE))
    ids, specs = {}, []
    slots = list(range(0, cfg['frames'] * cfg['frame_s'] // 20))
    for slot in sorted(rng.sample(slots, min(len(slots), rng.choice([1, 2])))):
        parts = []
        for _ in range(rng.choice([1, 2, 3])):
            # all storms share one pixel lattice: pixels closer than 28 microradians count as one place
            c = (S.lon_of(S.lon_raw(lon, below) + pixel * round(rng.uniform(-1, 1) * half[0] / .09), below),
                 S.lat_of(S.lat_raw(lat) + pixel * round(rng.uniform(-1, 1) * half[1] / .09)))
            parts.append(S.gen_file(rng, t0 + 20 * slot, c, n_flash=rng.choice([1, 2, 3]), next_ids=ids, quirks=quirks,
                                    max_groups=2, max_events=4, spread=3))
        for p in parts[1:]:
            for k in ('flashes', 'groups', 'events'):
                parts[0][k] += p[k]
        specs.append(parts[0])
    return cfg, specs, s


def generate(rng, tier):
    cfg, specs, s = gen_wide(rng)
    sc = {'cfg': cfg, 'specs': specs, 's': s, 'scaled': rng.random() < .5, 'tick': rng.choice([1.05, 1.05, 1.05, 3, 0]),
          'clock': rng.randrange(1500000000, 1700000000) + .25, 'faults': [], 'order': [], 'sub': rng.random() < .3}
    if rng.random() < .35:
        sc['faults'] = [c06.gen_fault(rng, 'j') for _ in range(rng.choice([1, 1, 2]))]
        for f in sc['faults']:
            if rng.random() < .6:
                f['nth'] += rng.randrange(0, 400) if f['cls'] == 'write' else rng.randrange(0, 12)
    elif rng.random() < .4:
        sc['order'] = list(range(s * s))
        rng.shuffle(sc['order'])
    return sc


def one_by_one(files, cfg, out, scaled, s, order):
    """Tiles as separate calls, in a given order; None if the pieces are not there."""
    try:
        from glmtools.grid.make_grids import proc_each_grid, subdivided_fixed_grid
        inspect.signature(proc_each_grid).bind((), start_time=0, end_time=0, GLM_filenames=[])
        inspect.signature(subdivided_fixed_grid).bind({}, {}, {}, s=1)
    except (ImportError, TypeError):
        return None
    from lmatools.grid.fixed import get_GOESR_coordsys
    below = S.nadir(cfg)
    coords, _ = get_GOESR_coordsys(below)
    start = P.start_of(cfg)
    end = start + timedelta(seconds=cfg['frame_s'] * cfg['frames'])
    xb, yb = J.bounds(cfg)
    grid = dict(do_3d=False, proj_name='geos', base_date=datetime(start.year, start.month, start.day), dx=cfg['dx'], dy=P.cell(cfg)[1],
                frame_interval=float(cfg['frame_s']), x_bnd=xb, y_bnd=yb, ctr_lat=0., ctr_lon=below, spatial_scale_factor=1.,
                energy_grids=('total_energy',), pixel_coords=coords, event_grid_area_fraction_key='mesh_frac')
    proc = dict(min_points_per_flash=cfg.get('min_events'), min_groups_per_flash=cfg.get('min_groups'), clip_events=True,
                fixed_grid=True, nadir_lon=below, ellipse_rev=cfg['rev'])
    opts = dict(outpath=out, output_writer=None, output_kwargs={'scale_and_offset': scaled}, output_filename_prefix='GLM')
    tiles = list(subdivided_fixed_grid(grid, proc, opts, s=s))
    todo = [i for i in order if i < len(tiles)]
    todo += [i for i in range(len(tiles)) if i not in todo]
    for i in todo:
        proc_each_grid(tiles[i], start_time=start, end_time=end, GLM_filenames=files)
    return True


def place(got, ref, cfg):
    """Row and column slices of a tile, from its coordinates."""
    out = []
    for c, d in zip('yx', P.cell(cfg)[::-1]):
        a, w = got['vars'][c], ref[c]
        if a.ndim != 1 or not len(a):
            return None
        k = int(np.argmin(np.abs(w - a[0])))
        if abs(w[k] - a[0]) > .26 * d or k + len(a) > len(w):
            return None
        out.append(slice(k, k + len(a)))
    return tuple(out)


def execute(sc, ctx):
    cfg, s = sc['cfg'], sc['s']
    if not sc['specs']:
        return
    src = J.write(sc['specs'], ctx.scratch('in'))
    ref = J.reference(cfg, sc['specs'])
    w = ctx.world('w', faults=sc['faults'])
    out = os.path.join(w.disk, 'd' if sc['sub'] else '', '{dataset_name}')
    opts = {'scale_and_offset': sc['scaled']}

    def work():
        if sc['order'] and one_by_one(src, cfg, out, sc['scaled'], s, sc['order']):
            return 'one by one'
        J.call(src, cfg, out, subdivide=s, output_kwargs=opts)
        if opts != {'scale_and_offset': sc['scaled']}:
            raise Violation('options-changed', str(opts))
        return 'whole'
    p = w.spawn('j', work, clock=Clock(sc['clock'], sc['tick']))
    if not w.run():
        raise Violation('no-progress')
    ctx.absorb(w)
    hard = [f for f in w.fired if f[3] not in c06.SOFT]
    if p.status == 'error' and p.error['type'] == 'Violation':
        raise Violation('options-changed', p.error['text'])
    if p.status not in ('ok', 'crashed'):
        ctx.check(hard and p.status in ('error', 'signal'), 'job-raised', lambda: '%s %s' % (p.status, p.error and p.error['where']))
    base = None
    if p.status == 'ok':
        # the same job as one piece
        one = ctx.scratch('whole')
        J.call(src, cfg, os.path.join(one, P.T_EXACT), scaled=sc['scaled'])
        base = [P.read(os.path.join(one, P.exact_name(cfg, k))) for k in range(cfg['frames'])]
    cover = [np.zeros(ref[0]['fields']['total_energy'].shape, int) for _ in ref]
    top = os.path.dirname(out)
    files = sorted(f for f in os.listdir(top) if P.NAME.match(f)) if os.path.isdir(top) else []
    spans = P.span(cfg)
    for f in files:
        try:
            got = P.read(os.path.join(top, f))
        except P.Partial as e:
            raise Violation('partial-product', '%s' % e)
        when = P.stamp(got['attrs']['time_coverage_start'])
        k = next((k for k, t in enumerate(spans) if t[0] == when), None)
        ctx.check(k is not None, 'foreign-product', str(when))
        at = place(got, ref[k], cfg)
        ctx.check(at is not None, 'tile-outside-grid', lambda: 'x %s y %s' % (got['vars']['x'][:3], got['vars']['y'][:3]))
        cover[k][at] += 1
        bad = J.differ(got, ref[k], sc['scaled'], part=at)
        if bad:
            ctx.fail(bad[0], 'tile at rows %s columns %s: %s' % (at[0], at[1], bad[1]))
        if base is not None:
            bad = same_part(got, base[k], at, sc['scaled'])
            ctx.check(not bad, 'tile-differs', lambda: 'from the untiled product: ' + bad)
        ctx.probe('tiles compared')
        ctx.log(k, at[0].start, at[1].start, got['vars']['x'].shape, float('%.3g' % np.nansum(got['vars']['total_energy'])))
    for k, c in enumerate(cover):
        ctx.check(c.max() <= 1, 'cell-covered-twice', 'frame %d' % k)
        if p.status == 'ok':
            if not c.min():
                if len(files) < s * s * cfg['frames'] and sc['tick'] < 1:
                    ctx.fail('tiles-share-a-name', '%d products for %d tiles made within one second' % (len(files), s * s * cfg['frames']))
                ctx.fail('cell-not-covered', 'frame %d: %d of %d cells, %d products' % (k, (c == 0).sum(), c.size, len(files)))
    ctx.nontrivial = True
    if sc['order']:
        ctx.fault('tiles in another order')
    ctx.probe('job ' + p.status)
    ctx.state(s, cfg['nx'], cfg['ny'], tuple(sc['order']), tuple(f[1:] for f in w.fired), p.status)
    ctx.sim_seconds += cfg['frames'] * cfg['frame_s']


def same_part(a, b, at, scaled):
    for f in P.FIELDS:
        u, v = a['vars'][f], b['vars'][f][at]
        if u.shape != v.shape:
            return f + ' shape'
        u, v = (np.where(np.isnan(x), 0, x) for x in (u, v))
        tol = 2e-4 * np.abs(v) + (1.01 * P.STEP[f] if scaled else 1e-4 * P.STEP[f])
        if (np.abs(u - v) > tol).any():
            return f
    return ''
