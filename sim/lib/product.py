"""Gridders with known content, and the products they must give."""
import os
import re
from datetime import datetime, timedelta

import netCDF4
import numpy as np

import synth as S

FIELDS = ['flash_extent_density', 'flash_centroid_density', 'average_flash_area', 'total_energy',
          'group_extent_density', 'group_centroid_density', 'average_group_area', 'minimum_flash_area']
STEP = {'flash_extent_density': .0625, 'flash_centroid_density': 1., 'average_flash_area': 10.,
        'minimum_flash_area': 10., 'group_extent_density': .25, 'group_centroid_density': 1.,
        'average_group_area': 1., 'total_energy': 1.52597e-6}
OVER = {'average_flash_area': 'flash_extent_density', 'average_group_area': 'group_extent_density'}
EPOCH = datetime(2018, 1, 1)
NAME = re.compile(r'OR_GLM-L2-GLM(F|C|M1|M2)-M3_G1[67]_s\d{14}_e\d{14}_c\d{14}\.nc$')


def typical(rng, field):
    """A value, over the whole storable range and a little beyond."""
    s = STEP[field]
    k = rng.choice(['tiny', 'one', 'small', 'mid', 'big', 'edge', 'over'])
    v = {'tiny': rng.uniform(.01, .9) * s, 'one': s, 'small': rng.uniform(1, 20) * s,
         'mid': rng.uniform(20, 3000) * s, 'big': rng.uniform(30000, 65000) * s,
         'edge': 65535 * s, 'over': rng.uniform(65540, 200000) * s}[k]
    if field.endswith('centroid_density'):
        v = max(1, round(v))
    return float(np.float32(v))


def gen_cfg(rng, max_n=12, frames=None, cells=None, scenes=False):
    dx = rng.choice([56e-6, 56e-6, 280e-6, 224e-6, 112e-6])
    nx, ny = rng.randrange(2, max_n), rng.randrange(2, max_n)
    start = rng.randrange(0, 1200 * 86400, 20)
    if rng.random() < .2:
        start = rng.randrange(1, 1200) * 86400 - rng.choice([20, 40, 60, 120])
    cfg = {'t': start, 'frame_s': rng.choice([20, 60, 60, 300]),
           'frames': frames or rng.choice([1, 1, 2, 3]), 'dx': dx, 'nx': nx, 'ny': ny,
           'i0': rng.randrange(-400, 400), 'j0': rng.randrange(-400, 400),
           'sat': rng.choice(['east', 'east', 'west', 'test']), 'cells': [], 'bulk': None}
    if rng.random() < .15:
        cfg['bulk'] = [rng.randrange(1 << 30), rng.choice([.1, .5, .95])]
    for _ in range(cells if cells is not None else rng.choice([0, 3, 10, 25])):
        i, j, k = rng.randrange(nx), rng.randrange(ny), rng.randrange(cfg['frames'])
        if rng.random() < .5:
            # everything at one cell
            fed, ged = rng.uniform(.01, 40), rng.uniform(.01, 200)
            if rng.random() < .3:
                # a flash touches the cell with a sliver
                fed, ged = 10 ** rng.uniform(-6, -2), 10 ** rng.uniform(-6, -2)
            for f, v in (('flash_extent_density', fed), ('group_extent_density', ged),
                         ('average_flash_area', fed * rng.uniform(5, 9000)),
                         ('average_group_area', ged * rng.uniform(5, 9000)),
                         ('minimum_flash_area', rng.uniform(5, 9000)),
                         ('total_energy', rng.uniform(1e-7, .1))):
                cfg['cells'].append([f, i, j, k, float(np.float32(v))])
        else:
            f = rng.choice(FIELDS)
            cfg['cells'].append([f, i, j, k, typical(rng, f)])
    return cfg


def start_of(cfg):
    return EPOCH + timedelta(seconds=cfg['t'])


def span(cfg):
    """Start and end of each frame."""
    s = start_of(cfg)
    d = timedelta(seconds=cfg['frame_s'])
    return [(s + k * d, s + (k + 1) * d) for k in range(cfg['frames'])]


def content(cfg):
    """The accumulated fields as plain arrays."""
    shape = (cfg['nx'], cfg['ny'], cfg['frames'])
    out = {f: np.zeros(shape, 'f4') for f in FIELDS}
    if cfg['bulk']:
        r = np.random.RandomState(cfg['bulk'][0])
        for f in FIELDS:
            hit = r.rand(*shape) < cfg['bulk'][1]
            v = r.gamma(.6, 40 * STEP[f], shape)
            if f.endswith('centroid_density'):
                v = np.ceil(v)
            if f in OVER:
                v = v * out[OVER[f]] + .01 * (out[OVER[f]] > 0)
            out[f][...] = np.where(hit, v, 0)
    for f, i, j, k, v in cfg['cells']:
        if i < cfg['nx'] and j < cfg['ny'] and k < cfg['frames']:
            out[f][i, j, k] = v
    return out


def make(cfg):
    """A real gridder that holds `content(cfg)`."""
    from glmtools.grid.make_grids import GLMlutGridder
    from lmatools.grid.fixed import get_GOESR_coordsys
    platform, slot, instrument, below = S.sat(cfg)
    coords, _ = get_GOESR_coordsys(below)
    dx, dy = cell(cfg)
    nx, ny = cfg['nx'], cfg['ny']
    start = start_of(cfg)
    end = start + timedelta(seconds=cfg['frame_s'] * cfg['frames'])
    x0, y0 = cfg['i0'] * dx, cfg['j0'] * dy
    g = GLMlutGridder(start, end, do_3d=False, proj_name='geos',
                      base_date=datetime(start.year, start.month, start.day), dx=dx, dy=dy,
                      frame_interval=float(cfg['frame_s']), x_bnd=np.array([x0, x0 + nx * dx]),
                      y_bnd=np.array([y0, y0 + ny * dy]), ctr_lat=0, ctr_lon=below,
                      spatial_scale_factor=1., energy_grids=('total_energy',), pixel_coords=coords)
    g.first_file_attrs = {'platform_ID': platform, 'orbital_slot': slot, 'instrument_ID': instrument}
    names = list(g.field_names)
    for f, a in content(cfg).items():
        target = g.outgrids[names.index(f)]
        if target.shape != a.shape:
            raise RuntimeError('grid is %s, planned %s' % (target.shape, a.shape))
        target[...] = a
    return g


def cell(cfg):
    """Size of a cell each way."""
    return cfg['dx'], cfg.get('dy', cfg['dx'])


def edges(cfg):
    """Cell centres."""
    dx, dy = cell(cfg)
    return ((cfg['i0'] + np.arange(cfg['nx']) + .5) * dx, (cfg['j0'] + np.arange(cfg['ny']) + .5) * dy)


def expected(cfg, k, scaled=True, pad=None):
    """Frame k as the product must show it: {field: rows from the top}, x, y."""
    c = content(cfg)
    xs, ys = (slice(*pad[0]), slice(*pad[1])) if pad else (slice(None), slice(None))
    x, y = edges(cfg)
    out = {}
    for f in FIELDS:
        a = c[f][xs, ys, k].astype('f8')
        if f in OVER:
            d = c[OVER[f]][xs, ys, k].astype('f8')
            with np.errstate(all='ignore'):
                a = np.where((d > 0) & (a > 0), a / d, 0.0)
        out[f] = np.flipud(a.T)
    return {'fields': out, 'x': x[xs], 'y': y[ys][::-1], 'scaled': scaled,
            'span': span(cfg)[k], 'sat': S.sat(cfg)}


class Partial(Exception):
    pass


def read(path):
    """All of a product file, or Partial."""
    with open(path, 'rb') as f:
        buf = f.read()
    return parse(buf)


def parse(buf):
    try:
        ds = netCDF4.Dataset('product', memory=buf)
    except Exception as e:
        raise Partial('cannot be opened (%d bytes): %s' % (len(buf), str(e)[:200]))
    try:
        out = {'vars': {}, 'attrs': {k: ds.getncattr(k) for k in ds.ncattrs()}, 'vattrs': {}}
        for n, v in ds.variables.items():
            v.set_auto_maskandscale(False)
            raw = np.array(v[...])
            at = {k: v.getncattr(k) for k in v.ncattrs()}
            out['vattrs'][n] = at
            if str(at.get('_Unsigned', 'false')).lower() == 'true':
                raw = raw.astype('u%d' % raw.dtype.itemsize)
            val = raw.astype('f8')
            fill = at.get('_FillValue')
            if fill is not None:
                if raw.dtype.kind == 'u':
                    fill = np.asarray(fill).astype(raw.dtype)
                val = np.where(raw == fill, np.nan, val)
            val = val * at.get('scale_factor', 1.0) + at.get('add_offset', 0.0)
            out['vars'][n] = val
        return out
    except Exception as e:
        raise Partial('cannot be read: %s' % str(e)[:200])
    finally:
        ds.close()


def stamp(s):
    """Time of a coverage attribute."""
    s = str(s).rstrip('Z')
    return datetime.fromisoformat(s)


def off_lattice(w):
    """Coordinates are stored in steps of 56 microradians: how far from the nearest stored value."""
    k = w / 56e-6 - .5
    return np.abs(k - np.round(k)) * 56e-6 + 1.5e-6


def differ(got, exp):
    """'' or (kind, text): a product read back against what it must be."""
    for f, want in exp['fields'].items():
        if f not in got['vars']:
            return 'field-missing', f
        a = got['vars'][f]
        if a.shape != want.shape:
            return 'field-shape', '%s is %s, expected %s' % (f, a.shape, want.shape)
        empty = want == 0
        bad = empty & ~np.isnan(a)
        if bad.any():
            p = tuple(int(q) for q in np.argwhere(bad)[0])
            return 'empty-cell-filled', '%s%s is %r, expected missing' % (f, p, a[p])
        bad = ~empty & ~(a > 0)
        if bad.any():
            p = tuple(int(q) for q in np.argwhere(bad)[0])
            return 'cell-lost', '%s%s is %r, expected %r' % (f, p, a[p], want[p])
        w = want.copy()
        if exp['scaled']:
            s = STEP[f]
            w = np.where((w > 0) & (w < s), s, w)
            w = np.minimum(w, 65535 * s)
            tol = .5 * s * 1.001 + 1e-5 * np.abs(w)
        else:
            tol = 1e-5 * np.abs(w) + 1e-12
        with np.errstate(all='ignore'):
            bad = ~empty & ~(np.abs(a - w) <= tol)
        if bad.any():
            p = tuple(int(q) for q in np.argwhere(bad)[0])
            return 'wrong-value', '%s%s is %r, expected %r' % (f, p, a[p], w[p])
    for c in 'xy':
        a = got['vars'].get(c)
        if a is None or a.shape != exp[c].shape:
            return 'coordinate-shape', '%s: %s' % (c, None if a is None else a.shape)
        if not (np.abs(a - exp[c]) <= off_lattice(exp[c])).all():
            return 'wrong-coordinate', '%s is %s, expected %s' % (c, a[:4], exp[c][:4])
    q = got['vars'].get('DQF')
    if q is not None and not (q == 0).all():
        return 'marked-bad', 'quality flags %s' % np.unique(q)
    for key, t in zip(('time_coverage_start', 'time_coverage_end'), exp['span']):
        try:
            have = stamp(got['attrs'][key])
        except Exception as e:
            return 'bad-time', '%s: %s' % (key, e)
        if abs((have - t).total_seconds()) > 1e-3:
            return 'wrong-time', '%s is %s, expected %s' % (key, have, t)
    return wrong_satellite(got, exp['sat'])


def wrong_satellite(got, sat):
    """'' or (kind, text): what the product says about who saw it, and from where."""
    for key, want in zip(('platform_ID', 'orbital_slot', 'instrument_ID'), sat):
        if got['attrs'].get(key) != want:
            return 'wrong-platform', '%s is %s, expected %s' % (key, got['attrs'].get(key), want)
    at = [got['vars'].get('nominal_satellite_subpoint_lon'),
          got['vattrs'].get('goes_imager_projection', {}).get('longitude_of_projection_origin')]
    for a in at:
        if a is None or not abs(float(a) - sat[3]) < 1e-3:
            return 'wrong-projection', 'longitudes %s, expected %s' % (at, sat[3])
    return ''


def same(a, b, ignore=()):
    """Are two parsed products equal apart from creation metadata?  '' or what differs."""
    if set(a['vars']) != set(b['vars']):
        return 'variables %s' % sorted(set(a['vars']) ^ set(b['vars']))
    for n in a['vars']:
        x, y = a['vars'][n], b['vars'][n]
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            return n
    for k in set(a['attrs']) | set(b['attrs']):
        if k in ignore:
            continue
        if str(a['attrs'].get(k)) != str(b['attrs'].get(k)):
            return 'attribute %s: %s / %s' % (k, a['attrs'].get(k), b['attrs'].get(k))
    return ''


CREATION = ('date_created', 'dataset_name')
T_EXACT = '{start_time:%Y%m%d_%H%M%S}_{end_time:%H%M%S}.nc'


def exact_name(cfg, k):
    s, e = span(cfg)[k]
    return T_EXACT.format(start_time=s, end_time=e)


def name_times(name):
    """Start, end, creation times encoded in a standard product name."""
    m = re.search(r'_s(\d{14})_e(\d{14})_c(\d{14})', name)
    return tuple(datetime.strptime(g[:13], '%Y%j%H%M%S') for g in m.groups())


def product_files(top):
    """Relative paths of all files that look like products."""
    out = []
    for d, _, fs in os.walk(top):
        for f in fs:
            if f.endswith('.nc'):
                out.append(os.path.relpath(os.path.join(d, f), top))
    return sorted(out)
