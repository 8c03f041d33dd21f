"""Synthetic GLM L2 LCFA files.

A file is a plain JSON-able dict of flat tables, so a scenario can be stored,
shrunk and replayed:

  {'t0': seconds since 2000-01-01 12:00, 'quirks': {...},
   'flashes': [[id, lat, lon, area_raw, energy_raw, first, last], ...],
   'groups':  [[id, parent, lat, lon, area_raw, energy_raw, t], ...],
   'events':  [[id, parent, lat_raw, lon_raw, energy_raw, t], ...]}

Raw values are the stored integers.  Times are raw counts too.
"""
import math
from datetime import datetime, timedelta

import netCDF4
import numpy as np

EPOCH = datetime(2000, 1, 1, 12)
LL_SCALE = 0.00203128
LAT_OFF = -66.56
E_SCALE = 1.52597e-15
# step and offset of energies; later files have an offset
ENERGY = [(E_SCALE, 0.0), (np.float32(E_SCALE), np.float32(0)), (np.float32(1.9024e-17), np.float32(2.8515e-16))]
A_SCALE = 0.15163901
A_OFF = 63.095734
NADIR = -75.0
# platform, orbital slot, instrument, longitude below the satellite
SATS = {'east': ('G16', 'GOES-East', 'FM1', -75.0), 'west': ('G17', 'GOES-West', 'FM2', -137.0),
        'test': ('G16', 'GOES-Test', 'FM1', -89.5)}
FOV = 66.56

F_ID, F_LAT, F_LON, F_AREA, F_EN, F_T0, F_T1 = range(7)
G_ID, G_PAR, G_LAT, G_LON, G_AREA, G_EN, G_T = range(7)
E_ID, E_PAR, E_LAT, E_LON, E_EN, E_T = range(6)


def t0_of(dt):
    return int(round((dt - EPOCH).total_seconds()))


def dt_of(t0):
    return EPOCH + timedelta(seconds=t0)


def lat_raw(lat):
    return int(round((lat - LAT_OFF) / LL_SCALE))


def energy_of(raw, quirks=None):
    """Stored energy in J."""
    step, off = ENERGY[(quirks or {}).get('energy', 0)]
    return raw * float(step) + float(off)


def sat(quirks):
    return SATS[(quirks or {}).get('sat', 'east')]


def nadir(quirks):
    return sat(quirks)[3]


def lon_raw(lon, at=NADIR):
    return int(round((lon - at + FOV) / LL_SCALE))


def lat_of(raw):
    return raw * LL_SCALE + LAT_OFF


def lon_of(raw, at=NADIR):
    return raw * LL_SCALE + (at - FOV)


def filename(spec, tag=''):
    start = dt_of(spec['t0'])
    end = start + timedelta(seconds=20)
    return 'OR_GLM-L2-LCFA_{3}_s{0}0_e{1}0_c{1}{2}0.nc'.format(
        start.strftime('%Y%j%H%M%S'), end.strftime('%Y%j%H%M%S'), tag, sat(spec.get('quirks'))[0])


def _signed(values, bits):
    a = np.asarray(values, dtype='i8')
    return a.astype('u%d' % (bits // 8)).astype('i%d' % (bits // 8))


def _make(ds, name, dtype, dim, data, fill=None, **attrs):
    packed = {}
    if dim and len(data) and attrs.pop('packed', False):
        packed = dict(zlib=True, chunksizes=(min(len(data), 16),))
    attrs.pop('packed', None)
    v = ds.createVariable(name, dtype, dim, fill_value=fill, **packed)
    v.set_auto_maskandscale(False)
    for k, a in attrs.items():
        v.setncattr(k.replace('Unsigned', '_Unsigned'), a)
    if dim == () or len(data):
        v[...] = data
    return v


def write(spec, path):
    """Write `spec` as a netCDF4 file with the layout of the operational product."""
    q = spec.get('quirks', {})

    def _var(ds, *a, **k):
        return _make(ds, *a, packed=q.get('packed'), **k)
    ds = netCDF4.Dataset(path, 'w')
    platform, slot, instrument, at = sat(q)
    fl, gr, ev = spec['flashes'], spec['groups'], spec['events']
    ds.createDimension('number_of_flashes', len(fl))
    ds.createDimension('number_of_groups', len(gr))
    ds.createDimension('number_of_events', len(ev))
    ds.createDimension('number_of_time_bounds', 2)
    ds.createDimension('number_of_field_of_view_bounds', 2)
    ds.createDimension('number_of_wavelength_bounds', 2)
    start = dt_of(spec['t0'])
    stamp = start.strftime('%Y-%m-%d %H:%M:%S.000')
    E, G, F = (('number_of_events',), ('number_of_groups',), ('number_of_flashes',))

    def col(rows, i):
        return [r[i] for r in rows]

    if q.get('late_times'):
        # layout introduced with build D0.07
        tatt = dict(scale_factor=np.float32(0.0003814756), add_offset=np.float32(-5.0),
                    units='seconds since ' + stamp, axis='T')
        if not q.get('unsigned_missing'):
            tatt['Unsigned'] = 'true'
    else:
        tatt = dict(scale_factor=2.0, add_offset=0.0,
                    units='milliseconds since ' + stamp, axis='T')
    ll = dict(Unsigned='true', scale_factor=LL_SCALE)
    step, off = ENERGY[q.get('energy', 0)]
    en = dict(Unsigned='true', scale_factor=step, add_offset=off, units='J')
    ar = dict(Unsigned='true', scale_factor=np.float32(A_SCALE),
              add_offset=np.float32(A_OFF), units='km2')
    m2 = dict(Unsigned='true', scale_factor=np.float32(A_SCALE * 1e6),
              add_offset=np.float32(A_OFF * 1e6), units='m2')
    far, gar = (m2 if q.get('area_m2') in (True, lv) else ar for lv in ('flash', 'group'))
    vr = dict(valid_range=np.asarray([0, -6], 'i2'))
    ids = dict(Unsigned='true', units='1')
    fill = np.int16(-1)
    extra_t = bool(q.get('late_times'))

    _var(ds, 'event_id', 'i4', E, _signed(col(ev, E_ID), 32), **ids)
    _var(ds, 'event_time_offset', 'i2', E, _signed(col(ev, E_T), 16), **tatt)
    _var(ds, 'event_lat', 'i2', E, _signed(col(ev, E_LAT), 16), add_offset=LAT_OFF,
         units='degrees_north', axis='Y', **ll)
    _var(ds, 'event_lon', 'i2', E, _signed(col(ev, E_LON), 16), add_offset=at - FOV,
         units='degrees_east', axis='X', **ll)
    _var(ds, 'event_energy', 'i2', E, _signed(col(ev, E_EN), 16), fill=fill,
         coordinates='event_parent_group_id event_id lightning_wavelength '
         'event_time_offset event_lat event_lon', **en)
    _var(ds, 'event_parent_group_id', 'i4', E, _signed(col(ev, E_PAR), 32), **ids)

    _var(ds, 'group_id', 'i4', G, _signed(col(gr, G_ID), 32), **ids)
    _var(ds, 'group_time_offset', 'i2', G, _signed(col(gr, G_T), 16), **tatt)
    if extra_t:
        _var(ds, 'group_frame_time_offset', 'i2', G, _signed(col(gr, G_T), 16), **tatt)
    _var(ds, 'group_lat', 'f4', G, col(gr, G_LAT), units='degrees_north', axis='Y')
    _var(ds, 'group_lon', 'f4', G, col(gr, G_LON), units='degrees_east', axis='X')
    gco = ('group_parent_flash_id event_parent_group_id group_id lightning_wavelength '
           'group_time_offset group_lat group_lon')
    _var(ds, 'group_area', 'i2', G, _signed(col(gr, G_AREA), 16), fill=fill,
         coordinates=gco, **dict(gar, **vr))
    _var(ds, 'group_energy', 'i2', G, _signed(col(gr, G_EN), 16), fill=fill,
         coordinates=gco, **dict(en, **vr))
    _var(ds, 'group_parent_flash_id', 'i2', G, _signed(col(gr, G_PAR), 16), **ids)
    _var(ds, 'group_quality_flag', 'i2', G, _signed([0] * len(gr), 16), fill=fill,
         Unsigned='true', units='1')

    _var(ds, 'flash_id', 'i2', F, _signed(col(fl, F_ID), 16), **ids)
    for n in (('flash_time_offset_of_first_event',) +
              (('flash_frame_time_offset_of_first_event',) if extra_t else ())):
        _var(ds, n, 'i2', F, _signed(col(fl, F_T0), 16), **tatt)
    for n in (('flash_time_offset_of_last_event',) +
              (('flash_frame_time_offset_of_last_event',) if extra_t else ())):
        _var(ds, n, 'i2', F, _signed(col(fl, F_T1), 16), **tatt)
    _var(ds, 'flash_lat', 'f4', F, col(fl, F_LAT), units='degrees_north', axis='Y')
    _var(ds, 'flash_lon', 'f4', F, col(fl, F_LON), units='degrees_east', axis='X')
    fco = ('group_parent_flash_id flash_id lightning_wavelength flash_time_threshold '
           'flash_time_offset_of_first_event flash_time_offset_of_last_event '
           'flash_lat flash_lon')
    _var(ds, 'flash_area', 'i2', F, _signed(col(fl, F_AREA), 16), fill=fill,
         coordinates=fco, **dict(far, **vr))
    _var(ds, 'flash_energy', 'i2', F, _signed(col(fl, F_EN), 16), fill=fill,
         coordinates=fco, **dict(en, **vr))
    _var(ds, 'flash_quality_flag', 'i2', F, _signed([0] * len(fl), 16), fill=fill,
         Unsigned='true', units='1')

    _var(ds, 'product_time', 'f8', (), float(spec['t0']),
         units='seconds since 2000-01-01 12:00:00', axis='T', bounds='product_time_bounds')
    _var(ds, 'product_time_bounds', 'f8', ('number_of_time_bounds',),
         [float(spec['t0']), float(spec['t0'] + 20)])
    _var(ds, 'lightning_wavelength', 'f4', (), 777.37, units='nm',
         bounds='lightning_wavelength_bounds')
    _var(ds, 'lightning_wavelength_bounds', 'f4', ('number_of_wavelength_bounds',),
         [776.87, 777.87])
    _var(ds, 'group_time_threshold', 'f4', (), 0.0, units='s')
    _var(ds, 'flash_time_threshold', 'f4', (), 3.33, units='s')
    _var(ds, 'lat_field_of_view', 'f4', (), 0.0, units='degrees_north', axis='Y',
         bounds='lat_field_of_view_bounds')
    _var(ds, 'lat_field_of_view_bounds', 'f4', ('number_of_field_of_view_bounds',),
         [66.56, -66.56])
    _var(ds, 'lon_field_of_view', 'f4', (), at, units='degrees_east', axis='X',
         bounds='lon_field_of_view_bounds')
    _var(ds, 'lon_field_of_view_bounds', 'f4', ('number_of_field_of_view_bounds',),
         [at - FOV, at + FOV])
    _var(ds, 'goes_lat_lon_projection', 'i4', (), -2147483647,
         grid_mapping_name='latitude_longitude')
    for n, c in (('event_count', len(ev)), ('group_count', len(gr)),
                 ('flash_count', len(fl))):
        _var(ds, n, 'i4', (), c, fill=np.int32(-1), units='count',
             coordinates='lightning_wavelength product_time lat_field_of_view '
             'lon_field_of_view')
    _var(ds, 'yaw_flip_flag', 'i1', (), 0, fill=np.int8(-1), Unsigned='true', units='1',
         coordinates='product_time')
    for n, c, u in (('nominal_satellite_subpoint_lat', 0.0, 'degrees_north'),
                    ('nominal_satellite_height', 35786.023, 'km'),
                    ('nominal_satellite_subpoint_lon', at, 'degrees_east')):
        _var(ds, n, 'f4', (), c, fill=np.float32(-999.0), units=u)
    attrs = dict(dataset_name=filename(spec), platform_ID=platform,
                 orbital_slot=slot, instrument_ID=instrument,
                 instrument_type='GOES R Series Geostationary Lightning Mapper',
                 title='GLM L2 Lightning Detections: Events, Groups, and Flashes',
                 time_coverage_start=start.strftime('%Y-%m-%dT%H:%M:%S.0Z'),
                 time_coverage_end=(start + timedelta(seconds=20)).strftime(
                     '%Y-%m-%dT%H:%M:%S.0Z'),
                 production_site='SIM')
    for k, v in attrs.items():
        ds.setncattr(k, v)
    ds.close()
    return path


def raw_time(seconds, quirks):
    if quirks.get('late_times'):
        return int(round((seconds + 5.0) / 0.0003814756))
    return int(round(seconds * 1000.0 / 2.0))


def seconds_of(raw, quirks):
    """Offset from the file start, in seconds, as the operational format means it."""
    if quirks.get('late_times'):
        return float(np.float32(0.0003814756)) * (raw % 65536) - 5.0
    return (raw if raw < 32768 else raw - 65536) * 2.0 / 1000.0


def geo_fixed(lon, lat, rev, at=NADIR):
    """Independent lon/lat (lightning ellipsoid) -> fixed grid angles."""
    a, b = ((6.394140e6, 6.362755e6), (6.392137e6, 6.362755e6))[rev]
    re, rp, h = 6.378137e6, 6.35675231414e6, 35.786023e6
    dlon = math.radians(((lon - at) + 180.0) % 360.0 - 180.0)
    gc = math.atan((rp / re) ** 2 * math.tan(math.radians(lat)))
    # distance from the centre to the ellipsoid surface at geocentric latitude gc
    r = 1.0 / math.sqrt((math.cos(gc) / a) ** 2 + (math.sin(gc) / b) ** 2)
    sx = h + re - r * math.cos(gc) * math.cos(dlon)
    sy = r * math.cos(gc) * math.sin(dlon)
    sz = r * math.sin(gc)
    n = math.sqrt(sx * sx + sy * sy + sz * sz)
    return math.asin(sy / n), math.atan2(sz, sx)


def ellipse_rev(t0):
    return 0 if dt_of(t0) < datetime(2018, 10, 15) else 1


def _f32(x):
    return float(np.float32(x))


def gen_file(rng, t0, centre=None, n_flash=None, next_ids=None, quirks=None,
             max_groups=4, max_events=5, pixel_deg=0.09, spread=6, big_ids=False):
    """A well formed file: flashes on a pixel lattice around `centre` (lon, lat)."""
    q = dict(quirks or {})
    at = nadir(q)
    if centre is None:
        centre = (at + rng.uniform(-35, 35), rng.uniform(-35, 35))
    if n_flash is None:
        n_flash = rng.choice([0, 1, 1, 2, 3, 4, 6])
    ids = next_ids if next_ids is not None else {}
    # IDs count up and start again at 0 after the largest one
    for k, top in (('f', 1 << 16), ('g', 1 << 32), ('e', 1 << 32)):
        ids.setdefault(k, rng.choice([rng.randrange(top), top - rng.randrange(1, 9)]) if big_ids else rng.randrange(2000))
    flashes, groups, events = [], [], []
    step = max(1, int(round(pixel_deg / LL_SCALE)))
    c_lat, c_lon = lat_raw(centre[1]), lon_raw(centre[0], at)
    tmax = 18.0
    for _ in range(n_flash):
        fx, fy = rng.randrange(-spread, spread + 1), rng.randrange(-spread, spread + 1)
        fid = ids['f'] % (1 << 16)
        ids['f'] += rng.choice([1, 1, 1, 2, 7])
        f_t = rng.uniform(-0.9, tmax)
        f_groups = []
        for _ in range(rng.randrange(1, max_groups + 1)):
            gid = ids['g'] % (1 << 32)
            ids['g'] += rng.choice([1, 1, 2])
            g_t = min(f_t + rng.uniform(0, 1.0), tmax)
            pix = set()
            for _ in range(rng.randrange(1, max_events + 1)):
                pix.add((fx + rng.randrange(-2, 3), fy + rng.randrange(-2, 3)))
            g_ev = []
            for px, py in sorted(pix):
                eid = ids['e'] % (1 << 32)
                ids['e'] += rng.choice([1, 1, 3])
                er = rng.choice([0, 1, 2, 3, 5, 9, 40, 300, 2000])
                g_ev.append([eid, gid, c_lat + py * step, c_lon + px * step, er,
                             raw_time(g_t, q)])
            lats = [lat_of(e[E_LAT]) for e in g_ev]
            lons = [lon_of(e[E_LON], at) for e in g_ev]
            g = [gid, fid, _f32(sum(lats) / len(lats)), _f32(sum(lons) / len(lons)),
                 rng.choice([0, 1, 43, 700, 2500, 9000]),
                 min(65530, sum(e[E_EN] for e in g_ev)), raw_time(g_t, q)]
            groups.append(g)
            f_groups.append(g)
            events.extend(g_ev)
        flashes.append([fid, _f32(sum(g[G_LAT] for g in f_groups) / len(f_groups)),
                        _f32(sum(g[G_LON] for g in f_groups) / len(f_groups)),
                        rng.choice([0, 5, 43, 1200, 3254, 20000, 60000]),
                        min(65530, sum(g[G_EN] for g in f_groups)),
                        min(g[G_T] for g in f_groups), max(g[G_T] for g in f_groups)])
    return {'t0': t0, 'quirks': q, 'flashes': flashes, 'groups': groups, 'events': events}
