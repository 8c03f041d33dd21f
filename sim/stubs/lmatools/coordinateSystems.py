import numpy as np
from lmatools import missing_names

RE = 6378137.0
RP = 6356752.31414
E2 = 1.0 - (RP / RE) ** 2
H = 35786023.0


class GeographicSystem(object):
    """Longitude, latitude (degrees), altitude (m) on GRS80."""

    def toECEF(self, lon, lat, alt):
        lon, lat = np.radians(lon), np.radians(lat)
        n = RE / np.sqrt(1.0 - E2 * np.sin(lat) ** 2)
        return ((n + alt) * np.cos(lat) * np.cos(lon),
                (n + alt) * np.cos(lat) * np.sin(lon),
                (n * (1.0 - E2) + alt) * np.sin(lat))

    def fromECEF(self, x, y, z):
        x, y, z = (np.asarray(a, dtype='f8') for a in (x, y, z))
        lon = np.arctan2(y, x)
        p = np.hypot(x, y)
        lat = np.arctan2(z, p * (1.0 - E2))
        alt = np.zeros_like(lat)
        for _ in range(8):
            n = RE / np.sqrt(1.0 - E2 * np.sin(lat) ** 2)
            alt = p / np.cos(lat) - n
            lat = np.arctan2(z, p * (1.0 - E2 * n / (n + alt)))
        return np.degrees(lon), np.degrees(lat), alt


class GeostationaryFixedGridSystem(object):
    """ABI fixed grid angles (rad, sweep x), GOES-R PUG volume 3 section 5.1.2.8."""

    def __init__(self, subsat_lon=0.0, **kwargs):
        self.lon0 = np.radians(subsat_lon)

    def toECEF(self, x, y, z):
        x, y = np.asarray(x, dtype='f8'), np.asarray(y, dtype='f8')
        big_h = H + RE
        a = (np.sin(x) ** 2 + np.cos(x) ** 2 *
             (np.cos(y) ** 2 + (RE / RP) ** 2 * np.sin(y) ** 2))
        b = -2.0 * big_h * np.cos(x) * np.cos(y)
        c = big_h ** 2 - RE ** 2
        rs = (-b - np.sqrt(b * b - 4.0 * a * c)) / (2.0 * a)
        sx = rs * np.cos(x) * np.cos(y)
        sy = -rs * np.sin(x)
        sz = rs * np.cos(x) * np.sin(y)
        ex, ey = big_h - sx, -sy
        return (ex * np.cos(self.lon0) - ey * np.sin(self.lon0),
                ex * np.sin(self.lon0) + ey * np.cos(self.lon0), sz)

    def fromECEF(self, x, y, z):
        x, y, z = (np.asarray(a, dtype='f8') for a in (x, y, z))
        ex = x * np.cos(self.lon0) + y * np.sin(self.lon0)
        ey = -x * np.sin(self.lon0) + y * np.cos(self.lon0)
        sx, sy = H + RE - ex, -ey
        r = np.sqrt(sx ** 2 + sy ** 2 + z ** 2)
        return np.arcsin(-sy / r), np.arctan(z / sx), np.zeros_like(r)


class MapProjection(object):
    """Identity stand-in; the simulator always passes pixel_coords."""

    def __init__(self, *args, **kwargs):
        raise NotImplementedError('lmatools stub: use pixel_coords')


__getattr__ = missing_names(__name__)
