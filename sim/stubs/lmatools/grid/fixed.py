from lmatools import missing_names
from lmatools.coordinateSystems import (GeographicSystem,
                                        GeostationaryFixedGridSystem)

goesr_nadir_lon = {'east': -75.0, 'west': -137.0, 'test': -89.5}

goesr_resolutions = {
    '0.5km': 14e-6, '1.0km': 28e-6, '2.0km': 56e-6,
    '4.0km': 112e-6, '8.0km': 224e-6, '10.0km': 280e-6,
}

goesr_full = {'spanEW': 0.303744, 'spanNS': 0.303744,
              'centerEW': 0.0, 'centerNS': 0.0}
goesr_conus = {'spanEW': 0.14, 'spanNS': 0.084}
goesr_meso = {'spanEW': 0.028, 'spanNS': 0.028}
goesr_east_conus_center = {'centerEW': -0.031360, 'centerNS': 0.086240}
goesr_west_conus_center = {'centerEW': 0.0, 'centerNS': 0.086240}


def get_GOESR_grid(position='east', view='full', resolution='2.0km'):
    out = {'resolution': goesr_resolutions[resolution],
           'nadir_lon': goesr_nadir_lon[position]}
    table = {'full': goesr_full, 'conus': goesr_conus, 'meso': goesr_meso}[view]
    out.update(table)
    if view == 'conus':
        out.update(goesr_east_conus_center if position == 'east'
                   else goesr_west_conus_center)
    out['pixelsEW'] = int(round(out['spanEW'] / out['resolution']))
    out['pixelsNS'] = int(round(out['spanNS'] / out['resolution']))
    return out


def get_GOESR_coordsys(sat_lon_nadir=-75.0):
    return GeostationaryFixedGridSystem(subsat_lon=sat_lon_nadir), GeographicSystem()


__getattr__ = missing_names(__name__)
