from datetime import datetime, timedelta
import numpy as np
from lmatools import missing_names
from lmatools.coordinateSystems import GeographicSystem


def time_edges(start_time, end_time, frame_interval):
    frame_dt = timedelta(0, frame_interval, 0)
    duration = end_time - start_time
    n_frames = int(np.ceil(duration.total_seconds() / frame_dt.total_seconds()))
    return [start_time + i * frame_dt for i in range(n_frames + 1)], duration


class FlashGridder(object):
    def __init__(self, start_time, end_time, do_3d=True, frame_interval=120.0,
                 dx=4.0e3, dy=4.0e3, dz=1.0e3, base_date=None,
                 x_bnd=(-100e3, 100e3), y_bnd=(-100e3, 100e3),
                 z_bnd=(-20e3, 20e3), ctr_lat=33.5, ctr_lon=-101.5,
                 ctr_alt=0.0, proj_name='aeqd', proj_datum='WGS84',
                 proj_ellipse='WGS84', pixel_coords=None,
                 flash_count_logfile=None, energy_grids=None,
                 event_grid_area_fraction_key=None,
                 spatial_scale_factor=1.0 / 1000.0):
        self.start_time, self.end_time = start_time, end_time
        self.do_3d = do_3d
        self.frame_interval = frame_interval
        self.base_date = base_date
        self.dx, self.dy, self.dz = dx, dy, dz
        self.x_bnd, self.y_bnd, self.z_bnd = x_bnd, y_bnd, z_bnd
        self.ctr_lat, self.ctr_lon, self.ctr_alt = ctr_lat, ctr_lon, ctr_alt
        self.proj_name = proj_name
        self.proj_datum, self.proj_ellipse = proj_datum, proj_ellipse
        self.flash_count_logfile = flash_count_logfile
        self.energy_grids = energy_grids
        self.event_grid_area_fraction_key = event_grid_area_fraction_key
        self.spatial_scale_factor = spatial_scale_factor
        self.min_points_per_flash = 1

        ref = start_time if base_date is None else base_date
        self.t_ref = datetime(ref.year, ref.month, ref.day)
        self.t_edges, self.duration = time_edges(start_time, end_time,
                                                 frame_interval)
        self.t_edges_seconds = [(t - self.t_ref).total_seconds()
                                for t in self.t_edges]
        self.n_frames = len(self.t_edges) - 1

        # Same extent as np.arange(bnd[0], bnd[1]+dx, dx) without its
        # occasional extra element from rounding.
        def edges(bnd, d):
            return bnd[0] + d * np.arange(int(round((bnd[1] - bnd[0]) / d)) + 1)
        self.xedge = edges(x_bnd, dx)
        self.yedge = edges(y_bnd, dy)
        self.zedge = edges(z_bnd, dz)
        self.mapProj = pixel_coords
        self.geoProj = GeographicSystem()

        self.pipeline_setup()
        self.output_setup()


__getattr__ = missing_names(__name__)
