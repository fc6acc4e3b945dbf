"""Grid set-up shared by gridders."""
from datetime import datetime, timedelta

import numpy as np

from lmatools.grid.fixed import GeographicSystem, get_GOESR_coordsys


class FlashGridder(object):
    def __init__(self, t_start, t_end, frame_interval=120.0, dx=4.0e3, dy=4.0e3,
                 dz=1.0e3, base_date=None, x_bnd=(-100e3, 100e3),
                 y_bnd=(-100e3, 100e3), z_bnd=(-20e3, 20e3), ctr_lat=33.5,
                 ctr_lon=-101.5, proj_name='aeqd', proj_datum='WGS84',
                 proj_ellipse='WGS84', pixel_coords=None, do_3d=True,
                 event_grid_area_fraction_key=None, energy_grids=None,
                 flash_count_logfile=None, min_points_per_flash=10,
                 spatial_scale_factor=1.0 / 1000.0):
        if base_date is None:
            base_date = datetime(t_start.year, t_start.month, t_start.day)
        self.t_ref = base_date
        self.t_start, self.t_end = t_start, t_end
        self.frame_interval = frame_interval
        self.dx, self.dy, self.dz = dx, dy, dz
        self.proj_name = proj_name
        self.ctr_lat, self.ctr_lon = ctr_lat, ctr_lon
        self.do_3d = do_3d
        self.energy_grids = energy_grids
        self.event_grid_area_fraction_key = event_grid_area_fraction_key
        self.flash_count_logfile = flash_count_logfile
        self.min_points_per_flash = min_points_per_flash
        self.spatial_scale_factor = spatial_scale_factor

        def edges(bnd, d):
            n = int(round((bnd[1] - bnd[0]) / d))
            return bnd[0] + d * np.arange(n + 1)
        self.x_bnd, self.y_bnd, self.z_bnd = x_bnd, y_bnd, z_bnd
        self.xedge, self.yedge, self.zedge = (
            edges(x_bnd, dx), edges(y_bnd, dy), edges(z_bnd, dz))

        self.geoProj = GeographicSystem()
        if proj_name in ('geos', 'pixel_grid') and pixel_coords is not None:
            self.mapProj = pixel_coords
        elif proj_name == 'geos':
            self.mapProj = get_GOESR_coordsys(sat_lon_nadir=ctr_lon)[0]
        else:
            self.mapProj = self.geoProj

        duration = (t_end - t_start).total_seconds()
        self.n_frames = int(np.ceil(duration / frame_interval))
        self.t_edges = [t_start + timedelta(0, frame_interval) * i
                        for i in range(self.n_frames + 1)]
        self.t_edges_seconds = [(t - self.t_ref).total_seconds()
                                for t in self.t_edges]
        self.duration = duration
        self.pipeline_setup()
        self.output_setup()


def write_cf_netcdf_latlon(*args, **kwargs):
    raise NotImplementedError("not part of the stand-in")


write_cf_netcdf_noproj = write_cf_netcdf_latlon
write_cf_netcdf_fixedgrid = write_cf_netcdf_latlon
grid_h5flashfiles = write_cf_netcdf_latlon


def dlonlat_at_grid_center(ctr_lat, ctr_lon, dx=4.0e3, dy=4.0e3,
                           x_bnd=(-100e3, 100e3), y_bnd=(-100e3, 100e3),
                           proj_datum='WGS84', proj_ellipse='WGS84'):
    """Spacing and limits in degrees of a grid given in metres."""
    m_per_deg = np.pi * 6371.0e3 / 180.0
    dlat = 1.0 / m_per_deg
    dlon = dlat / np.cos(np.radians(ctr_lat))
    return (dx * dlon, dy * dlat,
            tuple(ctr_lon + v * dlon for v in x_bnd),
            tuple(ctr_lat + v * dlat for v in y_bnd))
