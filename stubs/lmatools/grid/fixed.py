"""GOES-R fixed grid: coordinate systems and grid definitions."""
import numpy as np

GRS80_REQ = 6378137.0
GRS80_RPOL = 6356752.31414
SAT_HEIGHT = 35786023.0

goesr_nadir_lon = {'east': -75.0, 'west': -137.0, 'test': -89.5}

goesr_full = {'spanEW': 0.303744, 'spanNS': 0.303744,
              'centerEW': 0.0, 'centerNS': 0.0}
goesr_conus = {'spanEW': 0.14, 'spanNS': 0.084,
               'centerEW': None, 'centerNS': None}
goesr_meso = {'spanEW': 0.028, 'spanNS': 0.028,
              'centerEW': None, 'centerNS': None}
goesr_resolutions = {
    '0.5km': 14e-6,
    '1.0km': 28e-6,
    '2.0km': 56e-6,
    '4.0km': 112e-6,
    '8.0km': 224e-6,
    '10.0km': 280e-6,
    '100.0km': 2800e-6,
}


class GeographicSystem(object):
    """Longitude, latitude, altitude on GRS80."""

    def toECEF(self, lon, lat, alt):
        lon, lat = np.radians(np.asarray(lon, 'f8')), np.radians(np.asarray(lat, 'f8'))
        alt = np.asarray(alt, 'f8')
        e2 = 1.0 - (GRS80_RPOL / GRS80_REQ) ** 2
        n = GRS80_REQ / np.sqrt(1.0 - e2 * np.sin(lat) ** 2)
        return ((n + alt) * np.cos(lat) * np.cos(lon),
                (n + alt) * np.cos(lat) * np.sin(lon),
                (n * (1.0 - e2) + alt) * np.sin(lat))

    def fromECEF(self, x, y, z):
        x, y, z = (np.asarray(v, 'f8') for v in (x, y, z))
        e2 = 1.0 - (GRS80_RPOL / GRS80_REQ) ** 2
        p = np.hypot(x, y)
        lat = np.arctan2(z, p * (1.0 - e2))
        for _ in range(6):
            n = GRS80_REQ / np.sqrt(1.0 - e2 * np.sin(lat) ** 2)
            lat = np.arctan2(z + e2 * n * np.sin(lat), p)
        n = GRS80_REQ / np.sqrt(1.0 - e2 * np.sin(lat) ** 2)
        alt = p * np.cos(lat) + z * np.sin(lat) - n * (1 - e2 * np.sin(lat) ** 2)
        return np.degrees(np.arctan2(y, x)), np.degrees(lat), alt


class GeostationaryFixedGridSystem(object):
    """Scan angles (radians, sweep axis x) seen from a geostationary orbit."""

    def __init__(self, nadir_lon):
        self.subsat_lon = 0.0 if nadir_lon is None else float(nadir_lon)
        self.sweep_axis = 'x'

    def toECEF(self, x, y, z):
        x, y = np.asarray(x, 'f8'), np.asarray(y, 'f8')
        h = SAT_HEIGHT + GRS80_REQ
        r2 = (GRS80_REQ / GRS80_RPOL) ** 2
        cx, sx, cy, sy = np.cos(x), np.sin(x), np.cos(y), np.sin(y)
        a = sx ** 2 + cx ** 2 * (cy ** 2 + r2 * sy ** 2)
        b = -2.0 * h * cx * cy
        c = h ** 2 - GRS80_REQ ** 2
        rs = (-b - np.sqrt(b ** 2 - 4 * a * c)) / (2 * a)
        u, v, w = h - rs * cx * cy, rs * sx, rs * cx * sy
        lam = np.radians(self.subsat_lon)
        return (u * np.cos(lam) - v * np.sin(lam),
                u * np.sin(lam) + v * np.cos(lam), w)

    def fromECEF(self, x, y, z):
        lam = np.radians(self.subsat_lon)
        x, y, z = (np.asarray(v, 'f8') for v in (x, y, z))
        u = x * np.cos(lam) + y * np.sin(lam)
        v = -x * np.sin(lam) + y * np.cos(lam)
        sx = SAT_HEIGHT + GRS80_REQ - u
        return (np.arctan2(v, np.hypot(sx, z)), np.arctan2(z, sx),
                np.zeros_like(z))


def get_GOESR_coordsys(sat_lon_nadir=-75.0):
    return GeostationaryFixedGridSystem(sat_lon_nadir), GeographicSystem()


goesr_east_conus = {'centerEW': -0.031360, 'centerNS': 0.086240}
goesr_west_conus = {'centerEW': 0.000000, 'centerNS': 0.086240}
goesr_test_conus = {'centerEW': -0.005040, 'centerNS': 0.084560}


def get_GOESR_grid(position='east', view='full', resolution='2.0km'):
    """Grid definition for one of the standard sectors."""
    grid = {}
    grid['resolution'] = goesr_resolutions[resolution]
    grid['nadir_lon'] = goesr_nadir_lon[position]
    if view == 'full':
        grid.update(goesr_full)
    elif view == 'conus':
        grid.update(goesr_conus)
        grid.update({'east': goesr_east_conus, 'west': goesr_west_conus,
                     'test': goesr_test_conus}[position])
    elif view == 'meso':
        grid['spanEW'], grid['spanNS'] = goesr_meso['spanEW'], goesr_meso['spanNS']
    else:
        raise ValueError("Unknown view %s" % view)
    grid['pixelsEW'] = int(round(grid['spanEW'] / grid['resolution']))
    grid['pixelsNS'] = int(round(grid['spanNS'] / grid['resolution']))
    return grid
