"""Viewing geometry and plane geometry written independently of glmtools."""
import math

import numpy as np

GRS80 = (6378137.0, 6356752.31414)
SAT_HEIGHT = 35786023.0
RADII = {0: (6.394140e6, 6.362755e6), 1: (6392137.0, 6.362755e6), 'earth': GRS80}


def project(lon, lat, sat_lon, rev, grs=GRS80, height=SAT_HEIGHT):
    """Fixed grid angles (x, y) of the point on the lightning ellipsoid."""
    re, rp = RADII[rev]
    dlon = np.radians(np.asarray(lon, 'f8') - float(sat_lon))
    lat = np.radians(np.asarray(lat, 'f8'))
    # geocentric direction of the geodetic latitude on GRS80
    z = (grs[1] / grs[0]) ** 2 * np.sin(lat)
    p = np.cos(lat)
    n = np.hypot(p, z)
    cz, cp = z / n, p / n
    r = 1.0 / np.sqrt((cp / re) ** 2 + (cz / rp) ** 2)
    px, py, pz = r * cp * np.cos(dlon), r * cp * np.sin(dlon), r * cz
    H = height + grs[0]
    vx, vy, vz = H - px, py, pz
    x = np.arctan2(vy, np.hypot(vx, vz))
    y = np.arctan2(vz, vx)
    return x, y


def unproject(x, y, sat_lon, rev, grs=GRS80, height=SAT_HEIGHT):
    """Longitude, latitude of the nearer hit of the ray with the ellipsoid."""
    re, rp = RADII[rev]
    H = height + grs[0]
    dx, dy, dz = -np.cos(x) * np.cos(y), np.sin(x), np.cos(x) * np.sin(y)
    # (H+t dx)^2/re^2 + (t dy)^2/re^2 + (t dz)^2/rp^2 = 1
    a = (dx ** 2 + dy ** 2) / re ** 2 + dz ** 2 / rp ** 2
    b = 2 * H * dx / re ** 2
    c = H ** 2 / re ** 2 - 1
    t = (-b - np.sqrt(b * b - 4 * a * c)) / (2 * a)
    px, py, pz = H + t * dx, t * dy, t * dz
    lon = np.degrees(np.arctan2(py, px)) + sat_lon
    gc = np.arctan2(pz, np.hypot(px, py))
    lat = np.degrees(np.arctan(np.tan(gc) * (grs[0] / grs[1]) ** 2))
    return lon, lat


def angle_diff(a, b):
    d = (np.asarray(a) - np.asarray(b) + 180.0) % 360.0 - 180.0
    return d


def shoelace(pts):
    """Signed area; positive counter-clockwise."""
    s = 0.0
    n = len(pts)
    x0, y0 = pts[0]
    for i in range(n):
        x1, y1 = pts[i][0] - x0, pts[i][1] - y0
        x2, y2 = pts[(i + 1) % n][0] - x0, pts[(i + 1) % n][1] - y0
        s += x1 * y2 - x2 * y1
    return 0.5 * s


def deg(v):
    return math.degrees(v)
