"""Polygon selection of table rows, with a polygon for each time window."""
from matplotlib.path import Path
import numpy as np


class TimeSeriesPolygonLassoFilter(object):
    def __init__(self, coord_names=('lon', 'lat'), time_key='time',
                 time_edges=None, polys=None, basedate=None):
        self.coord_names, self.time_key = coord_names, time_key
        self.polys = polys
        self.edges = [(t - basedate).total_seconds() for t in time_edges]

    def filter_mask(self, a):
        mask = np.zeros(a.shape, dtype=bool)
        xy = np.stack([a[n] for n in self.coord_names], axis=-1)
        for poly, t0, t1 in zip(self.polys, self.edges[:-1], self.edges[1:]):
            inside = Path(poly).contains_points(xy) if len(a) else mask
            mask |= inside & (a[self.time_key] >= t0) & (a[self.time_key] < t1)
        return mask
