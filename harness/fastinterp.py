"""Share triangulations between interpolators over the same points.

The corner table has ten thousand nodes; triangulating them eight times per
file would dominate the run time of whole gridding runs.  The triangulation is
a function of the points alone, so interpolated values are the same.
"""
import numpy as np
import scipy.interpolate
from scipy.spatial import Delaunay



def _coords(points):
    """As accepted by scipy: an array of points, or a tuple of coordinate arrays."""
    if isinstance(points, tuple):
        points = np.stack(np.broadcast_arrays(*points), axis=-1)
    return np.ascontiguousarray(points, dtype='f8')


_Plain = scipy.interpolate.LinearNDInterpolator
_cache = {}


class SharedLinearNDInterpolator(_Plain):
    def __init__(self, points, values, fill_value=np.nan, rescale=False):
        if not rescale and not isinstance(points, Delaunay):
            pts = _coords(points)
            if len(pts) > 1000:
                key = (pts.shape, pts.tobytes())
                if key not in _cache:
                    if len(_cache) >= 4:
                        _cache.pop(next(iter(_cache)))
                    _cache[key] = Delaunay(pts)
                points = _cache[key]
        _Plain.__init__(self, points, values, fill_value=fill_value, rescale=rescale)


def install():
    scipy.interpolate.LinearNDInterpolator = SharedLinearNDInterpolator


def warm(path, scale=1e-6):
    """Triangulate the nodes of a corner table before worker processes start."""
    import pickle
    with open(path, 'rb') as f:
        x, y = pickle.load(f)[:2]
    pts = _coords(((x * scale).flatten(), (y * scale).flatten()))
    _cache[(pts.shape, pts.tobytes())] = Delaunay(pts)
