"""Plane polygons and quadrilateral meshes for the geometry checks."""
import numpy as np
import shapely
from shapely.geometry import Polygon, box  # noqa: F401

CLIP_STEP = 2.0 ** -31   # resolution of the clipping library's integers


def star(rng, n, cx, cy, r0, r1, cw=False, squash=1.0):
    """Simple polygon of n vertices around (cx, cy) with radii in [r0, r1]."""
    # one vertex in each of n sectors keeps the polygon simple and not flat
    a = (np.arange(n) + rng.uniform(0.1, 0.9, n)) * 2 * np.pi / n + rng.uniform(0, 6)
    r = rng.uniform(r0, r1, n)
    p = np.stack([cx + r * np.cos(a), cy + r * np.sin(a) * squash], axis=-1)
    p = np.roll(p, rng.randint(n), axis=0)
    return p[::-1].copy() if cw else p


def comb(rng, teeth, x0, y0, w, h):
    """Comb with prongs pointing up: a clip near its top gives many pieces."""
    pts = [(x0, y0)]
    n = 2 * teeth - 1
    pts.append((x0 + w, y0))
    for k in range(n, 0, -1):
        xr, xl = x0 + w * k / n, x0 + w * (k - 1) / n
        if k % 2:
            pts += [(xr, y0 + h), (xl, y0 + h)]
        else:
            pts += [(xr, y0 + 0.3 * h), (xl, y0 + 0.3 * h)]
    out = []
    for q in pts:
        if not out or q != out[-1]:
            out.append(q)
    if out[0] == out[-1]:
        out.pop()
    return np.array(out, dtype='f8')


def signed_area(p):
    """Shoelace formula relative to the first vertex."""
    q = np.asarray(p, dtype='f8')
    q = q - q[0]
    x, y = q[:, 0], q[:, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def perimeter(p):
    q = np.asarray(p, dtype='f8')
    return float(np.hypot(*(q - np.roll(q, -1, axis=0)).T).sum())


def rings_to_shape(rings):
    """Region of a list of outlines where holes are wound the other way."""
    g = Polygon()
    # largest first, so that islands within holes are added after the hole is cut
    for r in sorted(rings, key=lambda r: -abs(signed_area(r))):
        q = Polygon(r).buffer(0)
        g = g.union(q) if signed_area(r) > 0 else g.difference(q)
    return g


def mesh_edges(rng, nx, ny, kind, orient, scale, x0, y0):
    """2-D edge arrays of a mesh of nx by ny cells.

    kind: even, uneven (rectilinear), sheared, rotated, jittered.
    orient: xy -- x along the second dimension, ij -- along the first.
    """
    if kind == 'uneven':
        xs = np.concatenate([[0], np.cumsum(rng.uniform(0.4, 1.8, nx))])
        ys = np.concatenate([[0], np.cumsum(rng.uniform(0.4, 1.8, ny))])
    else:
        xs, ys = np.arange(nx + 1.0), np.arange(ny + 1.0)
    X, Y = np.meshgrid(xs, ys, indexing='xy' if orient == 'xy' else 'ij')
    if kind == 'sheared':
        X = X + 0.4 * Y
    elif kind == 'rotated':
        c, s = np.cos(0.5), np.sin(0.5)
        X, Y = c * X - s * Y, s * X + c * Y
    elif kind == 'jittered':
        X = X + rng.uniform(-0.2, 0.2, X.shape)
        Y = Y + rng.uniform(-0.2, 0.2, Y.shape)
    return X * scale + x0, Y * scale + y0


def cell(X, Y, i, j):
    return np.array([[X[i, j], Y[i, j]], [X[i, j + 1], Y[i, j + 1]],
                     [X[i + 1, j + 1], Y[i + 1, j + 1]], [X[i + 1, j], Y[i + 1, j]]])
