"""Reference for reading onto a mesh: locations, footprints, overlaps."""
import math

import numpy as np
import shapely

from harness.poly import CLIP_STEP

SUMS = ('power', 'mesh_frac', 'lutevent_count', 'lutevent_flash_count', 'lutevent_group_count',
        'lutevent_total_flash_area', 'lutevent_total_group_area')


def locations(ds, flashes, scale=28e-6, start=-0.31):
    """Event locations of the given flashes, aggregated over cells of a fine raster."""
    fl = set(int(i) for i in flashes)
    ef = ds.event_parent_flash_id.data.tolist()
    eg = ds.event_parent_group_id.data.tolist()
    x, y = ds.event_x.data.astype('f8'), ds.event_y.data.astype('f8')
    en = ds.event_energy.data.astype('f8')
    fa = dict(zip(ds.flash_id.data.tolist(), ds.flash_area.data.astype('f8').tolist()))
    ga = dict(zip(ds.group_id.data.tolist(), ds.group_area.data.astype('f8').tolist()))
    cells = {}
    for r in range(len(x)):
        if ef[r] in fl:
            c = (math.floor((x[r] - start) / scale), math.floor((y[r] - start) / scale))
            cells.setdefault(c, []).append(r)
    out = []
    for c, rows in sorted(cells.items()):
        fs, gs = sorted({ef[r] for r in rows}), sorted({eg[r] for r in rows})
        out.append(dict(x=x[rows].mean(), y=y[rows].mean(), energy=en[rows].sum(),
                        count=len(rows), flash_count=len(fs), group_count=len(gs),
                        total_flash_area=sum(fa[k] for k in fs),
                        total_group_area=sum(ga[k] for k in gs),
                        min_flash_area=min(fa[k] for k in fs)))
    return out


def table_nodes(n=5, half=1.9e5):
    g = np.linspace(-half, half, n)
    return np.meshgrid(g, g)


def affine_table(c0, cx, cy, n=5, half=1.9e5):
    """Corner table (microradians) whose offsets are affine in position.

    c0: 4x2 offsets at the centre; cx, cy: 4x2 change over the half width.
    """
    X, Y = table_nodes(n, half)
    c0, cx, cy = (np.asarray(a, dtype='f8') for a in (c0, cx, cy))
    corners = (c0 + (X / half)[..., None, None] * cx + (Y / half)[..., None, None] * cy)
    return X, Y, corners


def affine_offsets(c0, cx, cy, x, y, half=1.9e5):
    """Offsets at positions in radians, result in radians, shape (n, 4, 2)."""
    c0, cx, cy = (np.asarray(a, dtype='f8') for a in (c0, cx, cy))
    u = np.asarray(x)[:, None, None] * 1e6 / half
    v = np.asarray(y)[:, None, None] * 1e6 / half
    return (c0 + u * cx + v * cy) * 1e-6


def overlaps(quads, xe, ye):
    """[(area, perimeter, {(ix, iy): overlap area})] for polygons and rectilinear cells."""
    return [(area, per, {c: a for c, (a, gap) in d.items()})
            for area, per, d in overlaps_gaps(quads, xe, ye)]


def overlaps_gaps(quads, xe, ye):
    """As overlaps, with the distance of the cell from the polygon beside each area."""
    out = []
    polys = shapely.polygons(np.asarray(quads))
    for p in polys:
        x0, y0, x1, y1 = p.bounds
        i0 = max(np.searchsorted(xe, x0) - 2, 0)
        i1 = min(np.searchsorted(xe, x1) + 2, len(xe) - 1)
        j0 = max(np.searchsorted(ye, y0) - 2, 0)
        j1 = min(np.searchsorted(ye, y1) + 2, len(ye) - 1)
        I, J = np.meshgrid(np.arange(i0, i1), np.arange(j0, j1))
        I, J = I.ravel(), J.ravel()
        d = {}
        if len(I):
            boxes = shapely.box(xe[I], ye[J], xe[I + 1], ye[J + 1])
            a = shapely.area(shapely.intersection(p, boxes))
            gap = shapely.distance(p, boxes)
            d = {(int(i), int(j)): (float(v), float(g)) for i, j, v, g in zip(I, J, a, gap)}
        out.append((p.area, p.length, d))
    return out


def expected_cells(locs, quads, xe, ye):
    """{cell: {'sum': {...}, 'tol': {...}, 'min': (low, high), 'area': overlap}}"""
    cells = {}
    for loc, (area, per, ov) in zip(locs, overlaps_gaps(quads, xe, ye)):
        for (i, j), (a, gap) in ov.items():
            w, h = xe[i + 1] - xe[i], ye[j + 1] - ye[j]
            tol = 4 * CLIP_STEP * min(per, 2 * (w + h))
            # corners are rounded to the resolution, which can carry one just across an edge
            touch = a > 0 or gap <= 4 * CLIP_STEP
            c = cells.setdefault((i, j), dict(sum=dict.fromkeys(SUMS, 0.0),
                                              tol=dict.fromkeys(SUMS, 0.0),
                                              sure=[], maybe=[], area=0.0, atol=0.0))
            if not touch:
                continue
            weights = dict(power=loc['energy'] / area, mesh_frac=1.0 / (w * h),
                           lutevent_count=loc['count'] / (w * h),
                           lutevent_flash_count=loc['flash_count'] / (w * h),
                           lutevent_group_count=loc['group_count'] / (w * h),
                           lutevent_total_flash_area=loc['total_flash_area'] / (w * h),
                           lutevent_total_group_area=loc['total_group_area'] / (w * h))
            for k in SUMS:
                c['sum'][k] += weights[k] * a
                c['tol'][k] += weights[k] * tol
            c['area'] += a
            c['atol'] += tol
            (c['sure'] if a > tol else c['maybe']).append(loc['min_flash_area'])
    return cells
