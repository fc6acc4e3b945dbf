"""Gridders with prepared contents, for tests of image output."""
from datetime import timedelta

import numpy as np

from harness import gridrun as gr

STEPS = dict(flash_extent_density=0.0625, flash_centroid_density=1.0, average_flash_area=10.0,
             minimum_flash_area=10.0, group_extent_density=0.25, group_centroid_density=1.0,
             average_group_area=1.0, total_energy=1.52597e-6)
DIVIDED = {'average_flash_area': 'flash_extent_density',
           'average_group_area': 'group_extent_density'}
ATTRS = dict(platform_ID='G16', orbital_slot='GOES-East', instrument_ID='GLM-1')


def gridder(g, sat_lon, attrs=ATTRS):
    """A look-up table gridder for grid dict g (see gridrun.keywords)."""
    from glmtools.grid.make_grids import GLMlutGridder
    kw, _, _ = gr.arguments(g, '.', sat_lon)
    t0 = gr.stamp(g['start'])
    if g.get('base_s') is not None:
        kw['base_date'] = t0 + timedelta(seconds=g['base_s'])
    out = GLMlutGridder(t0, t0 + timedelta(seconds=g['seconds']), **kw)
    out.first_file_attrs = dict(attrs)
    return out


def fill(gd, values):
    """values: {field: array[ix, iy, frame]} put into the gridder's own arrays."""
    for grid, name in zip(gd.outgrids, gd.field_names):
        grid[...] = values[name].astype('f4')


def contents(gd):
    return {n: np.array(a) for n, a in zip(gd.field_names, gd.outgrids)}
