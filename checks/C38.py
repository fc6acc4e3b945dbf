"""Images describe themselves to tools that know only the conventions."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import geo, glmgen as gg, imgmake as im
from harness.core import Test, expect, expect_close, expect_equal

RULE = ('Grids of 2-12 by 2-12 cells of 112-2800 microradians anywhere on the disk, from '
        'satellites at eleven longitudes, every cell with a value of its own, scaled or not, and up '
        'to 12 places per image in cells of any row and column. Non-trivial: not square, and at '
        'least two places in different rows and columns. Oracle: netCDF4 without any decoding, '
        'the packing and geostationary mapping applied from the attributes by the CF rules '
        '(pyproj reads the mapping), against the prepared arrays and a separately written '
        'projection; one storage step for scaled values, else 1e-6.')

DISCOVERY = ['title', 'summary', 'institution', 'project', 'keywords', 'keywords_vocabulary',
             'license', 'naming_authority', 'id', 'processing_level', 'cdm_data_type',
             'standard_name_vocabulary', 'instrument_type', 'production_site',
             'production_environment', 'production_data_source', 'iso_series_metadata_id',
             'Metadata_Conventions']


@st.composite
def cases(draw):
    dx, dy = [draw(st.sampled_from([112e-6, 280e-6, 150e-6, 560e-6, 2800e-6])) for _ in range(2)]
    nx, ny = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    cx, cy = draw(st.integers(-85, 85)) / 1000, draw(st.integers(-85, 85)) / 1000
    return {'grid': {'dx': dx, 'dy': dy, 'nx': nx, 'ny': ny, 'x0': cx - dx * nx / 2,
                     'y0': cy - dy * ny / 2, 'start': draw(st.sampled_from([gg.T_BASE, gg.T_LATE])), 'interval': 60, 'seconds': 60},
            'sat_lon': draw(st.sampled_from(gg.SAT_LONS + [-75.1873, -88.37, 61.5])),
            'scaled': draw(st.booleans()), 'seed': draw(st.integers(0, 2 ** 31)),
            'places': draw(st.lists(st.tuples(st.integers(0, nx - 1), st.integers(0, ny - 1),
                                              st.integers(30, 70), st.integers(30, 70)),
                                    min_size=1, max_size=12))}


def unpack(var):
    """Value of a variable by the CF packing rules, nan where it is missing."""
    raw = np.asarray(var[...])
    at = {k: var.getncattr(k) for k in var.ncattrs()}
    if str(at.get('_Unsigned', 'false')).lower() == 'true':
        u = np.dtype('u%d' % raw.dtype.itemsize)
        raw = raw.view(u) if raw.ndim else raw.reshape(1).view(u)[0]
        if '_FillValue' in at:
            at['_FillValue'] = np.asarray(at['_FillValue']).astype(u)
    out = raw.astype('f8') * float(at.get('scale_factor', 1.0)) + float(at.get('add_offset', 0.0))
    if '_FillValue' in at:
        out = np.where(raw == at['_FillValue'], np.nan, out)
    return out


def transformer(at, pyproj, known={}):
    """From longitude and latitude to the plane of a grid mapping."""
    key = tuple(sorted((k, str(v)) for k, v in at.items()))
    if key not in known:   # reading one takes half a second
        crs = pyproj.CRS.from_cf(at)
        known[key] = pyproj.Transformer.from_crs(crs.geodetic_crs, crs, always_xy=True)
    return known[key]


def warm():
    import netCDF4  # noqa: F401
    import pyproj  # noqa: F401
    import glmtools.io.imagery  # noqa: F401


def body(case, ctx):
    import netCDF4
    import pyproj
    from glmtools.io.imagery import write_goes_imagery
    g = case['grid']
    nx, ny = g['nx'], g['ny']
    rng = np.random.default_rng(case['seed'])
    with ctx.sut('set up'):
        gd = im.gridder(g, case['sat_lon'])
    vals = {}
    for f, step in im.STEPS.items():
        k = rng.permutation(nx * ny).reshape(nx, ny, 1) * 3 + rng.integers(2, 40)
        vals[f] = k * step
    for f, d in im.DIVIDED.items():
        vals[f] = vals[f] * vals[d]
    im.fill(gd, vals)
    with ctx.sut('write_goes_imagery'):
        path, = write_goes_imagery(gd, outpath=os.path.join(ctx.tmp, '{dataset_name}'),
                                   scale_and_offset=case['scaled'])
    nc = netCDF4.Dataset(path)
    nc.set_auto_maskandscale(False)
    try:
        inspect(case, nc, vals, pyproj, ctx)
    finally:
        nc.close()
    ctx.label('scaled' if case['scaled'] else 'unscaled')
    p = case['places']
    ctx.nontrivial = (nx != ny and len({a[0] for a in p}) > 1 and len({a[1] for a in p}) > 1)


def inspect(case, nc, vals, pyproj, ctx):
    g = case['grid']
    have = set(nc.ncattrs())
    expect('Conventions' in have and 'CF-1' in nc.Conventions, 'conventions')
    for k in DISCOVERY:
        expect(k in have and str(nc.getncattr(k)).strip(), 'the attribute %s is missing', k)
    axes = {}
    for v in nc.variables.values():
        if 'axis' in v.ncattrs():
            expect(v.dimensions == (v.name,), 'axis %s has dimensions %s', v.name, v.dimensions)
            axes[v.getncattr('axis')] = v
    expect(set(axes) == {'X', 'Y'}, 'axes %s', sorted(axes))
    names = {}
    for a, v in axes.items():
        at = {k: v.getncattr(k) for k in v.ncattrs()}
        expect_equal(at.get('standard_name'), 'projection_%s_coordinate' % a.lower(),
                     'standard name of axis ' + a)
        expect_equal(at.get('units'), 'rad', 'units of axis ' + a)
        expect(at.get('long_name'), 'axis %s has no long name', a)
    x, y = unpack(axes['X']), unpack(axes['Y'])
    expect(np.isfinite(x).all() and np.isfinite(y).all(), 'missing coordinates')
    lon0 = [v for v in nc.variables.values() if getattr(v, 'standard_name', '') == 'longitude']
    lat0 = [v for v in nc.variables.values() if getattr(v, 'standard_name', '') == 'latitude']
    expect(len(lon0) == len(lat0) == 1, 'subpoint')
    for v, w, u in ((lon0[0], case['sat_lon'], 'degrees_east'), (lat0[0], 0.0, 'degrees_north')):
        expect_close(unpack(v), w, v.name, 0, 1e-4)
        expect_equal(getattr(v, 'units', None), u, 'units of ' + v.name)
    flags = [v for v in nc.variables.values() if getattr(v, 'standard_name', '') == 'status_flag']
    expect_equal(len(flags), 1, 'quality flags')
    for f in list(vals) + [flags[0].name]:
        expect(f in nc.variables, 'no variable %s', f)
        v = nc.variables[f]
        at = {k: v.getncattr(k) for k in v.ncattrs()}
        expect(v.dimensions == (axes['Y'].name, axes['X'].name), '%s has dimensions %s', f,
               v.dimensions)
        expect(at.get('grid_mapping') in nc.variables, '%s names the grid mapping %r', f,
               at.get('grid_mapping'))
        for k in ('long_name', 'units'):
            expect(str(at.get(k, '')).strip(), '%s has no %s', f, k)
        expect(at['long_name'] not in names, '%s and %s are both described as %r', f,
               names.get(at['long_name']), at['long_name'])
        names[at['long_name']] = f
    mappings = {}
    for n in {nc.variables[f].grid_mapping for f in vals}:
        v = nc.variables[n]
        at = {k: v.getncattr(k) for k in v.ncattrs()}
        with ctx.sut('reading the mapping ' + n):
            mappings[n] = transformer(at, pyproj), float(at['perspective_point_height'])
    data = {f: unpack(nc.variables[f]) for f in vals}
    dqf = unpack(flags[0])
    m = dict(zip(np.atleast_1d(flags[0].flag_values).tolist(),
                 flags[0].flag_meanings.replace(',', ' ').split()))
    for (i, j, fx, fy) in case['places']:
        # a place within the cell, on the ground
        px = g['x0'] + (i + fx / 100) * g['dx']
        py = g['y0'] + (j + fy / 100) * g['dy']
        lon, lat = geo.unproject(px, py, case['sat_lon'], 'earth')
        for f, want in vals.items():
            to, h = mappings[nc.variables[f].grid_mapping]
            ex, ey = to.transform(lon, lat)
            c = int(np.argmin(np.abs(x - ex / h)))
            r = int(np.argmin(np.abs(y - ey / h)))
            w = float(want[i, j, 0])
            if f in im.DIVIDED:
                w /= float(vals[im.DIVIDED[f]][i, j, 0])
            expect_close(data[f][r, c], w, '%s at %.4f, %.4f, found by the '
                         'mapping in row %d, column %d' % (f, lon, lat, r, c), 2e-6,
                         0.501 * im.STEPS[f] if case['scaled'] else 0)
        expect_equal(m.get(float(dqf[r, c])), 'valid', 'quality at the place')


TESTS = [Test('places', cases(), body, quick=240)]
