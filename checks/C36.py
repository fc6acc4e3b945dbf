"""Map panels of images."""
import contextlib
import re

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness.core import Test, expect, expect_close, expect_equal

WORDS = {'flash_extent_density': 'flash extent density',
         'flash_centroid_density': 'flash centroid density',
         'group_extent_density': 'group extent density',
         'group_centroid_density': 'group centroid density',
         'event_density': 'density', 'total_energy': 'total energy', 'average_flash_area': 'average flash area',
         'average_group_area': 'average group area', 'minimum_flash_area': 'minimum flash area'}
FIELDS = sorted(WORDS)
HEIGHT = 35786023.0
GRS80 = [6378137.0, 6356752.31414]

RULE = ('Series of 1-3 images of 2-7 by 2-7 pixels at any satellite longitude and place on the '
        'disk, distinct values and missing pixels or no lightning at all, 1-5 fields in any '
        'order, 1-3 by 1-3 panels or more than needed, any of the times, 20 s to 1 h apart, '
        'three satellite heights, four ellipsoids and both sweep axes; '
        'sometimes a second plot of brighter images on the same figure. '
        'Non-trivial: at least two fields or times, and an image that is not square. Oracle: the '
        'value drawn at the centre of each pixel, separately written projection (1 m), the text '
        'and maximum of each panel, and that texts are within and colour bars not on other '
        'panels. Map outlines are replaced by nothing, as they would have to be downloaded.')


@st.composite
def cases(draw):
    nf = draw(st.integers(1, 5))
    rows = draw(st.integers(1, 3))
    cols = max(-(-nf // rows), draw(st.integers(1, 3)))
    return {'nx': draw(st.integers(2, 7)), 'ny': draw(st.integers(2, 7)),
            'nt': draw(st.integers(1, 3)), 'which': draw(st.integers(0, 2)),
            'step': draw(st.sampled_from([56e-6, 280e-6, 2800e-6])),
            'x0': draw(st.integers(-40, 30)) / 400, 'y0': draw(st.integers(-40, 40)) / 400,
            'sat': draw(st.sampled_from([-75.2, -137.2, -89.5, 0.0, 140.7])),
            'fields': draw(st.permutations(FIELDS))[:nf], 'panels': [rows, cols],
            'missing': draw(st.sampled_from([0.0, 0.3, 0.3, 1.0])),
            'seed': draw(st.integers(0, 2 ** 31)),
            'start': draw(st.sampled_from(['2018-07-02T04:33', '2019-12-31T23:59',
                                           '2020-02-29T00:00', '2018-07-02T04:33:20'])),
            'every': draw(st.sampled_from([60, 60, 20, 3600])),
            'again': draw(st.sampled_from([None, None, 1.0, 8.0])),
            'height': draw(st.sampled_from([HEIGHT, HEIGHT, 35786400.0, 36012345.0])),
            'axes': draw(st.sampled_from([GRS80, GRS80, [6378137.0, 6356752.31424518],
                                          [6378137.0, 6362755.5], [6394140.0, 6362755.5]])),
            'sweep': draw(st.sampled_from(['x', 'x', 'y']))}


def project(lon, lat, case):
    """Fixed grid angles of a place, by the projection attributes of a case."""
    a, b = case.get('axes', GRS80)
    lam = np.radians(lon - case['sat'])
    phi = np.arctan((b / a) ** 2 * np.tan(np.radians(lat)))
    r = b / np.sqrt(1 - (1 - (b / a) ** 2) * np.cos(phi) ** 2)
    sx = case.get('height', HEIGHT) + a - r * np.cos(phi) * np.cos(lam)
    sy, sz = r * np.cos(phi) * np.sin(lam), r * np.sin(phi)
    if case.get('sweep', 'x') == 'x':
        return np.arctan(sy / np.hypot(sx, sz)), np.arctan(sz / sx)
    return np.arctan(sy / sx), np.arctan(sz / np.hypot(sx, sy))


def series(case, brighter=1.0):
    r = np.random.RandomState(case['seed'] % 2 ** 31)
    shape = (case['nt'], case['ny'], case['nx'])
    out = {}
    for f in FIELDS:
        lo, hi = {'total_energy': (-7, -4), 'average_flash_area': (1.8, 3.6),
                  'average_group_area': (1.8, 3.6), 'minimum_flash_area': (1.8, 3.6)}.get(f, (0, 2))
        v = 10 ** np.linspace(lo, hi, int(np.prod(shape))) * brighter
        r.shuffle(v)
        v = v.reshape(shape)
        v[r.uniform(size=shape) < case['missing']] = np.nan
        out[f] = (('time', 'y', 'x'), v.astype('f4'))
    out['goes_imager_projection'] = ('time', np.full(case['nt'], -2147483647))
    t = np.datetime64(case['start']).astype('M8[ns]') + np.arange(case['nt']) * np.timedelta64(
        case.get('every', 60), 's')
    x = case['x0'] + np.arange(case['nx']) * case['step']
    y = case['y0'] - np.arange(case['ny']) * case['step']
    d = xr.Dataset(out, coords={'time': t, 'x': x, 'y': y})
    d['goes_imager_projection'].attrs.update(
        perspective_point_height=case.get('height', HEIGHT),
        semi_major_axis=case.get('axes', GRS80)[0], semi_minor_axis=case.get('axes', GRS80)[1],
        longitude_of_projection_origin=case['sat'], latitude_of_projection_origin=0.0,
        sweep_angle_axis=case.get('sweep', 'x'),
        grid_mapping_name='geostationary')
    return d


@contextlib.contextmanager
def no_outlines():
    """Natural Earth features without geometry, so that nothing is downloaded."""
    from cartopy.feature import NaturalEarthFeature as feature
    old = feature.geometries, feature.intersecting_geometries
    feature.geometries = lambda self: iter(())
    feature.intersecting_geometries = lambda self, extent: iter(())
    try:
        yield
    finally:
        feature.geometries, feature.intersecting_geometries = old


def shown(img, x, y):
    """Value an image shows at a place, None if it does not reach there."""
    a = np.ma.filled(np.ma.masked_invalid(img.get_array()), 0.0)
    l, r, b, t = img.get_extent()
    u, v = (x - l) / (r - l), (y - b) / (t - b)
    if img.origin == 'upper':
        v = 1 - v
    # a centre on the rim of the image belongs to the last pixel
    u, v = (1e-9 + (1 - 2e-9) * w if -1e-9 <= w <= 1 + 1e-9 else w for w in (u, v))
    if not (0 <= u < 1 and 0 <= v < 1):
        return None
    return float(a[int(v * a.shape[0]), int(u * a.shape[1])])


def warm():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa: F401
    import cartopy.crs  # noqa: F401
    import cartopy.mpl.geoaxes  # noqa: F401


def body(case, ctx):
    import matplotlib.pyplot as plt
    fig = plt.figure(figsize=(6, 5), dpi=50)
    try:
        first = one(case, ctx, fig, series(case), case['which'], list(case['fields']))
        if case.get('again'):
            ctx.label('second plot')
            other = one(case, ctx, fig, series(case, case['again']), case['which'] + 1,
                        list(case['fields'])[::-1])
            for f in first:
                expect_close(other[f], first[f], '%s: colour scale of the second plot' % f, 1e-9)
    finally:
        plt.close(fig)
    ctx.label('%d fields' % len(case['fields']))
    if case['missing'] == 1.0:
        ctx.label('no lightning')
    ctx.nontrivial = (len(case['fields']) > 1 or case['nt'] > 1) and case['nx'] != case['ny']


def one(case, ctx, fig, d, which, fields):
    """Check one plot; returns the place of some values on the colour scale of each field."""
    import pandas as pd
    from glmtools.plot.grid import plot_glm_grid
    before = d.copy(deep=True)
    k = which % case['nt']
    when = pd.Timestamp(d.time.data[k])
    scale = {}
    with no_outlines(), ctx.sut('plot_glm_grid'):
        axes, bars = plot_glm_grid(fig, d, when, fields, subplots=tuple(case['panels']))
    expect(d.identical(before), 'plotting changed the images')
    expect_equal(len(axes), len(fields), 'map panels')
    expect_equal(len(bars), len(fields), 'colour bars')
    height = case.get('height', HEIGHT)
    hx, hy = d.x.data * height, d.y.data * height
    letters = []
    for f, ax, bar in zip(fields, axes, bars):
        expect_equal(len(ax.images), 1, f + ': images in the panel')
        img = ax.images[0]
        expect(bar.mappable is img, '%s: the colour bar is of another panel', f)
        want = d[f].data[k]
        xl, yl = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        for i in range(case['ny']):
            for j in range(case['nx']):
                v = shown(img, hx[j], hy[i])
                w = 0.0 if np.isnan(want[i, j]) else float(want[i, j])
                expect(v is not None and abs(v - w) <= 1e-6 * abs(w), '%s: pixel (%d, %d) '
                       'shows %r instead of %r', f, i, j, v, w)
                expect(xl[0] - 1 <= hx[j] <= xl[1] + 1 and yl[0] - 1 <= hy[i] <= yl[1] + 1,
                       '%s: pixel (%d, %d) is outside the panel', f, i, j)
        good = want[np.isfinite(want)]
        if good.size > 1:
            a, b = np.ma.filled(img.norm(np.array([good.min(), good.max()])), -1)
            expect(a < b, '%s: smaller values are not drawn lower on the scale', f)
        for t in ax.texts:
            px, py = t.get_transform().transform(t.get_position())
            expect(ax.bbox.x0 - 1 <= px <= ax.bbox.x1 + 1
                   and ax.bbox.y0 - 1 <= py <= ax.bbox.y1 + 1,
                   '%s: the text %r is outside the panel', f, t.get_text())
        own = bar.ax.get_position()
        for other in axes:
            b = other.get_position()
            w = min(own.x1, b.x1) - max(own.x0, b.x0)
            h = min(own.y1, b.y1) - max(own.y0, b.y0)
            expect(other is ax or min(w, h) < 1e-3, '%s: the colour bar covers another panel', f)
        text = ' '.join(t.get_text() for t in ax.texts)
        flat = ' '.join(text.split())
        expect(when.strftime('%Y-%m-%d %H:%M:%S') in flat, '%s: the time is not given in %r',
               f, flat)
        expect(WORDS[f] in flat.lower(), '%s: not named in %r', f, flat)
        top = re.search(r'max\s+([-+0-9.e]+)', flat)
        m = float(good.max()) if good.size else 0.0
        expect(top and abs(float(top[1]) - m) <= (0.06 * m if f == 'total_energy' else 0.501),
               '%s: the maximum %r is not given in %r', f, m, flat)
        scale[f] = np.ma.filled(img.norm(np.array([1e-6, 1e-5, 2.0, 20.0, 300.0])), -1)
        letters += [t.get_text() for t in ax.texts if len(t.get_text()) == 1]
        lon = case['sat'] + np.array([0.0, 20.0, -35.0, 50.0])
        lat = np.array([5.0, 30.0, -40.0, 45.0])
        px, py = project(lon, lat, case)
        import cartopy.crs as ccrs
        # the projection knows its own ellipsoid
        g = ccrs.Geodetic(globe=ax.projection.globe)
        q = ax.projection.transform_points(g, lon, lat)
        expect_close(q[:, 0], px * height, f + ': easting on the map', 0, 1.0)
        expect_close(q[:, 1], py * height, f + ': northing on the map', 0, 1.0)
    expect(letters == list('abcdefgh')[:len(fields)], 'panels are lettered %s', letters)
    if len(axes) > 1:
        lim = hx.min() + 1.0, hx.max() + 2.0
        axes[0].set_xlim(lim)
        expect_close(axes[-1].get_xlim(), lim, 'limits of the last panel when the first is '
                     'zoomed', 1e-12)
    return scale


TESTS = [Test('panels', cases(), body, quick=240)]
