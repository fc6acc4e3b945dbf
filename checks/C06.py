"""Longitude and latitude to fixed grid angles."""
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from harness import geo, layout
from harness.core import Test, expect, expect_close, expect_equal

from glmtools.io import lightning_ellipse as le

RULE = ('1-12 locations given by a central angle of 0-80 degrees and an azimuth around any '
        'sub-satellite longitude in [-180, 180], longitudes written in [-180, 180) or [0, 360), '
        'as scalars, lists, double or single precision arrays; both ellipsoid revisions and '
        'altered GRS80 radii and satellite heights; dates within seconds to years of the '
        'revision change; arrays strided or read-only too. Also 300 to 70000 places in one call. '
        'Non-trivial: a location off the equator and off the satellite '
        'meridian, or a date within a day of the change. Oracles: separately written forward '
        'geometry (1e-11 rad; 3e-7 rad in single precision) and intersection of the ray with '
        'the ellipsoid.')


@st.composite
def cases(draw, many=False):
    n = draw(st.integers(1, 12))
    if many:
        rng = np.random.default_rng(draw(st.integers(0, 2**31)))
        n = draw(st.sampled_from([300, 3000, 70000]))
        pts = [n, int(rng.integers(2**31))]
    else:
        pts = [[draw(st.floats(0, 80, allow_nan=False)), draw(st.floats(0, 360, allow_nan=False))]
               for _ in range(n)]
    return {'pts': pts,
            'sat': draw(st.one_of(st.sampled_from([-75.2, -137.2, 0.0, 179.9, -179.9, 180.0,
                                                   -180.0, 140.7]), st.floats(-180, 180))),
            'rev': draw(st.integers(0, 1)),
            'form': draw(st.sampled_from(['f8', 'f8', 'f4', '2d'] + ['scalar'] * (not many))),
            'wrap': draw(st.booleans()), 'memory': draw(layout.layouts),
            'grs': draw(st.sampled_from([None, None, [6378000.0, 6356800.0, 35786000.0],
                                         [6371000.0, 6371000.0, 36000000.0]]))}


def locations(pts, sat):
    if not isinstance(pts[0], list):  # a number of places and a seed
        pts = np.random.default_rng(pts[1]).uniform(0, [80, 360], (pts[0], 2))
    a = np.radians([p[0] for p in pts])
    z = np.radians([p[1] for p in pts])
    lat = np.degrees(np.arcsin(np.sin(a) * np.cos(z)))
    dlon = np.degrees(np.arctan2(np.sin(a) * np.sin(z), np.cos(a)))
    return dlon, lat


def body(case, ctx):
    sat, rev = case['sat'], case['rev']
    dlon, lat = locations(case['pts'], sat)
    lon = sat + dlon
    lon = np.where(lon >= 180, lon - 360, lon)
    lon = np.where(lon < -180, lon + 360, lon)
    if case['wrap']:
        lon = np.where(lon < 0, lon + 360, lon)
    kw, grs, h = {}, geo.GRS80, geo.SAT_HEIGHT
    if case['grs']:
        grs, h = tuple(case['grs'][:2]), case['grs'][2]
        kw = dict(re_grs80=grs[0], rp_grs80=grs[1], sat_grs80_height=h)
    tol = 1e-11
    form = case['form']
    if form == 'f4':
        lon, lat = lon.astype('f4'), lat.astype('f4')
        sat = np.float32(sat)
        tol = 3e-7
    wx, wy = geo.project(lon, lat, sat, rev, grs, h)
    lon, lat = [layout.arrange(a, case['memory']) for a in (lon, lat)]
    with ctx.sut('ltg_ellps_lon_lat_to_fixed_grid'):
        f = le.ltg_ellps_lon_lat_to_fixed_grid
        if form == 'scalar':
            out = [f(float(lo), float(la), sat, rev, **kw) for lo, la in zip(lon, lat)]
            x = np.array([np.ravel(o[0])[0] for o in out])
            y = np.array([np.ravel(o[1])[0] for o in out])
        elif form == '2d':
            keep = lon.copy(), lat.copy()
            x, y = f(lon[:, None], lat[:, None], sat, rev, **kw)
            expect(x.shape == (len(lon), 1), 'shape {}', x.shape)
            x, y = x[:, 0], y[:, 0]
            expect_equal(lon, keep[0], 'input longitude')
            expect_equal(lat, keep[1], 'input latitude')
        else:
            keep = lon.copy(), lat.copy()
            x, y = f(lon, lat, sat, rev, **kw)
            expect_equal(lon, keep[0], 'input longitude')
            expect_equal(lat, keep[1], 'input latitude')
    expect_close(x, wx, 'x', rtol=0, atol=tol)
    expect_close(y, wy, 'y', rtol=0, atol=tol)
    if form != 'f4':
        rlon, rlat = geo.unproject(np.asarray(x, 'f8'), np.asarray(y, 'f8'), sat, rev, grs, h)
        expect_close(geo.angle_diff(rlon, lon), np.zeros(len(lon)), 'longitude along the ray',
                     rtol=0, atol=1e-6)
        expect_close(rlat, lat, 'latitude along the ray', rtol=0, atol=1e-6)
        # symmetries
        d = geo.angle_diff(lon, sat)
        with ctx.sut('mirrored call'):
            ex, ey = f(d, lat, 0.0, rev, **kw)
            mx, my = f(-d, lat, 0.0, rev, **kw)
            nx, ny = f(d, -lat, 0.0, rev, **kw)
        expect_close(ex, x, 'x depends on the longitude difference', rtol=0, atol=tol)
        expect_close(ey, y, 'y depends on the longitude difference', rtol=0, atol=tol)
        expect_close(mx, -x, 'x east-west mirror', rtol=0, atol=tol)
        expect_close(my, y, 'y east-west mirror', rtol=0, atol=tol)
        expect_close(nx, x, 'x north-south mirror', rtol=0, atol=tol)
        expect_close(ny, -y, 'y north-south mirror', rtol=0, atol=tol)
        expect(bool(np.all((np.sign(x) == np.sign(d)) | (np.abs(d) < 1e-6))), 'x sign')
        expect(bool(np.all((np.sign(y) == np.sign(lat)) | (np.abs(lat) < 1e-6))), 'y sign')
    if np.any((np.abs(lat) > 1) & (np.abs(dlon) > 1)):
        ctx.nontrivial = True
    if np.any(np.abs(lon.astype('f8') - sat) > 180):
        ctx.label('across the date line')
    ctx.label(form)


date_cases = st.fixed_dictionaries({'us': st.one_of(
    st.sampled_from([-1, 0, 1, -10**6, 10**6, -86400 * 10**6, 86400 * 10**6]),
    st.integers(-2 * 86400 * 10**6, 2 * 86400 * 10**6),
    st.integers(-3 * 365 * 86400 * 10**6, 10 * 365 * 86400 * 10**6))})


def dates(case, ctx):
    d = datetime(2018, 10, 15) + timedelta(microseconds=case['us'])
    want = 0 if case['us'] < 0 else 1
    with ctx.sut('ltg_ellpse_rev'):
        rev = le.ltg_ellpse_rev(d)
    expect(rev == want, 'revision {} at {}', rev, d)
    with ctx.sut('ltg_ellps_radii'):
        radii = le.ltg_ellps_radii(d)
    expect_close(radii, geo.RADII[want], 'radii at {}'.format(d), rtol=0, atol=1e-6)
    if abs(case['us']) < 86400 * 10**6:
        ctx.nontrivial = True


TESTS = [Test('project', cases(), body, quick=10000),
         Test('many', cases(many=True), body, quick=64),
         Test('dates', date_cases, dates, quick=1600)]
