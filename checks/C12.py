"""Pixel lookup and stored tables."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import layout
from harness.core import Test, expect, expect_close, expect_equal

from glmtools.io import ccd

RULE = ('Pixel arrays of 1-9 by 1-9 with any pixels masked in longitude, latitude or both '
        '(at least one left), values under the mask being numbers or NaN, coordinates '
        'scattered, regular, repeated or a few millionths of a degree apart, masked or plain arrays; 1-12 query points on, between and far from pixels, '
        'asking for one or several neighbours; any leaf size; arrays by rows, by columns, strided or read-only. Corner tables with random '
        'values under any variable names; location files with missing values. Also arrays of up to 300 by 300. '
        'Non-trivial: at '
        'least one masked and four valid pixels, or a round trip of a non-square table. Oracle: '
        'brute force distances; the values written.')


def arrays(draw_seed, n, m, layout):
    rng = np.random.RandomState(draw_seed)
    if layout == 'scattered':
        lon, lat = rng.uniform(-120, -30, (n, m)), rng.uniform(-55, 55, (n, m))
    elif layout == 'regular':
        lon, lat = np.meshgrid(np.linspace(-110, -40, m), np.linspace(50, -50, n))
    elif layout == 'fine':
        lon, lat = np.meshgrid(-101.5 + 2e-6 * np.arange(m), 33.5 - 3e-6 * np.arange(n))
    else:
        lon, lat = rng.randint(-3, 3, (n, m)) * 1.0, rng.randint(-3, 3, (n, m)) * 1.0
    return rng, lon, lat


@st.composite
def cases(draw, large=False):
    n, m = [draw(st.integers(1, 9) if not large else st.sampled_from([3, 40, 130, 300]))
            for _ in range(2)]
    return {'n': n, 'm': m, 'seed': draw(st.integers(0, 2 ** 31)),
            'layout': draw(st.sampled_from(['scattered', 'scattered', 'regular', 'repeated', 'fine'])),
            'mask': draw(st.sampled_from(['none', 'both', 'lon', 'lat', 'different', 'scalar', 'plain'])),
            'nan': draw(st.booleans()), 'memory': draw(layout.layouts),
            'frac': draw(st.sampled_from([0.1, 0.3, 0.6, 0.9])),
            'leaf': draw(st.sampled_from([None, 1, 2, 7, 100])),
            'via': draw(st.sampled_from(['direct', 'direct', 'bytes', 'file'])),
            'k': draw(st.integers(1, 4))}


def body(case, ctx):
    n, m = case['n'], case['m']
    rng, lon, lat = arrays(case['seed'], n, m, case['layout'])
    ml = rng.rand(n, m) < case['frac']
    mt = rng.rand(n, m) < case['frac']
    if case['mask'] in ('none', 'scalar', 'plain'):
        ml[:], mt[:] = False, False
    elif case['mask'] == 'both':
        mt = ml.copy()
    elif case['mask'] == 'lon':
        mt[:] = False
    elif case['mask'] == 'lat':
        ml[:] = False
    i, j = rng.randint(n), rng.randint(m)
    ml[i, j] = mt[i, j] = False
    bad = ml | mt
    if case['nan']:
        lon = np.where(ml, np.nan, lon)
        lat = np.where(mt, np.nan, lat)
    lon, lat = [layout.arrange(a, case['memory']) for a in (lon, lat)]
    if case['mask'] == 'scalar':
        mlon, mlat = np.ma.array(lon), np.ma.array(lat)
    elif case['mask'] == 'plain':
        mlon, mlat = lon, lat
    else:
        mlon, mlat = np.ma.array(lon, mask=ml), np.ma.array(lat, mask=mt)
    kw = {} if case['leaf'] is None else {'leaf_size': case['leaf']}
    good = ~bad
    gl, gt = lon[good], lat[good]
    k = min(case['k'], gl.size)
    with ctx.sut('create_pixel_lookup'):
        look, X, Y = ccd.create_pixel_lookup(mlon, mlat, **kw)
    slon, slat = mlon, mlat
    if case['via'] != 'direct':
        ctx.label(case['via'])
        with ctx.sut('save and load'):
            if case['via'] == 'bytes':
                blob = ccd.save_pixel_lookup(look, X, Y, mlon, mlat)
                import pickle
                look, X, Y, slon, slat = pickle.loads(blob)
            else:
                path = os.path.join(ctx.tmp, 'lookup.pickle')
                ccd.save_pixel_lookup(look, X, Y, mlon, mlat, filename=path)
                look, X, Y, slon, slat = ccd.load_pixel_lookup(path)
        expect(np.array_equal(np.ma.getmaskarray(slon), ml)
               and np.array_equal(np.ma.getmaskarray(slat), mt), 'masks changed by storage')
        expect(np.array_equal(np.ma.filled(slon, 0), np.ma.filled(mlon, 0))
               and np.array_equal(np.ma.filled(slat, 0), np.ma.filled(mlat, 0)),
               'coordinates changed by storage')
    X, Y = np.asarray(X), np.asarray(Y)
    expect_equal(X.shape, (gl.size,), 'number of first indices')
    expect_equal(Y.shape, (gl.size,), 'number of second indices')
    expect(sorted(zip(X.tolist(), Y.tolist())) == sorted(zip(*(a.tolist() for a in
           np.nonzero(good)))), 'indices are not those of the valid pixels: %s',
           list(zip(X.tolist(), Y.tolist()))[:20])
    q = np.concatenate([
        np.stack([rng.uniform(-130, -20, 4), rng.uniform(-60, 60, 4)], 1),
        np.stack([gl[:4], gt[:4]], 1),
        np.stack([gl[:3] + rng.uniform(-.2, .2, gl[:3].shape), gt[:3] + 1e-3], 1),
        [[300.0, -300.0]]])
    with ctx.sut('query'):
        dist, idx = look.query(q, k=k)
    expect_equal(np.asarray(idx).shape, (len(q), k), 'shape of the answer')
    for a in range(len(q)):
        d = np.sort(np.hypot(gl - q[a, 0], gt - q[a, 1]))[:k]
        got = np.hypot(lon[X[idx[a]], Y[idx[a]]] - q[a, 0], lat[X[idx[a]], Y[idx[a]]] - q[a, 1])
        expect_close(got, d, 'distances of the %d pixels nearest (%g, %g)' % (k, *q[a]),
                     rtol=1e-9, atol=1e-9)
        expect_close(dist[a], d, 'reported distances', rtol=1e-9, atol=1e-9)
        expect(len(set(np.asarray(idx[a]).tolist())) == k, 'a pixel is returned twice')
        expect(not bad[X[idx[a]], Y[idx[a]]].any(), 'a masked pixel was returned')
    ctx.nontrivial = bool(bad.any()) and int(good.sum()) >= 4


@st.composite
def tables(draw):
    return {'n': draw(st.integers(1, 7)), 'm': draw(st.integers(1, 7)),
            'seed': draw(st.integers(0, 2 ** 31)),
            'names': draw(st.booleans()),
            'via': draw(st.sampled_from(['bytes', 'file'])),
            'dtype': draw(st.sampled_from(['f8', 'f4']))}


def body_tables(case, ctx):
    import pickle
    from scipy.io import savemat
    n, m = case['n'], case['m']
    rng = np.random.RandomState(case['seed'])
    gx, gy = rng.uniform(-1, 1, (2, n, m)).astype(case['dtype'])
    corners = {c: rng.uniform(-1, 1, (n, m)).astype(case['dtype'])
               for c in ('nwlon', 'swlon', 'selon', 'nelon', 'nwlat', 'swlat', 'selat', 'nelat')}
    path = os.path.join(ctx.tmp, 'lut.mat')
    names = {c: ('v_' + c[::-1] if case['names'] else c) for c in corners}
    gn = ('g1', 'g2') if case['names'] else ('lon_grid', 'lat_grid')
    savemat(path, dict([(gn[0], gx), (gn[1], gy)] + [(names[c], corners[c]) for c in corners]))
    kw = {}
    if case['names']:
        kw = dict(x_grid='g1', y_grid='g2',
                  x_corners=[names[c] for c in ('nwlon', 'swlon', 'selon', 'nelon')],
                  y_corners=[names[c] for c in ('nwlat', 'swlat', 'selat', 'nelat')])
    with ctx.sut('read_official_corner_lut'):
        lons, lats, lut = ccd.read_official_corner_lut(path, **kw)
    expect(np.array_equal(lons, gx), 'x grid differs from the file')
    expect(np.array_equal(lats, gy), 'y grid differs from the file')
    expect_equal(lut.shape, (n, m, 4, 2), 'shape of the corner table')
    for k, c in enumerate(('nw', 'sw', 'se', 'ne')):
        expect(np.array_equal(lut[:, :, k, 0], corners[c + 'lon']), '%s x offset', c)
        expect(np.array_equal(lut[:, :, k, 1], corners[c + 'lat']), '%s y offset', c)
    with ctx.sut('save and load'):
        if case['via'] == 'bytes':
            a, b, d = pickle.loads(ccd.save_pixel_corner_lookup(lons, lats, lut))
        else:
            p = os.path.join(ctx.tmp, 'lut.pickle')
            ccd.save_pixel_corner_lookup(lons, lats, lut, filename=p)
            a, b, d = ccd.load_pixel_corner_lookup(p)
    for x, y, what in ((a, gx, 'x grid'), (b, gy, 'y grid'), (d, lut, 'corners')):
        expect(np.array_equal(x, y), '%s changed by storage', what)
    os.unlink(path)
    ctx.nontrivial = n != m


@st.composite
def locs(draw):
    return {'n': draw(st.integers(1, 7)), 'm': draw(st.integers(1, 7)),
            'seed': draw(st.integers(0, 2 ** 31)),
            'names': draw(st.booleans()),
            'west': draw(st.sampled_from([200, 200, 150])),
            'frac': draw(st.sampled_from([0.0, 0.2, 0.7]))}


def body_locs(case, ctx):
    import h5py
    n, m = case['n'], case['m']
    rng = np.random.RandomState(case['seed'])
    lon, lat = rng.uniform(case['west'], 340, (n, m)), rng.uniform(-60, 60, (n, m))
    ml, mt = rng.rand(n, m) < case['frac'], rng.rand(n, m) < case['frac']
    lon[ml] = np.nan
    lat[mt] = np.nan
    path = os.path.join(ctx.tmp, 'pixels.mat')
    ln, tn = ('aa', 'bb') if case['names'] else ('mean_lon', 'mean_lat')
    with h5py.File(path, 'w') as f:
        f[ln], f[tn] = lon, lat
    kw = dict(lon_var='aa', lat_var='bb') if case['names'] else {}
    with ctx.sut('read_pixel_location_mat_file'):
        a, b = ccd.read_pixel_location_mat_file(path, **kw)
    expect(np.ma.isMaskedArray(a) and np.ma.isMaskedArray(b), 'the arrays are not masked arrays')
    expect(np.array_equal(np.ma.getmaskarray(a), ml), 'longitude mask')
    expect(np.array_equal(np.ma.getmaskarray(b), mt), 'latitude mask')
    expect_equal(a.shape, (n, m), 'shape')
    expect_close(a.data[~ml], lon[~ml] - 360, 'longitudes', rtol=1e-13, atol=0)
    expect_close(b.data[~mt], lat[~mt], 'latitudes', rtol=0, atol=0)
    if not (ml | mt).all():
        with ctx.sut('create_pixel_lookup'):
            look, X, Y = ccd.create_pixel_lookup(a, b)
            d, i = look.query(np.array([[-80.0, 10.0]]), k=1)
        ok = ~(ml | mt)
        dd = np.hypot(lon - 360 + 80, lat - 10)
        expect(ok[X[i[0, 0]], Y[i[0, 0]]], 'missing pixel returned')
        expect_close(dd[X[i[0, 0]], Y[i[0, 0]]], dd[ok].min(), 'nearest', rtol=1e-9)
    import tables
    tables.file._open_files.close_all()
    os.unlink(path)
    ctx.nontrivial = n != m and bool((ml | mt).any())


TESTS = [Test('nearest', cases(), body, quick=1500),
         Test('large', cases(large=True), body, quick=48),
         Test('corner_tables', tables(), body_tables, quick=160),
         Test('location_files', locs(), body_locs, quick=100)]
