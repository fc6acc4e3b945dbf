"""Placement of grid values in image files."""
import os

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness import glmgen as gg, gridrun as gr, imgmake as im
from harness.core import Test, expect, expect_close, expect_equal

RULE = ('Grids of 2-12 by 2-12 cells plus 0-3 cells of padding per side and dimension, 1-4 '
        'frames of 1-3600 s, reference dates before or after the start, every cell with a value '
        'of its own and some empty, spacing 14-2800 microradians, anywhere on the disk; two '
        'writes, scaled or not, to new files or over the first ones with other values. Also grids of up to 150 by 150 and 15 frames. '
        'Non-trivial: not square, or padded, or several frames. Oracle: '
        'index arithmetic on the prepared arrays. Also whole coordinate axes of up to 5424 cells over '
        'the disk, stored and read back. Coordinates within half a storage step (28 '
        'microradians), values within half a step if scaled, else 1e-6.')


@st.composite
def cases(draw, large=False):
    dx = draw(st.sampled_from([56e-6, 112e-6, 14e-6, 150e-6, 900e-6 if large else 2800e-6]))
    dy = dx * draw(st.sampled_from([1, 1, 2, 0.5]))
    nx, ny = [draw(st.integers(2, 12) if not large else st.integers(20, 150)) for _ in range(2)]
    px, py = draw(st.sampled_from([0, 0, 1, 2, 3])), draw(st.sampled_from([0, 0, 1, 2, 3]))
    n = draw(st.integers(1, 4) if not large else st.sampled_from([1, 2, 15]))
    dt = draw(st.sampled_from([60, 20, 1, 300, 3600]))

    def first(size):   # the grid stays on the full disk
        return draw(st.integers(-145, int(145 - size * 1e3))) * 1e-3

    return {'grid': {'dx': dx, 'dy': dy,
                     'nx': nx + 2 * px, 'ny': ny + 2 * py,
                     'x0': first((nx + 2 * px) * dx), 'y0': first((ny + 2 * py) * dy),
                     'start': draw(st.sampled_from([gg.T_BASE, gg.T_YEAREND - 20, gg.T_LEAP - 20, gg.T_LATE]))
                     + draw(st.sampled_from([0, 0, 0.4, 0.25])),
                     'interval': dt, 'seconds': dt * n - (draw(st.integers(0, 1)) if dt > 1 else 0),
                     'base_s': draw(st.sampled_from([None, -86400, 3600, -90061]))},
            'pad': [px, py], 'none': draw(st.booleans()), 'seed': draw(st.integers(0, 2 ** 31)),
            'sat_lon': draw(st.sampled_from(gg.SAT_LONS)),
            'scaled': [draw(st.booleans()), draw(st.booleans())],
            'over': draw(st.integers(0, 2)) == 2, 'own': draw(st.booleans())}


def check_file(path, case, k, vals, scaled, what):
    g, (px, py) = case['grid'], case['pad']
    with xr.open_dataset(path) as d:
        d.load()
    nx, ny = g['nx'] - 2 * px, g['ny'] - 2 * py
    x = g['x0'] + (px + np.arange(nx) + 0.5) * g['dx']
    y = (g['y0'] + (py + np.arange(ny) + 0.5) * g['dy'])[::-1]
    expect(d.x.dims == ('x',) and d.y.dims == ('y',), 'dimensions of the coordinates')
    expect_close(d.x.data, x, what + ': x', 0, 28.2e-6)
    expect_close(d.y.data, y, what + ': y', 0, 28.2e-6)
    a, b = gr.frames(g)[k]
    for name, t in (('time_coverage_start', a), ('time_coverage_end', b)):
        got = gr.seconds(np.datetime64(d.attrs[name].rstrip('Z')))
        expect(abs(got - t) < 1e-6, '%s: %s is %s instead of %s', what, name, d.attrs[name],
               gr.stamp(t))
    for f, step in im.STEPS.items():
        v = vals[f][px:g['nx'] - px, py:g['ny'] - py, k].astype('f8')
        if f in im.DIVIDED:
            den = vals[im.DIVIDED[f]][px:g['nx'] - px, py:g['ny'] - py, k].astype('f8')
            with np.errstate(all='ignore'):
                v = np.where(den > 0, v / den, 0.0)
        want = np.array([[v[i, ny - 1 - j] for i in range(nx)] for j in range(ny)])
        got = d[f].data.astype('f8')
        expect(np.array_equal(np.isnan(got), want == 0), '%s: %s: missing at %d pixels, of '
               'which %d have none', what, f, np.isnan(got).sum(),
               (np.isnan(got) & (want == 0)).sum())
        got = np.nan_to_num(got)
        expect_close(got, want, '%s: %s' % (what, f), 2e-6, 0.5001 * step if scaled else 0)
        expect(d[f].dims == ('y', 'x'), '%s: dimensions of %s', what, f)
        expect(('scale_factor' in d[f].encoding) == scaled, '%s: %s is %s', what, f,
               'not scaled' if scaled else 'scaled')


def body(case, ctx):
    from glmtools.io.imagery import write_goes_imagery
    g, (px, py) = case['grid'], case['pad']
    n = len(gr.frames(g))
    rng = np.random.default_rng(case['seed'])
    shape = (g['nx'], g['ny'], n)
    vals = {}
    for f, step in im.STEPS.items():
        k = rng.permutation(np.prod(shape)).reshape(shape) * 3 % 64990 + rng.integers(2, 40)
        if not any(case['scaled']):
            k = k + rng.uniform(0, 1, shape)
        vals[f] = (k * step).astype('f4')
    empty = rng.random(shape) < rng.choice([0.0, 0.3, 0.9])
    part = rng.random(shape) < 0.1
    for f in vals:
        vals[f] = np.where(empty, np.float32(0), vals[f])
    for f, d in im.DIVIDED.items():
        want = vals[f]
        vals[f] = np.where(part, np.float32(0), (want.astype('f8') * vals[d]).astype('f4'))
    with ctx.sut('set up'):
        gd = im.gridder(g, case['sat_lon'])
    im.fill(gd, vals)
    # some totals without any extent
    i = gd.field_names.index('average_group_area')
    gd.outgrids[i][...] = np.where(empty & part, 77, gd.outgrids[i])
    vals = im.contents(gd)
    pad = tuple(slice(p, -p) if p else slice(None) for p in (px, py))
    for w, scaled in enumerate(case['scaled']):
        folder = os.path.join(ctx.tmp, 'images' if case['over'] else str(w))
        name = '{start_time:%Y%m%d%H%M%S%f}.nc' if case['over'] else '{dataset_name}'
        if case['over'] and w:   # other values under the names of the first images
            for a in gd.outgrids:
                a[...] = a[::-1].copy()
            vals = im.contents(gd)
        kw = dict(outpath=os.path.join(folder, name), scale_and_offset=scaled)
        if not (case['none'] and px == py == 0):
            kw['pad'] = pad
        with ctx.sut('write %d' % w):
            if case['own']:   # the way of the gridder itself
                opts = {k: kw[k] for k in ('pad', 'scale_and_offset') if k in kw}
                if scaled:    # which is what it does by default
                    del opts['scale_and_offset']
                files = gd.write_grids(outpath=kw['outpath'],
                                       **({'output_kwargs': opts} if opts else {}))
            else:
                files = write_goes_imagery(gd, **kw)
        expect_equal(len(files), n, 'files of write %d' % w)
        expect_equal(len(os.listdir(folder)), n, 'distinct files')
        for k, p in enumerate(files):
            with ctx.sut('reading the image'):
                check_file(p, case, k, vals, scaled, 'write %d frame %d' % (w, k))
        now = im.contents(gd)
        for f in vals:
            expect_equal(now[f], vals[f], 'grid %s after write %d' % (f, w))
    ctx.label('written over' if case['over'] else 'new files')
    ctx.label('padded' if px or py else 'not padded')
    ctx.label('%d frames' % n)
    ctx.nontrivial = bool((g['nx'] != g['ny'] or px or py or n > 1) and not empty.all())


@st.composite
def coord_cases(draw):
    n = draw(st.sampled_from([2, 3, 50, 1000, 5424, 5424]))
    d = draw(st.sampled_from([56e-6, 56e-6, 112e-6, 280e-6, 14e-6, 150e-6]))
    n = min(n, int(0.303744 / d) + 1)
    room = 0.303744 - (n - 1) * d
    return {'n': n, 'd': d, 'x0': -0.151844 + room * draw(st.sampled_from([0.0, 1.0, 0.5, 0.31])),
            'y0': -0.151844 + room * draw(st.sampled_from([0.0, 1.0, 0.5, 0.77])),
            'sat_lon': draw(st.sampled_from(gg.SAT_LONS))}


def coord_body(case, ctx):
    """Coordinates anywhere on the disk come back from storage."""
    from glmtools.io.imagery import new_goes_imagery_dataset
    k = np.arange(case['n'])
    x = case['x0'] + k * case['d']
    y = (case['y0'] + k * case['d'])[::-1]
    path = os.path.join(ctx.tmp, 'c.nc')
    with ctx.sut('new_goes_imagery_dataset'):
        d, _, _ = new_goes_imagery_dataset(x, y, case['sat_lon'])
        d.to_netcdf(path)
    with xr.open_dataset(path) as d:
        expect_close(d.x.data.astype('f8'), x, 'x', 0, 28.2e-6)
        expect_close(d.y.data.astype('f8'), y, 'y', 0, 28.2e-6)
        for c in 'xy':
            expect_equal(d[c].attrs.get('units'), 'rad', 'units of ' + c)
            expect_equal(d[c].attrs.get('standard_name'), 'projection_%s_coordinate' % c,
                         'standard_name of ' + c)
        expect(not d.DQF.data.any() and d.DQF.shape == (case['n'],) * 2, 'quality flags')
    ctx.label('%d coordinates' % case['n'])
    ctx.nontrivial = case['n'] >= 1000


TESTS = [Test('placement', cases(), body, quick=240),
         Test('large', cases(large=True), body, quick=32),
         Test('coordinates', coord_cases(), coord_body, quick=32)]
