"""Tiles, padding and the capture of output calls."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, expect, expect_close, expect_equal

RULE = ('Ranges of 1-600 whole cells (and ranges with a partial last cell) at 14e-6 to 0.1 '
        'spacing from any start, with limits rounded as users write them, into 1-40 segments; '
        'padding from zero to hundreds of cells, as a multiple of the spacing or not; written '
        'grids of two or three dimensions. Non-trivial: cell count not divisible by the number '
        'of segments, or padding differing between x and y. Oracle: integer arithmetic on cell '
        'counts; positions within 1e-6 of a cell.')

DELTAS = [14e-6, 28e-6, 56e-6, 112e-6, 224e-6, 280e-6, 0.0001, 0.0003, 0.001, 0.01, 0.1, 0.25]


@st.composite
def axes(draw, s):
    d = draw(st.sampled_from(DELTAS))
    n = draw(st.one_of(st.integers(s, 6 * s), st.integers(s, 600)))
    k0 = draw(st.integers(-600, 600))
    how = draw(st.sampled_from(['product', 'sum', 'rounded', 'centred']))
    if how == 'product':
        a, b = k0 * d, (k0 + n) * d
    elif how == 'sum':
        a = round(k0 * d, 9)
        b = a + n * d
    elif how == 'centred':
        c = round(k0 * d, 6)
        a, b = c - n * d / 2, c + n * d / 2
    else:
        a, b = round(k0 * d, 9), round((k0 + n) * d, 9)
    part = draw(st.sampled_from([0, 0, 0, 0.25, 0.5, 0.75]))
    return {'bnd': [a, b + part * d], 'd': d, 'n': n, 'part': part}


@st.composite
def edge_cases(draw):
    s = draw(st.one_of(st.integers(1, 8), st.integers(9, 40)))
    return {'s': s, 'axis': draw(axes(s)), 'kind': draw(st.sampled_from(['list', 'tuple',
                                                                         'array']))}


def check_edges(e, ax, s, what):
    a, b = ax['bnd']
    d, n = ax['d'], ax['n']
    e = np.asarray(e, dtype='f8')
    expect(e.shape == (s + 1,), '%s: %d edges for %d segments', what, e.size, s)
    expect_close(e[0], a, what + ': first edge', 0, 1e-6 * d)
    expect_close(e[-1], b, what + ': last edge', 0, 1e-6 * d)
    want = (n // s) * np.arange(s)
    cells = (e[:-1] - a) / d
    expect(np.allclose(cells, want, rtol=0, atol=1e-6), '%s: segments of %s cells start at cells '
           '%s instead of %s', what, n, cells, want)


def edge_body(case, ctx):
    from glmtools.grid.make_grids import subdivide_bnd
    ax, s = case['axis'], case['s']
    bnd = {'list': list, 'tuple': tuple, 'array': np.array}[case['kind']](ax['bnd'])
    with ctx.sut('subdivide_bnd'):
        e = subdivide_bnd(bnd, ax['d'], s=s)
    check_edges(e, ax, s, 'edges')
    expect([float(v) for v in bnd] == ax['bnd'], 'the range was changed to %s', bnd)
    ctx.label('partial cell' if ax['part'] else 'whole cells')
    ctx.nontrivial = ax['n'] % s != 0


@st.composite
def tile_cases(draw):
    s = draw(st.sampled_from([1, 2, 3, 4, 5, 2, 3, 4, 5, 9, 12]))
    pad = st.one_of(st.none(), st.integers(0, 120), st.sampled_from([0.5, 3.3, 10.75]))
    return {'s': s, 'x': draw(axes(s)), 'y': draw(axes(s)), 'pads': [draw(pad), draw(pad)],
            'lon': draw(st.sampled_from([-75.0, -137.0, -89.5, 140.7])),
            'prefix': draw(st.sampled_from(['', 'LMA', 'GLM_2018-07-02']))}


def same(got, want, d, what):
    expect_close(np.asarray(got, dtype='f8'), np.asarray(want), what, 0, 1e-6 * d)


def tile_body(case, ctx):
    from glmtools.grid.make_grids import subdivided_fixed_grid
    s, ax, ay = case['s'], case['x'], case['y']
    kw = {'x_bnd': list(ax['bnd']), 'y_bnd': list(ay['bnd']), 'dx': ax['d'], 'dy': ay['d'],
          'other': 'kept'}
    proc = {'nadir_lon': case['lon'], 'lon_bnd': [-80, -70], 'lat_bnd': [20, 30],
            'min_points_per_flash': 3}
    writer = lambda *a, **k: None
    out = {'output_filename_prefix': case['prefix'], 'output_writer': writer, 'outpath': './'}
    before = repr((kw, proc, out))
    pads = {}
    for name, p, a in (('x_pad', case['pads'][0], ax), ('y_pad', case['pads'][1], ay)):
        if p is not None:
            pads[name] = p * a['d']
    with ctx.sut('subdivided_fixed_grid'):
        tiles = list(subdivided_fixed_grid(kw, proc, out, s=s, **pads))
    expect(repr((kw, proc, out)) == before, 'the arguments were changed')
    expect_equal(sorted(t[0] for t in tiles),
                 sorted(itertools.product(range(s), range(s))), 'tile numbers')
    prefixes = set()
    edges = {}
    for (i, j), kij, pij, oij, pad in tiles:
        n_x, n_y, x_pad, y_pad = pad
        for n, v, name, a in ((n_x, x_pad, 'x_pad', ax), (n_y, y_pad, 'y_pad', ay)):
            expect(int(n) == n and n >= 0, '%s is %s cells', name, n)
            expect_close(v, n * a['d'], name, 0, 1e-6 * a['d'])
            ratio = pads.get(name, 2800e-6) / a['d']
            expect(n in (math.floor(ratio - 1e-6), math.floor(ratio + 1e-6)),
                   '%s is %s cells for a padding of %s cells', name, n, ratio)
        for k in (kij, pij):
            for axis, n, q, a in (('x', n_x, i, ax), ('y', n_y, j, ay)):
                lo, hi = k[axis + '_bnd']
                dn = a['n'] // s
                wlo = a['bnd'][0] + dn * q * a['d']
                whi = a['bnd'][0] + dn * (q + 1) * a['d'] if q < s - 1 else a['bnd'][1]
                same([lo, hi], [wlo - n * a['d'], whi + n * a['d']], a['d'],
                     '%s_bnd of tile %s' % (axis, (i, j)))
                edges[axis, q] = (lo, hi)
        expect_equal(kij['dx'], ax['d'], 'dx')
        expect_equal(kij['dy'], ay['d'], 'dy')
        expect_equal(kij['other'], 'kept', 'another grid keyword')
        expect(pij['lon_bnd'] is None and pij['lat_bnd'] is None, 'longitude and latitude limits '
               'are %s and %s', pij['lon_bnd'], pij['lat_bnd'])
        expect_equal(pij['min_points_per_flash'], 3, 'another selection keyword')
        expect_equal(pij['nadir_lon'], case['lon'], 'nadir_lon')
        expect_equal(oij['outpath'], './', 'another output keyword')
        p = oij['output_filename_prefix']
        expect(p.startswith(case['prefix']), 'prefix %s', p)
        prefixes.add(p)
        expect(oij['output_writer'] is not writer, 'the writer is not captured')
        pre = oij['preprocess_out']
        nx, ny = 3 + 2 * n_x, 4 + 2 * n_y
        x, y = np.arange(nx), np.arange(ny)
        g = x[:, None] * 1000 + y[None, :]
        oij['output_writer']('name', 1, 2, x, y, 5, 6, 7, 8, g, 10)
        (args,), (kws,) = pre.outargs, pre.outkwargs
        expect_equal(args[3], x[n_x:n_x + 3], 'x of the captured call')
        expect_equal(args[4], y[n_y:n_y + 4], 'y of the captured call')
        expect_equal(args[9], g[n_x:n_x + 3, n_y:n_y + 4], 'grid of the captured call')
    expect_equal(len(prefixes), s * s, 'different prefixes')
    ctx.label('s=%d' % s)
    ctx.nontrivial = case['pads'][0] != case['pads'][1] or ax['n'] % s != 0


@st.composite
def capture_cases(draw):
    return {'pads': [draw(st.integers(0, 4)), draw(st.integers(0, 4))],
            'calls': draw(st.lists(st.tuples(st.integers(1, 4), st.integers(1, 4),
                                             st.integers(0, 2), st.booleans()), max_size=4)),
            'writer': draw(st.integers(0, 4)) > 0}


def capture_body(case, ctx):
    from glmtools.grid.make_grids import GridOutputPreprocess
    px, py = case['pads']
    log = []

    def writer(*a, **k):
        log.append((a, k))
    with ctx.sut('GridOutputPreprocess'):
        pre = GridOutputPreprocess(pads=(px, py, px * 56e-6, py * 56e-6),
                                   writer=writer if case['writer'] else None)
    made = []
    for q, (nx, ny, more, kws) in enumerate(case['calls']):
        x = 100. * q + np.arange(nx + 2 * px)
        y = 200. * q + np.arange(ny + 2 * py)
        g = (x[:, None] * 1000 + y[None, :]) * 1.0
        if more == 2:
            g = g[..., None] + np.arange(2)
        args = ['file%d' % q, 'a%d' % q, 'b%d' % q, x, y, 'lon', 'lat', 'alt', 'z', g] \
            + ['t%d' % m for m in range(more)]
        kw = {'grid_units': 'u%d' % q} if kws else {}
        keep = g.copy()
        with ctx.sut('capture_write_call'):
            pre.capture_write_call(*args, **kw)
        expect(not log, 'written before write_all')
        expect(np.array_equal(g, keep), 'the grid was changed')
        args[3], args[4] = x[px:px + nx], y[py:py + ny]
        args[9] = g[px:px + nx, py:py + ny]
        made.append((args, kw))
    with ctx.sut('write_all'):
        files = pre.write_all()
    want = made if case['writer'] else []
    expect_equal(list(files), [a[0] for a, _ in want], 'files')
    expect_equal(len(log), len(want), 'calls of the writer')
    for (ga, gk), (wa, wk) in zip(log, want):
        expect_equal(len(ga), len(wa), 'arguments of the writer')
        expect_equal(gk, wk, 'keywords of the writer')
        for q, (a, b) in enumerate(zip(ga, wa)):
            expect(np.array_equal(a, b), 'argument %d is %s instead of %s', q, a, b)
    ctx.label('%d calls' % len(made))
    ctx.nontrivial = px != py and len(made) > 1 and case['writer']


TESTS = [Test('edges', edge_cases(), edge_body, quick=4000),
         Test('tiles', tile_cases(), tile_body, quick=600),
         Test('capture', capture_cases(), capture_body, quick=1200)]
