"""Gridding does not depend on tiling, file order, row order or company."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg, gridrun as gr
from harness.core import Test, expect, expect_close, expect_equal
from checks.C22 import check_frames, file_lists, grids, outcome, place

RULE = ('Lists of 1-4 files gridded once as given and once changed: tiled 1-4 times per side '
        '(flashes smaller than the declared padding of 2800 microradians; square cells and ones up '
        'to 12 times longer one way), files permuted, rows of each level permuted, or only the files of one frame. Non-trivial: the change is not the '
        'identity and footprints are on the grid. Oracle: the other run, cell by cell, 2e-5 '
        'relative plus clipping resolution; tiles also against direct geometry.')


def shuffled(spec, rng):
    out = dict(spec)
    for tab in ('flash', 'group', 'event'):
        perm = rng.permutation(len(spec[tab]['id']))
        out[tab] = {k: [v[i] for i in perm] for k, v in spec[tab].items()}
    return out


def same(a, b, ex, k, what, i0=0, j0=0):
    """Compare the fields of two runs, b the block starting at (i0, j0)."""
    nx, ny = b['total_energy'].shape
    tiny = np.zeros((ex.grid['nx'], ex.grid['ny']), bool)
    tol = {n: np.zeros(tiny.shape) for n in ('lutevent_flash_count', 'lutevent_group_count',
                                             'power')}
    for (i, j), c in ex.cells[k].items():
        tiny[i, j] = c['area'] <= 100 * c['atol'] or bool(c['maybe'])
        for n in tol:
            tol[n][i, j] = 2 * c['tol'][n]
    cut = (slice(i0, i0 + nx), slice(j0, j0 + ny))
    for f, n in (('flash_extent_density', 'lutevent_flash_count'),
                 ('group_extent_density', 'lutevent_group_count'), ('total_energy', 'power')):
        expect_close(b[f], a[f][cut], '%s: %s' % (what, f), 2e-5, tol[n][cut])
    ok = ~tiny[cut]
    for f in ('average_flash_area', 'average_group_area', 'minimum_flash_area'):
        expect_close(b[f][ok], a[f][cut][ok], '%s: %s' % (what, f), 1e-3 if f[0] == 'a' else 2e-6)
    for pre in ('flash', 'group'):
        low, high = ex.cent[pre][k]
        sure = (low == high)[cut]
        f = pre + '_centroid_density'
        expect_equal(b[f][sure], a[f][cut][sure], '%s: %s' % (what, f))


@st.composite
def tile_cases(draw):
    specs = draw(file_lists(n_files=(1, 1 + draw(st.integers(0, 3)) // 3), same_pixel=0.0))
    g = draw(grids(specs, cells=(10, 40), dxs=(112e-6, 224e-6, 224e-6, 280e-6, 150e-6, 400e-6)))
    if draw(st.integers(0, 3)) == 0:   # cells much longer one way
        a, b = draw(st.permutations(['x', 'y']))
        g['d' + a], g['d' + b] = 700e-6, 56e-6
        g['n' + a], g['n' + b] = draw(st.integers(8, 10)), draw(st.integers(24, 56))
    g['interval'], g['n_frames'], g['short'] = 60, 1, 0
    g['start'] = min(s['t'] for s in specs)
    return {'specs': specs, 'grid': g, 's': draw(st.sampled_from([2, 3, 2, 1, 3, 4])),
            'scaled': draw(st.booleans()),
            'ellipse_rev': draw(st.sampled_from([-1, 0, 1, None]))}


def run_tiles(files, g, outdir, sat_lon, s, scaled, ellipse_rev):
    """Make and process the tiles one by one, each into its own folder."""
    from datetime import timedelta
    from glmtools.grid.make_grids import proc_each_grid, subdivided_fixed_grid
    grid, proc, out = gr.arguments(g, outdir, sat_lon, scale_and_offset=scaled,
                                   ellipse_rev=ellipse_rev)
    t0 = gr.stamp(g['start'])
    tiles = []
    for sub in subdivided_fixed_grid(grid, proc, out, s=s):
        (i, j), kw, pkw, okw, pads = sub
        okw['outpath'] = os.path.join(outdir, '%d_%d' % (i, j), '{dataset_name}')
        x0 = kw['x_bnd'][0] + pads[2]
        y0 = kw['y_bnd'][0] + pads[3]
        proc_each_grid(sub, start_time=t0, end_time=t0 + timedelta(seconds=g['seconds']),
                       GLM_filenames=files)
        tiles.append(((i, j), (x0 - g['x0']) / g['dx'], (y0 - g['y0']) / g['dy']))
    return tiles


def tile_body(case, ctx):
    specs, s = case['specs'], case['s']
    asked = case.get('ellipse_rev', -1)
    rev = -1 if asked is None else asked
    g = place(case['grid'], specs, rev)
    sat = specs[0]['sat_lon']
    if case.get('direct'):
        _, images = outcome(ctx, specs, g, 'direct', subdivide=s)
        expect(len(images) == s * s, 'tiles share file names: %d files for %d tiles',
               len(images), s * s)
        return
    ex = gr.Expected(specs, g, sat, ellipse_rev=rev)
    _, whole = outcome(ctx, specs, g, 'whole', scale_and_offset=case['scaled'], ellipse_rev=asked)
    check_frames(whole, g)
    out = os.path.join(ctx.tmp, 'tiles')
    files = gr.write_files(specs, ctx.tmp)
    with ctx.sut('gridding %d by %d tiles' % (s, s)):
        tiles = run_tiles(files, g, out, sat, s, case['scaled'], asked)
    expect_equal(sorted(t[0] for t in tiles), [(i, j) for i in range(s) for j in range(s)],
                 'tile indices')
    cover = np.zeros((g['nx'], g['ny']), int)
    filled = 0
    for (i, j), fx, fy in tiles:
        what = 'tile (%d, %d) of %d by %d' % (i, j, s, s)
        with ctx.sut('reading the images'):
            im = gr.read_images(os.path.join(out, '%d_%d' % (i, j)))
        expect_equal(len(im), 1, what + ': number of images')
        expect(abs(fx - round(fx)) < 1e-3 and abs(fy - round(fy)) < 1e-3,
               '%s starts at cell (%s, %s)', what, fx, fy)
        i0, j0 = int(round(fx)), int(round(fy))
        f = im[0]['fields']
        nx, ny = f['total_energy'].shape
        expect(0 <= i0 and i0 + nx <= g['nx'] and 0 <= j0 and j0 + ny <= g['ny'],
               '%s covers cells %d-%d, %d-%d of %d by %d', what, i0, i0 + nx, j0, j0 + ny,
               g['nx'], g['ny'])
        cover[i0:i0 + nx, j0:j0 + ny] += 1
        for c, o, n, d in (('x', g['x0'] + i0 * g['dx'], nx, g['dx']),
                           ('y', g['y0'] + j0 * g['dy'], ny, g['dy'])):
            expect_close(im[0][c], o + (np.arange(n) + 0.5) * d, '%s: %s' % (what, c), 0, 29e-6)
        if not case['scaled']:
            same(whole[0]['fields'], f, ex, 0, what, i0, j0)
            ex.check(0, f, what, i0, j0)
        else:
            for k in gr.FIELDS:
                step = STEPS[k]
                expect_close(f[k], whole[0]['fields'][k][i0:i0 + nx, j0:j0 + ny],
                             '%s: %s' % (what, k), 1e-3 if 'average' in k else 1e-6, 1.01 * step)
        filled += bool(f['total_energy'].any())
    expect(cover.min() == 1 and cover.max() == 1, 'cells covered by tiles between %d and %d times',
           cover.min(), cover.max())
    if filled > 1:
        ctx.label('lightning in several tiles')
    ctx.label('scaled' if case['scaled'] else 'unscaled')
    ctx.nontrivial = s > 1 and filled > 1


STEPS = dict(flash_extent_density=0.0625, flash_centroid_density=1e-6, average_flash_area=10,
             minimum_flash_area=10, group_extent_density=0.25, group_centroid_density=1e-6,
             average_group_area=1, total_energy=1.52597e-6)


@st.composite
def order_cases(draw):
    specs = draw(file_lists(n_files=(1, 4)))
    return {'specs': specs, 'grid': draw(grids(specs)), 'seed': draw(st.integers(0, 2 ** 31)),
            'how': draw(st.sampled_from(['files', 'rows', 'part']))}


def order_body(case, ctx):
    specs = case['specs']
    g = place(case['grid'], specs)
    rng = np.random.default_rng(case['seed'])
    ex = gr.Expected(specs, g, specs[0]['sat_lon'])
    _, a = outcome(ctx, specs, g, 'given')
    check_frames(a, g)
    ctx.label(case['how'])
    if case['how'] == 'files':
        perm = rng.permutation(len(specs))
        _, b = outcome(ctx, [specs[i] for i in perm], g, 'files permuted')
        changed = list(perm) != sorted(perm)
    elif case['how'] == 'rows':
        _, b = outcome(ctx, [shuffled(s, rng) for s in specs], g, 'rows permuted')
        changed = True
    else:   # only the files that contribute to one frame
        k = int(rng.integers(len(ex.frames)))
        part = [s for n, s in enumerate(specs) if n in ex.used[k]]
        changed = 0 < len(part) < len(specs)
        if not part:
            return
        g1 = dict(g, start=ex.frames[k][0], seconds=g['interval'])
        _, b = outcome(ctx, part, g1, 'one frame')
        check_frames(b, g1)
        same(a[k]['fields'], b[0]['fields'], ex, k, 'frame %d on its own' % k)
        ctx.nontrivial = changed and bool(ex.split)
        return
    check_frames(b, g)
    for k, (p, q) in enumerate(zip(a, b)):
        same(p['fields'], q['fields'], ex, k, '%s, frame %d' % (case['how'], k))
    ctx.nontrivial = changed and bool(ex.split)


warm = gr.warm
TESTS = [Test('tiles', tile_cases(), tile_body, quick=56),
         Test('order', order_cases(), order_body, quick=80)]
