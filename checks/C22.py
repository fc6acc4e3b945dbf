"""End-to-end gridding of files onto the fixed grid."""
import os
import re

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness import glmgen as gg, gridrun as gr
from harness.core import Test, expect, expect_close, expect_equal

RULE = ('1-4 files of 1-8 flashes, 20 s apart or with gaps, in any order; frames of 7-60 s '
        'starting before, at or after the first file; grids of 2-14 by 2-14 cells of 56-400 '
        'microradians, also not square, over or beside the flashes; every satellite longitude; '
        'minimum event and group counts. Some lists with up to 400 flashes in a file, 12 files, 30 cells a side or 12 frames. '
        'Non-trivial: two or more frames or files contribute and '
        'footprints are divided among cells. Oracle: plain-Python location table, footprints from '
        'the shipped corner table, shapely overlaps, centroid counts per cell and frame.')


@st.composite
def file_lists(draw, n_files=(1, 4), same_pixel=0.3, flashes=8):
    sat = draw(st.sampled_from(gg.SAT_LONS))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 31)))
    span = int(rng.choice([40, 40, 200, 600]))
    t0 = draw(st.sampled_from([gg.T_BASE, gg.T_SWITCH + 86400 * 60, gg.T_YEAREND - 20,
                               gg.T_BASE + 19 * 3600 + 26 * 60, gg.T_LEAP - 20, gg.T_LATE]))
    nf = draw(st.integers(*n_files))
    slots = sorted(rng.choice(nf + 2, size=nf, replace=False).tolist())
    lat, lon = rng.integers(-9000, 9001, 2)
    specs = []
    for s in slots:
        shape = [[int(n) for n in rng.integers(1, 5, rng.integers(1, 4))]
                 for _ in range(rng.integers(1, flashes + 1))]
        if rng.random() < 0.15:   # a file with a single event
            shape = [[1]]
        sp = gg.make_spec(shape, int(rng.integers(2 ** 31)), id_style='rand', order='shuffle',
                          max_group_id=2 ** 31 - 1, span=span, sat_lon=sat, t=int(t0 + 20 * s),
                          same_pixel=same_pixel if span <= 40 else 0.0,
                          t_codes=[(0, 9999), (-300, 10300)][int(rng.integers(2))])
        # move the whole storm
        e = sp['event']
        e['latc'] = [int(v) for v in np.clip(np.array(e['latc']) + lat, 0, 65535)]
        e['lonc'] = [int(v) for v in np.clip(np.array(e['lonc']) + lon, 0, 65535)]
        for tab in ('flash', 'group'):
            for k, d in (('lat', lat), ('lon', lon)):
                sp[tab][k] = np.round(np.array(sp[tab][k]) + d * gg.LL_SCALE, 4).tolist()
        specs.append(sp)
    perm = rng.permutation(nf) if draw(st.booleans()) else np.arange(nf)
    return [specs[i] for i in perm]


@st.composite
def grids(draw, specs, cells=(2, 14), dxs=(56e-6, 112e-6, 112e-6, 224e-6, 280e-6, 150e-6, 400e-6)):
    """Placed in cells relative to the first event of a drawn file; resolved in `place`."""
    dx = draw(st.sampled_from(list(dxs)))
    return {'dx': dx, 'dy': dx if draw(st.integers(0, 2)) else draw(st.sampled_from(list(dxs))),
            'nx': draw(st.integers(*cells)), 'ny': draw(st.integers(*cells)),
            'at': [draw(st.integers(0, 100)), draw(st.integers(0, 1000))],
            'anchor': [draw(st.sampled_from([0.5, 0.5, 0.0, 1.0, 0.2, -0.3])) for _ in range(2)],
            'start': min(s['t'] for s in specs) + draw(st.sampled_from([0, 0, -20, 5, -1, 20])),
            'interval': draw(st.sampled_from([20, 20, 60, 40, 7, 30])),
            'n_frames': draw(st.sampled_from([1, 2, 3, 3, 4, 6])),
            'short': draw(st.sampled_from([0, 0, 3]))}


def place(grid, specs, ellipse_rev=-1):
    from glmtools.io.glm import GLMDataset
    s = specs[grid['at'][0] % len(specs)]
    if not s['event']['id']:
        s = [s for s in specs if s['event']['id']][0]
    ds = GLMDataset(gg.to_dataset(s), ellipse_rev=ellipse_rev).dataset
    r = grid['at'][1] % len(s['event']['id'])
    g = dict(grid)
    g['x0'] = float(ds.event_x.data[r]) - grid['anchor'][0] * grid['nx'] * grid['dx'] + 1.7e-6
    g['y0'] = float(ds.event_y.data[r]) - grid['anchor'][1] * grid['ny'] * grid['dy'] + 1.7e-6
    g['seconds'] = grid['interval'] * grid['n_frames'] - grid['short']
    return g


@st.composite
def cases(draw):
    specs = draw(file_lists())
    return {'specs': specs, 'grid': draw(grids(specs)),
            'min_events': draw(st.sampled_from([None, None, None, 2, 3])),
            'min_groups': draw(st.sampled_from([None, None, None, 2])),
            'ellipse_rev': draw(st.sampled_from([-1, -1, None, 0, 1]))}


@st.composite
def large_cases(draw):
    """Hundreds of flashes in a few cells, or many files and frames."""
    c = draw(cases())
    if draw(st.booleans()):
        specs = draw(file_lists(n_files=(1, 2), flashes=400))
    else:
        specs = draw(file_lists(n_files=(6, 12), flashes=4))
    g = dict(draw(grids(specs, cells=(3, 30), dxs=(112e-6, 224e-6, 560e-6, 1120e-6))),
             n_frames=draw(st.sampled_from([1, 5, 12])))
    return dict(c, specs=specs, grid=g)


def outcome(ctx, specs, g, tag, **kw):
    """Write, grid and read back; returns the images."""
    folder = os.path.join(ctx.tmp, tag)
    os.makedirs(os.path.join(folder, 'in'))
    os.makedirs(os.path.join(folder, 'out'))
    files = gr.write_files(specs, os.path.join(folder, 'in'))
    with ctx.sut('gridding ' + tag):
        res = gr.run(files, g, os.path.join(folder, 'out'), specs[0]['sat_lon'], **kw)
    with ctx.sut('reading the images'):
        return res, gr.read_images(os.path.join(folder, 'out'))


def check_frames(images, g, per_frame=1):
    fr = gr.frames(g)
    expect_equal(len(images), per_frame * len(fr), 'number of images')
    for k, (a, b) in enumerate(fr):
        for im in images[per_frame * k:per_frame * (k + 1)]:
            expect(abs(gr.seconds(im['start']) - a) < 1e-6 and abs(gr.seconds(im['end']) - b) < 1e-6,
                   'image %d covers %s to %s instead of %s to %s', k, im['start'], im['end'],
                   gr.stamp(a), gr.stamp(b))


def check_units(path, g, what):
    """Density labels state the area of a pixel and the length of a frame."""
    with xr.open_dataset(path, decode_times=False) as d:
        units = {f: d[f].attrs.get('units', '') for f in gr.FIELDS}
    for f in gr.FIELDS:
        if not f.endswith('density'):
            continue
        m = re.search(r'(\d+) microradian\^2 pixel per +([0-9.]+) min', units[f])
        expect(m, '%s: the units of %s are %r', what, f, units[f])
        expect(abs(int(m[1]) - g['dx'] * g['dy'] * 1e12) < 1 - 1e-6, '%s: the units of %s are %r '
               'for pixels of %s by %s', what, f, units[f], g['dx'], g['dy'])
        expect(abs(float(m[2]) - g['interval'] / 60) < 0.051, '%s: the units of %s are %r for '
               'frames of %s s', what, f, units[f], g['interval'])


def points_body(case, ctx, g):
    """Gridding without dividing footprints."""
    from datetime import timedelta
    from glmtools.grid.make_grids import GLMGridder
    kw, _, _ = gr.arguments(g, ctx.tmp, case['specs'][0]['sat_lon'])
    t0 = gr.stamp(g['start'])
    kw.pop('event_grid_area_fraction_key')
    with ctx.sut('setting up a grid of points'):
        GLMGridder(t0, t0 + timedelta(seconds=g['seconds']), **kw)


def body(case, ctx):
    specs = case['specs']
    rev = -1 if case['ellipse_rev'] is None else case['ellipse_rev']
    g = place(case['grid'], specs, rev)
    sel = dict(min_events=case['min_events'], min_groups=case['min_groups'])
    if case.get('unclipped'):
        points_body(case, ctx, g)
        return
    res, images = outcome(ctx, specs, g, 'run', ellipse_rev=case['ellipse_rev'], **sel)
    check_frames(images, g)
    expect(len(res) == 1 and tuple(res[0][0]) == (0, 0), 'returned tiles %s', res)
    expect_equal(sorted(os.path.realpath(p) for p in res[0][1]),
                 sorted(os.path.realpath(im['path']) for im in images), 'file names returned')
    ex = gr.Expected(specs, g, specs[0]['sat_lon'], ellipse_rev=rev, **sel)
    for k, im in enumerate(images):
        what = 'frame %d' % k
        for f in gr.FIELDS:
            expect(im['fields'][f].shape == (g['nx'], g['ny']), '%s: %s has shape %s instead of '
                   '%s', what, f, im['fields'][f].shape, (g['nx'], g['ny']))
        for c, e in (('x', ex.xe), ('y', ex.ye)):
            expect_close(im[c], (e[1:] + e[:-1]) / 2, '%s: %s' % (what, c), 0, 29e-6)
        ex.check(k, im['fields'], what)
        expect_equal([im['attrs'][n] for n in ('platform_ID', 'orbital_slot', 'instrument_ID')],
                     list(gg.platform(specs[0])), what + ': platform, slot and instrument')
        check_units(im['path'], g, what)
    busy = [u for u in ex.used if u]
    if len(busy) > 1:
        ctx.label('several frames')
    if any(len(u) > 1 for u in busy):
        ctx.label('several files in a frame')
    if ex.split:
        ctx.label('footprints on grid')
    ctx.nontrivial = (len(busy) > 1 or any(len(u) > 1 for u in busy)) and ex.split > 1


warm = gr.warm
TESTS = [Test('images', cases(), body, quick=200),
         Test('large', large_cases(), body, quick=32)]
