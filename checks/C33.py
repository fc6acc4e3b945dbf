"""Files and selections without data."""
from datetime import timedelta

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness import glmgen as gg, gridrun as gr
from harness.core import Test, expect, expect_equal
from checks.C19 import Sink
from checks.C22 import check_frames, file_lists, grids, outcome, place

from glmtools.grid.clipping import QuadMeshSubset
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import read_flashes

RULE = ('Granules without any flash, from any date, satellite and area unit, from file or memory; '
        'granules of 1-12 flashes with criteria or grids that exclude all of them; lists of '
        'files with 1-3 empty ones before, between and after others, or empty ones only. '
        'Non-trivial: something is excluded, or an empty file is first, or all are empty. Oracle: '
        'zero rows, nothing sent on, the images of the list without the empty files, or zero '
        'grids.')

DIMS = ('number_of_flashes', 'number_of_groups', 'number_of_events')
TIMES = [gg.T_BASE, gg.T_SWITCH - 20, gg.T_SWITCH, gg.T_SWITCH + 40, gg.T_FIXEND + 20,
         gg.T_YEAREND, gg.T_SWITCH + 86400 * 60, gg.T_LEAP, gg.T_LATE]

IMPOSSIBLE = [{'lon_range': [500.0, 600.0]}, {'lat_range': [80.0, 90.0]},
              {'x_range': [0.2, 0.25]}, {'y_range': [-0.25, -0.2]}, {'min_events': 1000000},
              {'min_groups': 1000000},
              {'x_range': [-0.25, -0.2], 'y_range': [0.2, 0.25], 'min_events': 2}]
ANYTHING = [{}, {'min_events': 1}, {'min_groups': 2, 'min_events': 3},
            {'lon_range': [-180.0, 180.0], 'lat_range': [-90.0, 90.0]},
            {'x_range': [-0.3, 0.3], 'y_range': [-0.3, 0.3]}]


@st.composite
def open_cases(draw):
    return {'spec': draw(gg.granules(shape=st.just([]), times=st.sampled_from(TIMES),
                                     area_units=draw(st.sampled_from(['km2', 'm2'])),
                                     frame_vars=draw(st.booleans()))),
            'memory': draw(st.booleans()),
            'opts': draw(st.fixed_dictionaries({}, optional={
                'check_tree': st.booleans(), 'check_area_units': st.booleans(),
                'change_energy_units': st.booleans(), 'fix_bad_DO07_times': st.booleans(),
                'ellipse_rev': st.sampled_from([-1, 0, 1])})),
            'sel': draw(st.sampled_from(ANYTHING + IMPOSSIBLE)),
            'ids': draw(st.lists(st.integers(0, 65535), max_size=3)),
            'targets': draw(st.booleans()), 'mesh': draw(st.booleans())}


def empty(ds, what, placed=True):
    for d in DIMS:
        expect_equal(ds.sizes[d], 0, '%s: %s' % (what, d))
    for v in ('flash_id', 'group_id', 'event_id', 'event_parent_group_id', 'flash_energy',
              'group_area', 'event_lat', 'event_lon', 'group_parent_flash_id'):
        expect(v in ds.variables and ds[v].size == 0, '%s: %s is missing or not empty', what, v)
    for d, k in zip(DIMS, ('flash', 'group', 'event') if placed else ()):
        for v in (k + '_x', k + '_y'):
            expect(v in ds.variables and ds[v].dims == (d,), '%s: %s is missing or not along %s',
                   what, v, d)


def mesh_at(x0, y0, n=4, d=1e-3):
    xe, ye = np.meshgrid(x0 + d * np.arange(n + 1), y0 + d * np.arange(n + 1))
    return QuadMeshSubset(xe, ye, n_neighbors=min(160, n * n), regular=True)


def nothing_read(glm, spec, sel, targets, mesh, ctx, what):
    sinks = {k: Sink() for k in ('flash', 'group', 'event')} if targets else None
    with ctx.sut('read_flashes: ' + what):
        got = read_flashes(glm, sinks, base_date=gr.stamp(spec['t']), nadir_lon=spec['sat_lon'],
                           clip_events=mesh if mesh is not None else False,
                           fixed_grid=mesh is not None, **sel)
    if targets:
        for k, s in sinks.items():
            rows = sum(len(a) for pair in s.got for a in pair)
            expect(rows == 0, '%s: %d rows were sent for %s', what, rows, k)
    return got


def open_body(case, ctx):
    spec = case['spec']
    if case['memory']:
        opts = {k: v for k, v in case['opts'].items() if k != 'fix_bad_DO07_times'}
        src = gg.to_dataset(spec)
        opts['fix_bad_DO07_times'] = False
    else:
        src = gg.to_file(spec, ctx.tmp + '/e.nc')
        opts = case['opts']
    with ctx.sut('opening'):
        glm = GLMDataset(src, **opts)
    empty(glm.dataset, 'opened')
    expect_equal(glm.dataset.attrs['platform_ID'], gg.platform(spec)[0], 'platform')
    with ctx.sut('get_flashes'):
        sub = glm.get_flashes(case['ids'])
    empty(sub, 'flashes %s' % case['ids'])
    with ctx.sut('subset_flashes'):
        sub = glm.subset_flashes(**case['sel'])
    empty(sub, 'subset %s' % case['sel'])
    with ctx.sut('counts'):
        n = glm.count_children('flash_id', 'event_id')
        p = glm.replicate_parent_ids('flash_id', 'event_parent_group_id')
    expect(all(len(v) == 0 for v in n) and len(p) == 0, 'counts %s and parents %s', n, p)
    got = nothing_read(glm, spec, case['sel'], case['targets'],
                       mesh_at(0, 0) if case['mesh'] else None, ctx, 'empty file')
    expect(len([g for g in got if g]) == 0, 'read %s from an empty file', got)
    glm.dataset.close()
    if not case['memory']:
        with ctx.sut('opening without parent-child data'):
            g2 = GLMDataset(src, calculate_parent_child=False)
        empty(g2.dataset, 'opened without parent-child data', placed=False)
        g2.dataset.close()
    ctx.label('memory' if case['memory'] else 'file')
    ctx.nontrivial = bool(case['sel'])


@st.composite
def nothing_cases(draw):
    return {'spec': draw(gg.granules(times=st.sampled_from(TIMES), max_group_id=2 ** 31 - 1)),
            'sel': draw(st.sampled_from(IMPOSSIBLE)), 'targets': draw(st.booleans()),
            'mesh': draw(st.booleans()), 'far': [draw(st.sampled_from([-0.3, 0.2, 0.29])),
                                                 draw(st.sampled_from([-0.2, 0.25]))]}


def nothing_body(case, ctx):
    spec = case['spec']
    with ctx.sut('opening'):
        glm = GLMDataset(gg.to_dataset(spec))
    n = {d: glm.dataset.sizes[d] for d in DIMS}
    with ctx.sut('subset_flashes'):
        sub = glm.subset_flashes(**case['sel'])
    empty(sub, 'subset %s' % case['sel'])
    with ctx.sut('get_flashes'):
        none = glm.get_flashes([])
        also = glm.get_flashes(sub.flash_id.data)
    empty(none, 'no flashes')
    empty(also, 'flashes of an empty subset')
    mesh = mesh_at(*case['far']) if case['mesh'] else None
    got = nothing_read(glm, spec, case['sel'], case['targets'], mesh, ctx, 'empty selection')
    expect(len([g for g in got if g]) == 0, 'read %s from an empty selection', got)
    # flashes selected, but their footprints miss the mesh
    got = nothing_read(glm, spec, {}, case['targets'], mesh_at(*case['far']), ctx, 'mesh beside')
    for g in got:
        for k, pair in (g or {}).items():
            expect_equal(len(pair[0]), 0, 'pieces of %s on a mesh beside all footprints' % k)
    expect_equal({d: glm.dataset.sizes[d] for d in DIMS}, n, 'rows of the original dataset')
    ctx.label(','.join(sorted(case['sel'])))
    ctx.nontrivial = True


@st.composite
def grid_cases(draw):
    specs = draw(file_lists(n_files=(1, 2)))
    where = [draw(st.integers(0, len(specs))) for _ in range(draw(st.integers(1, 3)))]
    return {'specs': specs, 'grid': draw(grids(specs, cells=(2, 8))), 'where': sorted(where),
            'only': draw(st.integers(0, 3)) == 0,
            'beside': draw(st.integers(0, 3)) == 0}


def grid_body(case, ctx):
    specs = case['specs']
    g = place(case['grid'], specs)
    sat = specs[0]['sat_lon']
    if case['beside']:
        g['x0'], g['y0'] = 0.2, -0.25
    hollow = [gg.make_spec([], 1, sat_lon=sat, t=specs[min(w, len(specs) - 1)]['t'] - 20)
              for w in case['where']]
    if case['only']:
        mixed = hollow
    else:
        mixed = list(specs)
        for w, h in reversed(list(zip(case['where'], hollow))):
            mixed.insert(w, h)
    _, images = outcome(ctx, mixed, g, 'with')
    check_frames(images, g)
    if case['only'] or case['beside']:
        for k, im in enumerate(images):
            for f in gr.FIELDS:
                expect(im['fields'][f].shape == (g['nx'], g['ny']), 'shape of %s', f)
                expect(not im['fields'][f].any(), 'frame %d: %s is not zero without lightning', k,
                       f)
    else:
        _, plain = outcome(ctx, specs, g, 'without')
        expect_equal(len(images), len(plain), 'images')
        for k, (a, b) in enumerate(zip(images, plain)):
            for f in gr.FIELDS:
                expect(np.array_equal(a['fields'][f], b['fields'][f]), 'frame %d: empty files '
                       'change %s', k, f)
            for c in 'xy':
                expect_equal(a[c], b[c], c)
            for n in ('platform_ID', 'orbital_slot', 'instrument_ID', 'time_coverage_start',
                      'time_coverage_end', 'scene_id'):
                expect_equal(a['attrs'].get(n), b['attrs'].get(n), n)
    for im in images:
        expect_equal(im['attrs'].get('platform_ID'), gg.platform(specs[0])[0], 'platform')
    ctx.label('only empty files' if case['only'] else 'beside' if case['beside'] else 'mixed')
    ctx.nontrivial = case['only'] or case['beside'] or 0 in case['where']


warm = gr.warm
TESTS = [Test('open', open_cases(), open_body, quick=240),
         Test('nothing', nothing_cases(), nothing_body, quick=200),
         Test('gridding', grid_cases(), grid_body, quick=80)]
