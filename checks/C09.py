"""The per-location event table."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, expect, expect_close, expect_equal

from glmtools.io.glm import GLMDataset, get_lutevents

RULE = ('Opened granules, or selections of their flashes, with clustered events that share '
        'locations, aggregated with cell sizes from 5 to 20000 microradians, default or '
        'altered coordinate ranges, up to three tables of one dataset. Some granules of hundreds of flashes, also at one place, or children of one parent. '
        'Non-trivial: at least one cell has several events and '
        'another cell exists. Oracle: dictionary of cells by floor division. Tolerance '
        'relative 1e-5 on sums (single precision inputs), 1e-9 rad on positions.')


@st.composite
def cases(draw, shape=None, spreads=('cluster', 'cluster', 'anywhere')):
    spec = draw(gg.granules(shape=shape or gg.shapes_mixed(small=(4, 3, 5), big=(15, 6, 10), p_big=4),
                            energy=draw(st.sampled_from(['mixed', 'uniform', 'small'])),
                            area=draw(st.sampled_from(['mixed', 'uniform', 'fill'])),
                            spreads=spreads))
    return {'spec': spec,
            'tables': [[draw(st.sampled_from([None, None, 28e-6, 5e-6, 56e-6, 224e-6, 1e-3, 2e-2])),
                        draw(st.sampled_from([None, None, [[-0.31, 0.31], [-0.2, 0.4]],
                                              [[-0.17, 0.5], [-0.18, 0.18]]]))]
                       for _ in range(draw(st.integers(1, 3)))],
            'sel': draw(st.one_of(st.none(), st.lists(st.integers(0, 20), min_size=1,
                                                      max_size=4))),
            'perm': draw(st.integers(0, 2**31))}


def table(ds, scale, rng):
    x, y = ds.event_x.data.astype('f8'), ds.event_y.data.astype('f8')
    cells = {}
    for r in range(len(x)):
        c = (math.floor((x[r] - rng[0][0]) / scale), math.floor((y[r] - rng[1][0]) / scale))
        cells.setdefault(c, []).append(r)
    return cells


def check(ds, got, scale, rng, what):
    cells = table(ds, scale, rng)
    fa = dict(zip(ds.flash_id.data.tolist(), ds.flash_area.data.astype('f8').tolist()))
    ga = dict(zip(ds.group_id.data.tolist(), ds.group_area.data.astype('f8').tolist()))
    ef = ds.event_parent_flash_id.data.tolist()
    eg = ds.event_parent_group_id.data.tolist()
    en = ds.event_energy.data.astype('f8')
    x, y = ds.event_x.data.astype('f8'), ds.event_y.data.astype('f8')
    lid = got.event_parent_lutevent_id.data
    ids = got.lutevent_id.data.tolist()
    expect(len(ids) == len(set(ids)), '{}: repeated location ids', what)
    expect(len(ids) == len(cells), '{}: {} locations instead of {}', what, len(ids), len(cells))
    row = {i: r for r, i in enumerate(ids)}
    v = {k: got['lutevent_' + k].data for k in
         ('x', 'y', 'energy', 'count', 'flash_count', 'group_count', 'total_flash_area',
          'total_group_area', 'min_flash_area', 'time_offset')}
    seen = set()
    for c, rows in sorted(cells.items()):
        lids = set(lid[rows].tolist())
        expect(len(lids) == 1, '{}: events of one cell have ids {}', what, sorted(lids))
        i = lids.pop()
        expect(i in row and i not in seen, '{}: id {} shared by two cells or absent', what, i)
        seen.add(i)
        r = row[i]
        fl, gr = sorted(set(ef[k] for k in rows)), sorted(set(eg[k] for k in rows))
        want = [('count', len(rows)), ('flash_count', len(fl)), ('group_count', len(gr)),
                ('energy', en[rows].sum()), ('total_flash_area', sum(fa[k] for k in fl)),
                ('total_group_area', sum(ga[k] for k in gr)),
                ('min_flash_area', min(fa[k] for k in fl))]
        for k, w in want:
            expect_close(v[k][r], w, '{}: lutevent_{} of cell {}'.format(what, k, c), rtol=1e-5)
        expect_close(v['x'][r], x[rows].mean(), what + ': lutevent_x', rtol=0, atol=1e-9)
        expect_close(v['y'][r], y[rows].mean(), what + ': lutevent_y', rtol=0, atol=1e-9)
        expect(v['time_offset'][r] == ds.product_time.data.astype('M8[ns]'),
               '{}: time {}', what, v['time_offset'][r])
    expect_close(v['energy'].sum(), en.sum(), what + ': total energy', rtol=1e-5)
    expect_close(v['count'].astype('f8').sum(), len(x), what + ': total count', rtol=0)
    return cells


def body(case, ctx):
    spec = case['spec']
    with ctx.sut('GLMDataset'):
        glm = GLMDataset(gg.to_dataset(spec))
        ds = glm.dataset
        if case['sel'] is not None:
            ids = spec['flash']['id']
            sel = list(dict.fromkeys(ids[i % len(ids)] for i in case['sel']))
            ds = glm.get_flashes(sel)
    for scale, rng in case['tables']:
        one(case, ctx, ds, scale, rng)


def one(case, ctx, ds, want_scale, want_rng):
    kw, scale, rng = {}, 28e-6, [[-0.31, 0.31], [-0.31, 0.31]]
    if want_scale is not None:
        kw['scale_factor'] = scale = want_scale
    if want_rng is not None:
        rng = want_rng
        kw.update(x_range=tuple(rng[0]), y_range=tuple(rng[1]))
    before = ds.copy(deep=True)
    with ctx.sut('get_lutevents'):
        got = get_lutevents(ds, **kw)
    expect(ds.identical(before), 'the input dataset was modified')
    for k in ('event_x', 'event_energy', 'flash_area', 'group_id'):
        expect_equal(got[k].data, before[k].data, k + ' carried over')
    cells = check(before, got, scale, rng, 'table')
    perm = np.random.default_rng(case['perm']).permutation(before.sizes['number_of_events'])
    shuffled = before.isel(number_of_events=perm)
    with ctx.sut('get_lutevents on shuffled events'):
        got2 = get_lutevents(shuffled, **kw)
    check(shuffled, got2, scale, rng, 'shuffled')
    if len(cells) > 1 and any(len(r) > 1 for r in cells.values()):
        ctx.nontrivial = True
    ef = before.event_parent_flash_id.data
    if any(len(set(ef[r].tolist())) > 1 for r in cells.values()):
        ctx.label('cell with several flashes')


TESTS = [Test('table', cases(), body, quick=640),
         Test('large', cases(gg.shapes_large()), body, quick=32),
         Test('crowded', cases(gg.shapes_crowded(), ('point',)), body, quick=32)]
