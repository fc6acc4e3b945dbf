"""Repair of unsigned time offsets."""
import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, expect, expect_equal

from glmtools.io.glm import GLMDataset

RULE = ('Files with time codes over the whole 16 bit range, product bounds before, at, inside, '
        'at the end of and after the affected period, with and without the frame time '
        'variables and the unsigned attribute, consistent or with orphaned rows, with the '
        'repair on and off. Some granules of hundreds of flashes or children of one parent. '
        'Non-trivial: some code above 32767. Oracle: signed or unsigned '
        'reading of the codes.')

E, G, F = 'event', 'group', 'flash'
COLS = {'event_time_offset': (E, 't'), 'group_time_offset': (G, 't'),
        'flash_time_offset_of_first_event': (F, 't0'),
        'flash_time_offset_of_last_event': (F, 't1'),
        'group_frame_time_offset': (G, 't'),
        'flash_frame_time_offset_of_first_event': (F, 't0'),
        'flash_frame_time_offset_of_last_event': (F, 't1')}


@st.composite
def cases(draw, shape=None):
    base = draw(st.sampled_from(['start', 'end', 'inside', 'far']))
    if base == 'start':
        t = gg.T_SWITCH + draw(st.sampled_from([-86400, -20, -1, 0, 1, 20, 3600]))
    elif base == 'end':
        t = gg.T_FIXEND - 20 + draw(st.sampled_from([-3600, -20, -1, 0, 1, 20, 86400]))
    elif base == 'inside':
        t = draw(st.integers(gg.T_SWITCH, gg.T_FIXEND - 20))
    else:
        t = gg.T_SWITCH + draw(st.sampled_from([-400, -100, 100, 365, 730])) * 86400
    spec = draw(gg.granules(shape=shape or gg.shapes_mixed(big=(10, 4, 4)), times=st.just(t),
                            frame_vars=draw(st.integers(0, 3)) > 0,
                            t_codes=draw(st.sampled_from([(0, 65535), (30000, 34000),
                                                          (0, 9999), (32766, 32769)]))))
    spec['t_unsigned'] = draw(st.integers(0, 3)) == 0
    if draw(st.integers(0, 3)) == 0 and len(spec['flash']['id']) > 1:
        # a flash row is missing: its groups and events are orphans
        r = draw(st.integers(0, len(spec['flash']['id']) - 1))
        for c in spec['flash']:
            del spec['flash'][c][r]
    return {'spec': spec, 'fix': draw(st.integers(0, 4)) > 0}


def body(case, ctx):
    spec = case['spec']
    path = gg.to_file(spec, ctx.tmp + '/g.nc')
    raw = gg.to_dataset(spec)
    kw = {} if case['fix'] else {'fix_bad_DO07_times': False}
    with ctx.sut('GLMDataset'):
        glm = GLMDataset(path, **kw)
        ds = glm.dataset.load()
    inside = spec['t'] >= gg.T_SWITCH and spec['t'] + spec['dur'] <= gg.T_FIXEND
    fixed = case['fix'] and inside and spec['frame_vars']
    unsigned = fixed or spec['t_unsigned']
    m = gg.Model(spec)
    row_of = {E: m.e_row, G: m.g_row, F: m.f_row}
    for name, (tab, col) in COLS.items():
        if 'frame' in name and not spec['frame_vars']:
            continue
        ids = ds[tab + '_id'].data.tolist()
        t = gg.time64(spec, spec[tab][col], unsigned)
        want = t[[row_of[tab][i] for i in ids]]
        expect_equal(ds[name].data, want, name)
        if unsigned:
            expect(bool((ds[name].data >= raw.product_time.data).all()),
                   '{} runs before the product time', name)
        expect(name in ds.coords or name not in raw.coords, '{} is no longer a coordinate', name)
    for name in ('event_lat', 'group_lon', 'flash_lat', 'group_parent_flash_id'):
        tab = name.split('_')[0]
        ids = ds[tab + '_id'].data.tolist()
        expect_equal(ds[name].data, raw[name].data[[row_of[tab][i] for i in ids]], name)
    ds.close()
    if max(spec[E]['t'] + spec[G]['t'] + spec[F]['t0']) > 32767:
        ctx.nontrivial = True
    ctx.label('fixed' if fixed else 'as declared')
    if len(set(spec[G]['parent'])) > len(spec[F]['id']):
        ctx.label('orphans')


TESTS = [Test('times', cases(), body, quick=800),
         Test('large', cases(gg.shapes_large()), body, quick=48)]
