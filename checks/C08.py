"""Subsetting flashes by range and size."""
import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, expect, expect_equal

from glmtools.io.glm import GLMDataset

RULE = ('Granules (flashes clustered or spread over and beyond the field of view) with any '
        'combination of longitude, latitude, x and y ranges whose ends come from the flash or '
        'event positions themselves, from midpoints between them, or are infinite, minimum '
        'event and group counts, and the event check on or off; one to three requests of one opened '
        'granule. Some granules of hundreds of flashes or children of one parent. '
        'Non-trivial: at least one '
        'flash is kept and one dropped. Oracle: the criteria written out per flash on the '
        'positions carried by the opened dataset.')
FOV = 0.1349


@st.composite
def criteria(draw):
    rng = {}
    for k in ('lon', 'lat', 'x', 'y'):
        if draw(st.integers(0, 3 if k in ('lon', 'lat') else 1)) == 0:
            rng[k] = [[draw(st.sampled_from(['at', 'event', 'between', 'wide', 'wide', 'wide'])),
                       draw(st.integers(0, 1000)) + 1000 * j] for j in range(2)]
    return {'rng': rng,
            'min_events': draw(st.sampled_from([None, None, None, 0, 1, 2, 3, 5])),
            'min_groups': draw(st.sampled_from([None, None, None, 0, 1, 2, 3])),
            'check': draw(st.sampled_from([None, None, True, False]))}


@st.composite
def cases(draw, shape=None):
    spec = draw(gg.granules(shape=shape or gg.shapes_mixed(small=(7, 3, 4), big=(20, 6, 8), p_big=2,
                                                  min_flashes=draw(st.sampled_from([1, 3, 4]))),
                            cjit=draw(st.sampled_from([0.01, 1.0, 8.0])),
                            spreads=('cluster', 'anywhere', 'limb', 'limb')))
    return {'spec': spec, 'asks': draw(st.lists(criteria(), min_size=1, max_size=3))}


def pick(i, n):
    """The lower end prefers the lower half of the sorted values."""
    k = i % max(1, (n + 1) // 2)
    return k if i < 1000 else n - 1 - k


def body(case, ctx):
    spec = case['spec']
    with ctx.sut('GLMDataset'):
        glm = GLMDataset(gg.to_dataset(spec))
    ds = glm.dataset.copy(deep=True)
    m = gg.Model(spec)
    fv = {k: ds['flash_' + k].data.astype('f8') for k in ('lon', 'lat', 'x', 'y')}
    ev = {k: ds['event_' + k].data.astype('f8') for k in ('lon', 'lat', 'x', 'y')}
    if len(ev['lon']):
        with ctx.sut('fov_bounds'):
            bounds = glm.fov_bounds
        for k, b in zip(('lon', 'lat'), bounds):
            expect_equal(np.asarray(b, 'f8'), [np.min(ev[k]), np.max(ev[k])], k + ' bounds')
    for ask in case['asks']:
        one(ask, ctx, spec, m, glm, ds, fv, ev)
    if len(case['asks']) > 1:
        ctx.label('several requests')


def one(ask, ctx, spec, m, glm, ds, fv, ev):
    kw = {}
    for k, ends in ask['rng'].items():
        vals = []
        for kind, i in ends:
            a = np.sort(fv[k])
            if kind == 'at':
                vals.append(float(a[pick(i, len(a))]))
            elif kind == 'event':
                e = ev[k][i % len(ev[k])]
                vals.append(float(np.float32(e)) if k in ('lon', 'lat') else float(e))
            elif kind == 'between':
                j = pick(i, len(a))
                lo, hi = a[j], a[min(j + 1, len(a) - 1)]
                v = 0.5 * (lo + hi) if hi > lo else lo - 0.001
                vals.append(float(np.float32(v)))
            else:
                vals.append(-1000.0 if not vals else 1000.0)
        kw[k + '_range'] = tuple(sorted(vals))
    for k in ('min_events', 'min_groups'):
        if ask[k] is not None:
            kw[k] = ask[k]
    if ask['check'] is not None:
        kw['check_event_xy'] = ask['check']
    with ctx.sut('subset_flashes'):
        got = glm.subset_flashes(**kw)
    keep = []
    for r, fid in enumerate(spec['flash']['id']):
        ok = True
        for k in ('lon', 'lat', 'x', 'y'):
            if k + '_range' in kw:
                lo, hi = kw[k + '_range']
                ok &= bool(lo < fv[k][r] < hi)
        if ask['min_events'] is not None:
            ok &= len(m.events_of_flash[fid]) >= ask['min_events']
        if ask['min_groups'] is not None:
            ok &= len(m.groups_of[fid]) >= ask['min_groups']
        if ask['check'] is not False:
            xl, xh = kw.get('x_range', (-FOV, FOV))
            yl, yh = kw.get('y_range', (-FOV, FOV))
            xl, xh, yl, yh = max(xl, -FOV), min(xh, FOV), max(yl, -FOV), min(yh, FOV)
            inside = [xl < ev['x'][e] < xh and yl < ev['y'][e] < yh
                      for e in m.events_of_flash[fid]]
            if ok and not any(inside):
                ctx.label('dropped by event check')
            ok &= any(inside)
        if ok:
            keep.append(fid)
    gid = got.flash_id.data.tolist()
    expect(sorted(gid) == sorted(keep), 'flashes kept {} instead of {} with {}',
           sorted(gid)[:15], sorted(keep)[:15], kw)
    kf = set(keep)
    wg = [i for i, p in zip(spec['group']['id'], spec['group']['parent']) if p in kf]
    we = [i for i, p in zip(spec['event']['id'], m.e_flash) if p in kf]
    expect(sorted(got.group_id.data.tolist()) == sorted(wg), 'groups of the kept flashes')
    expect(sorted(got.event_id.data.tolist()) == sorted(we), 'events of the kept flashes')
    for tab, rows in (('flash', m.f_row), ('group', m.g_row), ('event', m.e_row)):
        r = [rows[i] for i in got[tab + '_id'].data.tolist()]
        for k in ('_lat', '_lon', '_x', '_energy'):
            expect_equal(got[tab + k].data, ds[tab + k].data[r], tab + k)
    expect(glm.dataset.identical(ds), 'the source dataset was modified')
    if 0 < len(keep) < len(spec['flash']['id']):
        ctx.nontrivial = True
    ctx.label('kept all' if len(keep) == len(spec['flash']['id']) else
              'kept some' if keep else 'kept none')
    if ask['check'] is False:
        ctx.label('event check off')


TESTS = [Test('subset', cases(), body, quick=1200),
         Test('large', cases(gg.shapes_large()), body, quick=48)]
