"""Reading with clipping onto a mesh."""
import os
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from harness import clipmodel as cm, glmgen as gg, select
from harness.core import REPO, Test, expect, expect_close, expect_equal
from checks.C19 import Sink, pick

from glmtools.grid.clipping import QuadMeshSubset
from glmtools.io.ccd import load_pixel_corner_lookup, quads_from_corner_lookup, \
    save_pixel_corner_lookup
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import read_flashes

RULE = ('Opened granules of 1-12 flashes, partly over each other; regular meshes of 1-12 by 1-12 '
        'cells from a sixteenth of to twice the footprint width, evenly or unevenly spaced, x '
        'along either dimension, centred on or near one of the events, so that footprints are '
        'inside, astride or off the mesh; footprint tables with offsets affine in position, of '
        'different shapes, sizes and windings, or the shipped table; chunk sizes; selection '
        'criteria; targets or returned tables. Some granules of up to 60 flashes or 320 children of one parent, or of hundreds of flashes at one place. '
        'Non-trivial: a footprint is divided among '
        'cells and another location falls on the mesh. Oracle: plain-Python location '
        'table, affine footprints, shapely overlaps with every cell. Tolerance: clipping '
        'resolution 4*2^-31 rad times perimeter, plus 1e-5 relative for single precision.')

SHAPES = {
    'square': [[-1, 1], [-1, -1], [1, -1], [1, 1]],
    'rect': [[-1, 0.6], [-1, -0.6], [1, -0.6], [1, 0.6]],
    'kite': [[0, 1.3], [-0.8, 0.1], [0, -0.9], [0.9, 0.1]],
    'slant': [[-1.2, 1], [-0.7, -1], [1.3, -0.9], [0.8, 1.1]],
}


@st.composite
def footprints(draw):
    """Offsets in microradians: [c0, cx, cy]."""
    s = np.array(SHAPES[draw(st.sampled_from(sorted(SHAPES)))])
    half = draw(st.sampled_from([112.0, 112.0, 60.0, 150.0]))
    c0 = s * half
    if draw(st.booleans()):
        c0 = c0[::-1]
    k = draw(st.sampled_from([0.0, 0.0, 0.3]))
    cx = c0 * [[k, 0.5 * k]] + ([0, 0] if not k else [10.0, -4.0])
    cy = c0 * [[0.2 * k, k]]
    return [c0.tolist(), cx.tolist(), cy.tolist(), half]


@st.composite
def meshes(draw, half):
    fr = draw(st.sampled_from([2.0, 1.0, 1.0, 0.5, 0.5, 0.25, 0.125, 0.0625]))
    big = draw(st.booleans())
    top = int(min(60, max(12, 14 / fr))) if big else 12
    n = [draw(st.integers(1, 12)) if not big else draw(st.integers(6, top)) for _ in range(2)]
    return {'d': [2e-6 * half * fr, 2e-6 * half * fr * draw(st.sampled_from([1, 1, 0.7, 1.5]))],
            'n': n, 'at': draw(st.integers(0, 10 ** 6)),
            'shift': [draw(st.sampled_from([0.0, 0.5, 0.21, 1.0, -0.6])) for _ in range(2)],
            'anchor': [draw(st.sampled_from([0.5, 0.5, 0.0, 1.0, 0.2])) for _ in range(2)],
            'uneven': draw(st.integers(0, 3)) == 0, 'seed': draw(st.integers(0, 2 ** 31)),
            'orient': draw(st.sampled_from(['xy', 'xy', 'ij']))}


@st.composite
def cases(draw, shape=None,
          spreads=('cluster', 'cluster', 'cluster', 'anywhere'),
          chunks=(None, None, 1, 2, 3, 100)):
    spec = draw(gg.granules(shape=shape or gg.shapes_mixed(small=(5, 3, 4), big=(12, 4, 5), p_big=4),
                            max_group_id=2 ** 32 - 1, span=draw(st.sampled_from([40, 300, 8000])),
                            area=draw(st.sampled_from(['mixed', 'small'])),
                            energy=draw(st.sampled_from(['mixed', 'small'])),
                            spreads=spreads))
    fp = draw(footprints())
    return {'spec': spec, 'fp': fp, 'mesh': draw(meshes(fp[3])),
            'shipped': False,
            'min_events': draw(st.sampled_from([None, None, None, 1, 2])),
            'min_groups': draw(st.sampled_from([None, None, None, 1, 2])),
            'rng': draw(st.sampled_from([None, None, None, 'x', 'y'])),
            'chunk': draw(st.sampled_from(chunks)),
            'base_s': draw(st.sampled_from([0, -86400 * 900, 3600])),
            'targets': draw(st.booleans())}


@st.composite
def shipped_cases(draw):
    """Few cases, so always several flashes close together."""
    c = draw(cases())
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 31)))
    shape = [[int(n) for n in rng.integers(1, 5, rng.integers(1, 4))]
             for _ in range(rng.integers(3, 9))]
    c['spec'] = gg.make_spec(shape, int(rng.integers(2 ** 31)), id_style='rand', order='shuffle',
                             max_group_id=2 ** 32 - 1, span=int(rng.choice([40, 300])),
                             sat_lon=float(rng.choice(gg.SAT_LONS)))
    c['mesh']['n'] = [int(n) for n in rng.integers(6, 14, 2)]
    c['shipped'] = True
    return c


def edges(mesh, x, y):
    """1-D edges around the position of an event."""
    rng = np.random.RandomState(mesh['seed'])
    r = mesh['at'] % len(x)
    out = []
    for k, p in enumerate((x[r], y[r])):
        n, d = mesh['n'][k], mesh['d'][k]
        w = rng.uniform(0.5, 1.5, n) * d if mesh['uneven'] else np.full(n, d)
        e = np.concatenate([[0], np.cumsum(w)])
        out.append(e - e[-1] * mesh['anchor'][k] + p + mesh['shift'][k] * d)
    return out


def offsets(case, x, y):
    if case['shipped']:
        X, Y, c = load_pixel_corner_lookup(os.path.join(REPO, 'glmtools/io',
                                                        'G16_corner_lut_fixedgrid.pickle'))
        q = quads_from_corner_lookup(X * 1e-6, Y * 1e-6, c * 1e-6, np.asarray(x), np.asarray(y))
        return q - np.stack([x, y], axis=-1)[:, None, :]
    return cm.affine_offsets(*case['fp'][:3], x, y)


def check_cells(rows, cells, sec, xe, ye, orient, what):
    got = {}
    for r in rows:
        a, b = int(r['mesh_xi']), int(r['mesh_yi'])
        i, j = (b, a) if orient == 'xy' else (a, b)
        expect(0 <= i < len(xe) - 1 and 0 <= j < len(ye) - 1, '%s: row for cell (%s, %s) that '
               'is not in the mesh', what, a, b)
        expect((i, j) not in got, '%s: more than one row for cell (%s, %s)', what, i, j)
        got[i, j] = r
    for c, want in cells.items():
        if c not in got:
            expect(want['area'] <= want['atol'], '%s: no row for cell %s although footprints '
                   'cover %s of it', what, c, want['sum']['mesh_frac'])
            continue
        r = got[c]
        for k in cm.SUMS:
            expect_close(float(r[k]), want['sum'][k], '%s: %s of cell %s' % (what, k, c), 1e-5,
                         want['tol'][k])
        lo = min(want['sure'] + want['maybe'], default=np.inf)
        hi = min(want['sure'], default=np.inf)
        v = float(r['lutevent_min_flash_area'])
        expect(lo * (1 - 1e-6) <= v <= hi * (1 + 1e-6), '%s: minimum flash area of cell %s is '
               '%s instead of %s', what, c, v, hi)
        expect(abs(float(r['time']) - sec) <= 1e-6, '%s: time of cell %s is %s instead of %s',
               what, c, r['time'], sec)
        if not want['maybe']:
            tol = 2e-8
            expect(xe[c[0]] - tol <= r['x'] <= xe[c[0] + 1] + tol and
                   ye[c[1]] - tol <= r['y'] <= ye[c[1] + 1] + tol,
                   '%s: the row of cell %s is placed at (%s, %s), outside of it', what, c,
                   r['x'], r['y'])
    for c in got:
        expect(c in cells, '%s: a row for cell %s, which no footprint touches', what, c)
    return got


def check_parents(ds, fl, gr, keep, base, what):
    b = np.datetime64(base, 'ns')

    def sec(t):
        return (t.astype('M8[ns]') - b) / np.timedelta64(1, 'ns') * 1e-9
    for tab, pre, ids, t0, t1 in (
            (fl, 'flash', ds.flash_id.data, ds.flash_time_offset_of_first_event.data,
             ds.flash_time_offset_of_last_event.data),
            (gr, 'group', ds.group_id.data, ds.group_time_offset.data, ds.group_time_offset.data)):
        owner = ds.flash_id.data if pre == 'flash' else ds.group_parent_flash_id.data
        want = {int(i): r for r, i in enumerate(ids) if int(owner[r]) in keep}
        got = [int(i) for i in tab['flash_id']]
        expect(len(got) == len(set(got)) and set(got) == set(want), '%s: %s table has ids %s '
               'instead of %s', what, pre, sorted(got)[:20], sorted(want)[:20])
        rows = [want[i] for i in got]
        tag = '%s %s table: ' % (what, pre)
        for name, var in (('area', 'area'), ('total_energy', 'energy'), ('ctr_x', 'x'),
                          ('ctr_y', 'y')):
            expect_close(tab[name].astype('f8'), ds[pre + '_' + var].data.astype('f8')[rows],
                         tag + name, 2e-6, 3e-8 if var in 'xy' else 0)
        expect_close(tab['start'], sec(t0[rows]), tag + 'start', 1e-15, 1e-6)
        expect_close(tab['duration'].astype('f8'), sec(t1[rows]) - sec(t0[rows]),
                     tag + 'duration', 1e-6, 1e-6)


def body(case, ctx):
    spec = case['spec']
    with ctx.sut('open'):
        glm = GLMDataset(gg.to_dataset(spec))
    ds = glm.dataset
    ex, ey = ds.event_x.data.astype('f8'), ds.event_y.data.astype('f8')
    on_earth = np.isfinite(ex) & np.isfinite(ey)
    expect(on_earth.all(), 'events without fixed grid position')
    xe, ye = edges(case['mesh'], ex, ey)
    orient = case['mesh']['orient']
    X, Y = np.meshgrid(xe, ye, indexing=orient)
    kw = {}
    for k in ('min_events', 'min_groups'):
        if case[k] is not None:
            kw[k] = case[k]
    if case['rng']:
        kw.update(select.ranges(ds, {case['rng']: [['below', 0], ['between', 1000]]}, pick))
    keep = set(select.keep_flashes(spec, ds, **kw))
    t0 = datetime(2000, 1, 1, 12) + timedelta(seconds=spec['t'])
    base = datetime(t0.year, t0.month, t0.day) + timedelta(seconds=case['base_s'])
    sec = float((ds.product_time.data.astype('M8[ns]') - np.datetime64(base, 'ns'))
                / np.timedelta64(1, 'ns')) * 1e-9
    call = dict(kw, base_date=base, nadir_lon=spec['sat_lon'], fixed_grid=True)
    if not case['shipped']:
        call['corner_pickle'] = os.path.join(ctx.tmp, 'corners.pickle')
        save_pixel_corner_lookup(*cm.affine_table(*case['fp'][:3]),
                                 filename=call['corner_pickle'])
    if case['chunk'] is not None:
        call['chunk_size'] = case['chunk']
    with ctx.sut('read_flashes'):
        mesh = QuadMeshSubset(X, Y, n_neighbors=20, regular=True)
        res = read_flashes(glm, None, clip_events=mesh, **call)
    expect(all(set(d) == {'flash', 'group', 'event'} for d in res), 'tables of %s', res)
    seen = []
    split = False
    nloc = 0
    total = 0.0
    inside = True
    for n, d in enumerate(res):
        fl = d['flash'][1]
        ids = fl['flash_id'].tolist()
        seen += ids
        check_parents(ds, fl, d['group'][1], set(ids), base, 'chunk %d' % n)
        locs = cm.locations(ds, ids)
        px, py = np.array([q['x'] for q in locs]), np.array([q['y'] for q in locs])
        quads = np.stack([px, py], axis=-1)[:, None, :] + offsets(case, px, py)
        ctx.label('locations' if len(locs) > 1 else 'one location')
        cells = cm.expected_cells(locs, quads, xe, ye)
        for level in ('flash', 'group', 'event'):
            check_cells(d[level][0], cells, sec, xe, ye, orient, '%s chunk %d' % (level, n))
        ov = cm.overlaps(quads, xe, ye)
        nloc += sum(any(a > 1e-13 for a in o.values()) for _, _, o in ov)
        split |= any(sum(a > 1e-13 for a in o.values()) > 1 for _, _, o in ov)
        inside &= all(q[:, 0].min() > xe[0] and q[:, 0].max() < xe[-1] and q[:, 1].min() > ye[0]
                      and q[:, 1].max() < ye[-1] for q in quads)
        total += float(d['event'][0]['power'].astype('f8').sum())
    expect_equal(sorted(seen), sorted(keep), 'flashes over all chunks')
    if inside and keep:
        en = ds.event_energy.data.astype('f8')
        want = en[[int(f) in keep for f in ds.event_parent_flash_id.data]].sum()
        d = min(case['mesh']['d'])
        expect_close(total, want, 'energy of footprints wholly on the mesh',
                     1e-5 + 8 * 2.0 ** -31 / d)
        ctx.label('all inside')
    if case['targets']:
        sinks = {k: Sink() for k in ('flash', 'group', 'event')}
        with ctx.sut('read_flashes to targets'):
            read_flashes(glm, sinks, clip_events=mesh, **call)
        kept = [d for d in res if len(d['flash'][0])]
        for k, s in sinks.items():
            expect_equal(len(s.got), len(kept), 'number of %s tables sent' % k)
            for (a, b), d in zip(s.got, kept):
                for u, v, nm in ((a, d[k][0], 'child'), (b, d[k][1], 'parent')):
                    expect(u.dtype == v.dtype and len(u) == len(v) and
                           u.tobytes() == v.tobytes(), '%s: the %s table sent differs from the '
                           'one returned', k, nm)
        ctx.label('targets')
    if any(not len(d['flash'][0]) for d in res):
        ctx.label('chunk off the mesh')
    ctx.nontrivial = split and nloc > 1


from harness.gridrun import warm  # noqa: E402,F401

TESTS = [Test('clipped', cases(), body, quick=480),
         Test('large', cases(gg.shapes_large(60, 320)), body, quick=32),
         Test('crowded', cases(gg.shapes_crowded(), ('point',), (None, 100, 150)), body, quick=32),
         Test('shipped', shipped_cases(), body, quick=96)]
