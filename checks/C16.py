"""Tables of split polygons."""
import numpy as np
from hypothesis import strategies as st

from checks.C14 import SCALES, make_poly
from harness import poly
from harness.core import Test, expect, expect_close, expect_equal

from glmtools.grid import split_events as se
from glmtools.grid.clipping import QuadMeshPolySlicer, QuadMeshSubset

RULE = ('0-6 polygons of the kinds used for slicing, on even, uneven and jittered meshes in '
        'either dimension order, cut by a slicer, with parent ids that are sequential, repeated, '
        'descending or up to 2^63, given as a list, unsigned or signed arrays; tables at all '
        'three levels with default or own position names. Also 15-60 polygons on meshes of up to 20 by 20 cells. '
        'Non-trivial: at least three pieces of '
        'two parents. Oracle: the pieces themselves, cell areas by shoelace formula, covered '
        'share by shapely.')


@st.composite
def cases(draw, large=False):
    side = st.integers(2, 8) if not large else st.integers(8, 20)
    kind = draw(st.sampled_from(['even', 'even', 'uneven', 'jittered']))
    return {'kind': kind, 'nx': draw(side), 'ny': draw(side),
            'orient': draw(st.sampled_from(['xy', 'xy', 'ij'])),
            'regular': kind != 'jittered' and draw(st.booleans()),
            'scale': draw(st.integers(0, len(SCALES) - 1)),
            'polys': [{'shape': draw(st.sampled_from(['star', 'star', 'small', 'large', 'comb',
                                                      'rect', 'quad'])),
                       'where': draw(st.sampled_from(['in', 'in', 'in', 'rim', 'off'])),
                       'cw': draw(st.booleans())} for _ in range(
                           draw(st.integers(0, 6) if not large else st.integers(15, 60)))],
            'ids': draw(st.sampled_from(['seq', 'same', 'big', 'desc', 'rand'])),
            'idt': draw(st.sampled_from(['list', 'u8', 'i8', 'u4', 'u2'])),
            'names': draw(st.booleans()),
            'seed': draw(st.integers(0, 2 ** 31))}


def body(case, ctx):
    rng = np.random.RandomState(case['seed'])
    nx, ny = case['nx'], case['ny']
    scale, x0, y0 = SCALES[case['scale']]
    X, Y = poly.mesh_edges(rng, nx, ny, case['kind'], case['orient'], scale, x0, y0)
    polys = [make_poly(rng, s, nx, ny, False) * scale + [x0, y0] for s in case['polys']]
    n = len(polys)
    ids = {'seq': np.arange(n), 'same': np.full(n, 7), 'desc': 60000 - np.arange(n),
           'big': 2 ** 63 - 1 - np.arange(n), 'rand': rng.randint(0, 65535, n)}[case['ids']]
    if case['idt'] == 'u2' and case['ids'] == 'big':
        ids = ids % 65536
    ids = ids.astype('u8')
    if case['idt'] == 'u4':
        ids = ids % 2 ** 32
    given = [int(i) for i in ids] if case['idt'] == 'list' else ids.astype(case['idt'])
    with ctx.sut('slice'):
        mesh = QuadMeshSubset(X, Y, n_neighbors=min(12, nx * ny), regular=case['regular'])
        slicer = QuadMeshPolySlicer(mesh)
        out, areas = slicer.slice(polys, bbox=True)
    with ctx.sut('split_event_data'):
        subs, props = se.split_event_data(out, areas, slicer, given)
    rows = []
    for p, (pieces, fracs, (xi, yi)), i in zip(polys, out, ids):
        for q, f, a, b in zip(pieces, fracs, xi.tolist(), yi.tolist()):
            rows.append((np.asarray(q, 'f8'), float(f), a, b, int(i), p))
    m = len(rows)
    expect_equal(len(subs), m, 'number of pieces')
    expect_equal(len(props), m, 'number of rows')
    for k, r in enumerate(rows):
        expect_equal(np.asarray(subs[k]), r[0], 'vertices of piece %d' % k)
    far = abs(x0) + abs(y0) + (20 + nx + ny) * scale
    ctr = np.array([r[0].mean(axis=0) for r in rows]).reshape(m, 2)
    frac = np.array([r[1] for r in rows])
    mfrac = np.array([abs(poly.signed_area(r[0])) / abs(poly.signed_area(poly.cell(X, Y, *r[2:4])))
                      for r in rows])
    ia, ib = np.array([r[2] for r in rows]), np.array([r[3] for r in rows])
    pid = np.array([r[4] for r in rows], dtype='u8')
    mtol = 1e-12 + 1e-14 * far * far / scale ** 2
    for level, fn, own in (('event', se.split_event_dataset_from_props, ('ex', 'ey')),
                           ('group', se.split_group_dataset_from_props, ('gx', 'gy')),
                           ('flash', se.split_flash_dataset_from_props, ('fx', 'fy'))):
        kw = {'centroid_names': own} if case['names'] else {}
        if not case['names']:
            own = ('split_%s_lon' % level, 'split_%s_lat' % level)
        with ctx.sut('split_%s_dataset_from_props' % level):
            d = fn(props, **kw)
        v = 'split_' + level + '_'
        want = {own[0], own[1], v + 'mesh_area_fraction', v + 'area_fraction', v + 'mesh_x_idx',
                v + 'mesh_y_idx', v + 'parent_' + level + '_id'}
        expect(want <= set(d.variables), '%s table has variables %s', level, sorted(d.variables))
        dims = {d[w].dims for w in want}
        expect(len(dims) == 1 and len(list(dims)[0]) == 1, '%s table dimensions %s', level, dims)
        expect_close(d[own[0]].data, ctr[:, 0], level + ' x of the pieces', 1e-12, 1e-12 * far)
        expect_close(d[own[1]].data, ctr[:, 1], level + ' y of the pieces', 1e-12, 1e-12 * far)
        expect_equal(d[v + 'area_fraction'].data, frac, level + ' area fractions')
        expect_close(d[v + 'mesh_area_fraction'].data, mfrac,
                     level + ' fractions of cell areas', 1e-7, mtol)
        expect_equal(d[v + 'mesh_x_idx'].data, ia, level + ' first cell index')
        expect_equal(d[v + 'mesh_y_idx'].data, ib, level + ' second cell index')
        expect_equal(d[v + 'parent_' + level + '_id'].data.astype('u8'), pid, level + ' parents')
        got = d[v + 'area_fraction'].data
        for i in set(ids.tolist()):
            mine = [p for p, j in zip(polys, ids.tolist()) if j == i]
            outline = poly.Polygon(np.concatenate([
                np.stack([X[0], Y[0]], -1), np.stack([X[1:, -1], Y[1:, -1]], -1),
                np.stack([X[-1, -2::-1], Y[-1, -2::-1]], -1),
                np.stack([X[-2:0:-1, 0], Y[-2:0:-1, 0]], -1)])).buffer(0)
            share = sum(poly.Polygon(p).intersection(outline).area / poly.Polygon(p).area
                        for p in mine)
            tol = sum(4 * poly.CLIP_STEP * (poly.perimeter(p) + 40 * scale) * 10
                      / poly.Polygon(p).area for p in mine)
            expect(abs(got[pid == i].sum() - share) <= tol + 1e-8, 'fractions of parent %d '
                   'add up to %r instead of %r', i, got[pid == i].sum(), share)
    with ctx.sut('gen_split_events'):
        gen = list(se.gen_split_events(out, areas, slicer))
    expect_equal([g[-1] for g in gen],
                 [k for k, o in enumerate(out) for _ in o[0]], 'default parents')
    ctx.label('none' if m == 0 else case['kind'])
    ctx.nontrivial = m >= 3 and len(set(pid.tolist())) > 1


TESTS = [Test('tables', cases(), body, quick=1600),
         Test('large', cases(large=True), body, quick=48)]
