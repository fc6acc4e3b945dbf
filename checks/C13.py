"""Mesh lookups."""
import numpy as np
from hypothesis import strategies as st

from harness import poly, layout
from harness.core import Test, expect, expect_close, expect_equal

from glmtools.grid.clipping import QuadMeshSubset, lines_from_quadmesh, polys_from_quadmesh

RULE = ('Meshes of 1-12 by 1-12 cells, evenly or unevenly spaced rectilinear ones with either '
        'lookup method, sheared, rotated and jittered ones, either order of dimensions, cells '
        'of 56 microradians to 1000 units; bounding boxes inside one cell, across cells, with '
        'limits on edges, straddling each side, covering or missing the mesh; points inside '
        'cells; edges stored by rows, by columns, strided or read-only. Also meshes of up to 45 by 45 cells. '
        'Non-trivial: the box overlaps some cells but not all. Oracle: shapely overlap '
        'of each cell with the box, containment of the point, brute force distances.')

SCALES = [(1.0, 0.0, 0.0), (56e-6, -0.1, 0.08), (1.0, -7.0, 30.0), (1000.0, 5e5, -2e5),
          (0.02, -100.0, 30.0)]


@st.composite
def cases(draw, large=False):
    kind = draw(st.sampled_from(['even', 'even', 'uneven', 'sheared', 'rotated', 'jittered']))
    nx, ny = [draw(st.integers(1, 12) if not large else st.sampled_from([5, 20, 45]))
              for _ in range(2)]
    boxes = []
    for _ in range(draw(st.integers(1, 4))):
        b = []
        for n in (nx, ny):
            mode = draw(st.sampled_from(['cell', 'across', 'lo', 'hi', 'cover', 'edge', 'off']))
            q = [draw(st.integers(1, 15)) / 16.0, draw(st.integers(1, 15)) / 16.0]
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if mode == 'cell':
                v = sorted([i + q[0], i + q[1]])
            elif mode == 'across':
                v = sorted([i + q[0], j + q[1]])
            elif mode == 'lo':
                v = [-q[0] * 5, i + q[1]]
            elif mode == 'hi':
                v = [i + q[0], n + q[1] * 5]
            elif mode == 'cover':
                v = [-q[0], n + q[1]]
            elif mode == 'edge':
                v = [min(i, j), max(i, j) + 1]
            else:
                v = [n + q[0], n + q[0] + 3] if q[1] > .5 else [-3 - q[0], -q[0]]
            b += [float(a) for a in v]
        boxes.append(b)
    pts = [[draw(st.integers(0, nx - 1)) + draw(st.integers(1, 15)) / 16.0,
            draw(st.integers(0, ny - 1)) + draw(st.integers(1, 15)) / 16.0]
           for _ in range(draw(st.integers(1, 4)))]
    return {'kind': kind, 'nx': nx, 'ny': ny, 'boxes': boxes, 'pts': pts,
            'memory': draw(layout.layouts),
            'orient': draw(st.sampled_from(['xy', 'xy', 'ij'])),
            'regular': kind in ('even', 'uneven') and draw(st.sampled_from([True, True, False])),
            'scale': draw(st.integers(0, len(SCALES) - 1)),
            'ctr': draw(st.booleans()),
            'k': draw(st.integers(1, 20)),
            'seed': draw(st.integers(0, 2 ** 31))}


def body(case, ctx):
    rng = np.random.RandomState(case['seed'])
    nx, ny = case['nx'], case['ny']
    scale, x0, y0 = SCALES[case['scale']]
    X, Y = poly.mesh_edges(rng, nx, ny, case['kind'], case['orient'], scale, x0, y0)
    n0, n1 = X.shape[0] - 1, X.shape[1] - 1
    XC = (X[:-1, :-1] + X[1:, :-1] + X[:-1, 1:] + X[1:, 1:]) / 4
    YC = (Y[:-1, :-1] + Y[1:, :-1] + Y[:-1, 1:] + Y[1:, 1:]) / 4
    k = min(case['k'], n0 * n1)
    kw = dict(n_neighbors=k, regular=case['regular'])
    if case['ctr']:
        kw.update(X_ctr=XC.copy(), Y_ctr=YC.copy())
    ctx.label(case['kind'] + ('/regular' if case['regular'] else ''))
    with ctx.sut('QuadMeshSubset'):
        mesh = QuadMeshSubset(layout.arrange(X, case['memory']), layout.arrange(Y, case['memory']),
                              **kw)
    cells = {}
    for i in range(n0):
        for j in range(n1):
            cells[i, j] = poly.cell(X, Y, i, j)
    flat = np.array([cells[c] for c in sorted(cells)]).reshape(n0, n1, 4, 2)
    eps = 1e-12 * (abs(x0) + abs(y0) + scale * (20 + nx + ny))
    with ctx.sut('polys_from_quadmesh'):
        pq = polys_from_quadmesh(X, Y)
        h, v = lines_from_quadmesh(X, Y, scale=False)
        hs, vs = lines_from_quadmesh(X, Y)
    expect_equal(pq, flat, 'corners of the mesh cells')
    expect_equal(np.asarray(mesh.quads).reshape(n0, n1, 4, 2), flat, 'corners of the mesh cells')
    expect_equal(np.array(h), np.stack([X, Y], -1), 'lines along the first dimension')
    expect_equal(np.array(v), np.stack([X, Y], -1).transpose(1, 0, 2),
                 'lines along the second dimension')
    # integer coordinates in steps of 2^-31
    for a, b, dim in ((hs, h, 'first'), (vs, v, 'second')):
        expect_close(np.array(a, 'f8') / 2 ** 31, np.array(b), 'scaled lines along the %s '
                     'dimension' % dim, 1e-12, 2.0 ** -30)
    want_a = np.array([[poly.signed_area(flat[i, j]) for j in range(n1)] for i in range(n0)])
    # cancellation for cells far from the origin
    expect_close(np.abs(mesh.quad_areas), np.abs(want_a), 'cell areas', rtol=1e-9,
                 atol=1e-15 * (abs(x0) + scale * (20 + nx + ny)) * (abs(y0) + scale * (20 + nx + ny)))
    expect_close(mesh.X_ctr, XC, 'x of cell centres', rtol=0, atol=eps)
    expect_close(mesh.Y_ctr, YC, 'y of cell centres', rtol=0, atol=eps)

    def where(u, v):
        """Coordinates of cell-unit position (u, v), x along u."""
        i, j = int(np.clip(np.floor(u), 0, nx - 1)), int(np.clip(np.floor(v), 0, ny - 1))
        fu, fv = u - i, v - j
        P = np.stack([X, Y], -1)
        if case['orient'] == 'xy':
            P = P.transpose(1, 0, 2)
        if fu in (0.0, 1.0) and fv in (0.0, 1.0):
            return P[i + int(fu), j + int(fv)]
        return ((P[i, j] * (1 - fu) + P[i + 1, j] * fu) * (1 - fv)
                + (P[i, j + 1] * (1 - fu) + P[i + 1, j + 1] * fu) * fv)

    def check_result(quads, a, b, what, unique=True):
        quads, a, b = np.asarray(quads), np.asarray(a), np.asarray(b)
        expect(a.ndim == 1 and a.shape == b.shape, '%s: index shapes %s and %s', what,
               a.shape, b.shape)
        expect_equal(quads.shape, (len(a), 4, 2), what + ': shape of the cells')
        got = list(zip(a.tolist(), b.tolist()))
        expect(len(set(got)) == len(got), '%s: a cell is listed twice in %s', what, got)
        expect(all(g in cells for g in got), '%s: indices outside the mesh %s', what, got)
        expect_equal(quads, np.array([cells[g] for g in got]).reshape(len(got), 4, 2),
                     what + ': corners at the indices')
        return set(got)

    some = False
    for u0, u1, v0, v1 in case['boxes']:
        a, b = where(u0, v0), where(u1, v1)
        bb = (min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]), max(a[1], b[1]))
        bb = tuple(float(z) for z in bb)
        with ctx.sut('quads_in_bbox'):
            r = mesh.quads_in_bbox(bb)
        got = check_result(*r, 'cells in box %s' % (bb,))
        shape = poly.box(bb[0], bb[2], bb[1], bb[3])
        need = {c for c, q in cells.items()
                if poly.Polygon(q).intersection(shape).area > 1e-7 * abs(poly.signed_area(q))}
        expect(need <= got, 'box %s: cells %s overlap it but are not returned', bb,
               sorted(need - got)[:10])
        some |= 0 < len(need) < len(cells)
    for u, v in case['pts']:
        p = where(u, v)
        with ctx.sut('quads_nearest'):
            r = mesh.quads_nearest(p)
        got = check_result(*r, 'cells near %s' % (p.tolist(),))
        mine = (int(v), int(u)) if case['orient'] == 'xy' else (int(u), int(v))
        if case['regular']:
            expect(mine in got, 'cell %s containing the point %s is not among %s', mine,
                   p.tolist(), sorted(got))
        else:
            d = np.hypot(XC - p[0], YC - p[1])
            kth = np.sort(d.ravel())[k - 1]
            tol = 1e-9 * scale + eps
            expect(len(got) == k, '%d cells returned instead of %d', len(got), k)
            expect(all(d[g] <= kth + tol for g in got), 'cells %s are not the %d nearest to %s',
                   sorted(got), k, p.tolist())
            if k >= 9 and case['kind'] != 'uneven':
                expect(mine in got, 'cell %s containing the point %s is not among %s', mine,
                       p.tolist(), sorted(got))
    ctx.nontrivial = some


TESTS = [Test('lookups', cases(), body, quick=1600),
         Test('large', cases(large=True), body, quick=48)]
