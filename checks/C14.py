"""Slicing polygons by a mesh."""
import numpy as np
from hypothesis import strategies as st

from harness import poly, layout
from harness.core import Test, expect, expect_close, expect_equal

from glmtools.grid.clipping import QuadMeshPolySlicer, QuadMeshSubset, make_sub_polys, run_pool_map

RULE = ('1-5 polygons (convex, concave, comb-shaped, aligned with cell edges, much smaller or '
        'larger than a cell, in either winding, inside, straddling or missing the mesh) sliced '
        'by even, uneven, sheared, rotated and jittered meshes with either lookup method, '
        'searching near the centre, in the polygon\'s own box or in a given box; cells of 56 '
        'microradians to 1000 units; edges stored by rows, by columns, strided or read-only. Also 12-40 polygons on meshes of up to 30 by 30 cells. '
        'Also 1-40 polygons spread over 1-4 processes in portions of 1-100. '
        'Non-trivial: a polygon is divided among two or more cells. '
        'Oracle: shapely intersections with every cell; tolerance 2^-29 times the perimeters '
        '(resolution of the clipping library). Processes: the same polygons one after the other.')

SCALES = [(1.0, 0.0, 0.0), (56e-6, -0.1, 0.08), (224e-6, 0.02, -0.03), (1.0, -7.0, 30.0),
          (1000.0, 5e4, -2e4), (0.02, -100.0, 30.0)]


@st.composite
def cases(draw, large=False):
    kind = draw(st.sampled_from(['even', 'even', 'uneven', 'sheared', 'rotated', 'jittered']))
    n = draw(st.integers(1, 5) if not large else st.integers(12, 40))
    side = st.integers(1, 9) if not large else st.integers(10, 30)
    return {'kind': kind, 'nx': draw(side), 'ny': draw(side),
            'memory': draw(layout.layouts),
            'orient': draw(st.sampled_from(['xy', 'xy', 'ij'])),
            'regular': kind in ('even', 'uneven') and draw(st.sampled_from([True, True, False])),
            'scale': draw(st.integers(0, len(SCALES) - 1)),
            'k': draw(st.integers(1, 24)),
            'mode': draw(st.sampled_from(['near', 'near', 'own', 'own', 'box'])),
            'polys': [{'shape': draw(st.sampled_from(['star', 'star', 'small', 'large', 'comb',
                                                      'rect', 'quad'])),
                       'where': draw(st.sampled_from(['in', 'in', 'in', 'rim', 'off'])),
                       'cw': draw(st.booleans())} for _ in range(n)],
            'box': [draw(st.integers(-1, 8)), draw(st.integers(1, 6)),
                    draw(st.integers(-1, 8)), draw(st.integers(1, 6))],
            'same': draw(st.booleans()),
            'seed': draw(st.integers(0, 2 ** 31))}


def make_poly(rng, spec, nx, ny, same):
    s = spec['shape']
    if same and s in ('comb',):
        s = 'star'
    m = 4 if same or s in ('quad', 'rect') else rng.randint(3, 10)
    if spec['where'] == 'in':
        cx, cy = rng.uniform(0.3, nx - 0.3), rng.uniform(0.3, ny - 0.3)
    elif spec['where'] == 'rim':
        cx, cy = rng.uniform(-0.5, nx + 0.5), rng.choice([0.0, float(ny)]) + rng.uniform(-.6, .6)
    else:
        cx, cy = nx + rng.uniform(5, 9), rng.uniform(0, ny)
    if s == 'star':
        p = poly.star(rng, m, cx, cy, 0.4, 1.6)
    elif s == 'small':
        p = poly.star(rng, m, cx, cy, 0.03, 0.1)
    elif s == 'large':
        p = poly.star(rng, m, cx, cy, 1.5, 4.0)
    elif s == 'comb':
        p = poly.comb(rng, rng.randint(2, 4), cx - 1, cy - 0.6, rng.uniform(1, 2.5), 1.3)
    elif s == 'rect':
        x0, y0 = np.floor(cx), np.floor(cy)
        w, h = rng.randint(1, 3), rng.randint(1, 3)
        p = np.array([[x0, y0], [x0 + w, y0], [x0 + w, y0 + h], [x0, y0 + h]], dtype='f8')
    else:
        p = poly.star(rng, 4, cx, cy, 0.6, 0.8)
    return p[::-1].copy() if spec['cw'] else p


def body(case, ctx):
    rng = np.random.RandomState(case['seed'])
    nx, ny = case['nx'], case['ny']
    scale, x0, y0 = SCALES[case['scale']]
    X, Y = poly.mesh_edges(rng, nx, ny, case['kind'], case['orient'], scale, x0, y0)
    n0, n1 = X.shape[0] - 1, X.shape[1] - 1
    k = min(case['k'], n0 * n1)
    polys = [make_poly(rng, s, nx, ny, case['same']) * scale + [x0, y0] for s in case['polys']]
    given = np.array(polys) if case['same'] and len({len(p) for p in polys}) == 1 else polys
    bbox = None
    if case['mode'] == 'own':
        bbox = True
    elif case['mode'] == 'box':
        b = case['box']
        bbox = (b[0] * scale + x0, (b[0] + b[1]) * scale + x0,
                b[2] * scale + y0, (b[2] + b[3]) * scale + y0)
    ctx.label(case['mode'] + ('/regular' if case['regular'] else ''))
    with ctx.sut('slice'):
        mesh = QuadMeshSubset(layout.arrange(X, case['memory']), layout.arrange(Y, case['memory']),
                              n_neighbors=k, regular=case['regular'])
        slicer = QuadMeshPolySlicer(mesh)
        out, areas = slicer.slice(given, bbox=bbox) if bbox is not None else slicer.slice(given)
    expect_equal(len(out), len(polys), 'number of results')
    expect_equal(len(areas), len(polys), 'number of areas')
    cells = {(i, j): poly.cell(X, Y, i, j) for i in range(n0) for j in range(n1)}
    shapes = {c: poly.Polygon(q) for c, q in cells.items()}
    XC = (X[:-1, :-1] + X[1:, :-1] + X[:-1, 1:] + X[1:, 1:]) / 4
    YC = (Y[:-1, :-1] + Y[1:, :-1] + Y[:-1, 1:] + Y[1:, 1:]) / 4
    step = 4 * poly.CLIP_STEP
    far = abs(x0) + abs(y0) + (20 + nx + ny) * scale
    several = False
    for n, (p, (pieces, fracs, idx), area) in enumerate(zip(polys, out, areas)):
        true = abs(poly.signed_area(p))
        expect_close(area, true, 'area of polygon %d' % n, rtol=1e-9, atol=1e-15 * far * far)
        xi, yi = np.asarray(idx[0]), np.asarray(idx[1])
        fracs = np.asarray(fracs, dtype='f8')
        expect(len(pieces) == len(fracs) == len(xi) == len(yi), 'polygon %d: %d pieces, %d '
               'fractions, %d and %d indices', n, len(pieces), len(fracs), len(xi), len(yi))
        shape = poly.Polygon(p)
        per = poly.perimeter(p)
        sums, seen = {}, {}
        for q, f, i, j in zip(pieces, fracs, xi.tolist(), yi.tolist()):
            expect((i, j) in cells, 'polygon %d: a piece names cell (%d, %d), not in the mesh',
                   n, i, j)
            q = np.asarray(q, dtype='f8')
            expect(q.ndim == 2 and q.shape[1] == 2 and len(q) >= 3, 'polygon %d: piece of '
                   'shape %s', n, q.shape)
            tol = step * (per + poly.perimeter(cells[i, j]))
            expect(abs(abs(poly.signed_area(q)) - f * true) <= tol + 1e-9 * true, 'polygon %d: '
                   'piece in cell (%d, %d) has area %r but fraction %r of %r', n, i, j,
                   abs(poly.signed_area(q)), f, true)
            g = poly.Polygon(q).buffer(0)
            expect(g.difference(shapes[i, j].buffer(step)).area <= tol
                   and g.difference(shape.buffer(step)).area <= tol,
                   'polygon %d: a piece named for cell (%d, %d) leaves the cell or the '
                   'polygon: %s', n, i, j, q.tolist())
            if (i, j) in seen:
                expect(seen[i, j].intersection(g).area <= tol, 'polygon %d: pieces in cell '
                       '(%d, %d) overlap', n, i, j)
                seen[i, j] = seen[i, j].union(g)
            else:
                seen[i, j] = g
            sums[i, j] = sums.get((i, j), 0.0) + f
        # the part of the mesh that was to be searched
        if bbox is True:
            b = (p[:, 0].min(), p[:, 0].max(), p[:, 1].min(), p[:, 1].max())
        elif bbox is not None:
            b = bbox
        if bbox is None:
            c = p.mean(axis=0)
            if case['regular']:
                ex, ey = (X[0], Y[:, 0]) if case['orient'] == 'xy' else (X[:, 0], Y[0])
                a, d = np.searchsorted(ex, c[0]) - 1, np.searchsorted(ey, c[1]) - 1
                on = (np.abs(ex - c[0]).min() < 1e-9 * scale or np.abs(ey - c[1]).min()
                      < 1e-9 * scale)
                w = 1 if on else 2
                inside = 0 <= a < nx and 0 <= d < ny and not on
                if case['orient'] == 'xy':
                    a, d = d, a
                searched = {(i, j) for i, j in cells if abs(i - a) <= w and abs(j - d) <= w
                            } if inside else set()
            else:
                dist = np.hypot(XC - c[0], YC - c[1])
                kth = np.sort(dist.ravel())[k - 1]
                # a tie at the last place is decided by rounding
                searched = {cc for cc in cells if dist[cc] < kth - 1e-9 * scale}
                if k == n0 * n1:
                    searched = set(cells)
        else:
            bs = poly.box(b[0], b[2], b[1], b[3])
            searched = {cc for cc, g in shapes.items() if g.intersection(bs).area
                        > 1e-7 * abs(poly.signed_area(cells[cc]))}
        covered = 0.0
        for cc, g in shapes.items():
            want = g.intersection(shape).area
            tol = step * (per + poly.perimeter(cells[cc])) + 1e-9 * true
            if cc in sums:
                expect(abs(sums[cc] * true - want) <= tol, 'polygon %d: cell %s gets area %r '
                       'of %r instead of %r', n, cc, sums[cc] * true, true, want)
            elif cc in searched:
                expect(want <= tol, 'polygon %d overlaps cell %s by %r of %r but no piece was '
                       'returned', n, cc, want, true)
            covered += want if cc in searched else 0.0
        if abs(covered - true) <= 1e-9 * true:
            ctx.label('contained')
            expect(abs(fracs.sum() - 1) <= step * (per + 40 * scale) * 9 / true + 1e-8,
                   'polygon %d lies in the mesh but its fractions add up to %r', n, fracs.sum())
        with ctx.sut('quad_frac_from_poly_frac_area'):
            qf = slicer.quad_frac_from_poly_frac_area(fracs, area, xi, yi)
        want = [f * true / abs(poly.signed_area(cells[c])) for f, c in
                zip(fracs, zip(xi.tolist(), yi.tolist()))]
        # the sign follows the winding of the mesh cells
        expect_close(qf, want, 'cell fractions of polygon %d' % n, rtol=1e-7,
                     atol=1e-13 + 1e-15 * far * far / scale ** 2)
        several |= len(sums) > 1
    ctx.nontrivial = several


@st.composite
def spread(draw):
    c = draw(cases(large=draw(st.booleans())))
    return dict(c, workers=draw(st.integers(1, 4)), portion=draw(st.sampled_from([1, 2, 3, 7, 100])))


def spread_body(case, ctx):
    rng = np.random.RandomState(case['seed'])
    nx, ny = case['nx'], case['ny']
    scale, x0, y0 = SCALES[case['scale']]
    X, Y = poly.mesh_edges(rng, nx, ny, case['kind'], case['orient'], scale, x0, y0)
    quads = np.array([poly.cell(X, Y, i, j) for i in range(X.shape[0] - 1)
                      for j in range(X.shape[1] - 1)])
    xi, yi = [a.ravel() for a in np.indices((X.shape[0] - 1, X.shape[1] - 1))]
    args = []
    for s in case['polys']:
        p = make_poly(rng, s, nx, ny, case['same']) * scale + [x0, y0]
        args.append((p, abs(poly.signed_area(p)), (quads, xi, yi)))
    with ctx.sut('make_sub_polys'):
        one = [make_sub_polys(a) for a in args]
    with ctx.sut('run_pool_map'):
        many = list(run_pool_map(make_sub_polys, args, max_workers=case['workers'],
                                 chunksize=case['portion']))
    expect_equal(len(many), len(one), 'number of results')
    for n, ((pa, fa, ia), (pb, fb, ib)) in enumerate(zip(one, many)):
        what = 'polygon %d in another process: ' % n
        expect_equal(np.array(fb), np.array(fa), what + 'fractions')
        expect_equal(np.array(ib), np.array(ia), what + 'cells')
        expect_equal(len(pb), len(pa), what + 'number of pieces')
        for a, b in zip(pa, pb):
            expect_equal(b, a, what + 'a piece')
    ctx.nontrivial = len(args) > case['portion'] and any(len(o[0]) > 1 for o in one)
    ctx.label('%d processes' % case['workers'])


TESTS = [Test('slice', cases(), body, quick=1400),
         Test('large', cases(large=True), body, quick=48),
         Test('processes', spread(), spread_body, quick=32)]
