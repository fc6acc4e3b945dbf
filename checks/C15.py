"""Polygon area, clip and union."""
import numpy as np
import shapely
from hypothesis import strategies as st

from harness import poly
from harness.core import Test, expect, expect_close, expect_equal

from glmtools.grid.clipping import (clip_polys_by_one_poly, join_polys, poly_area,
                                    vectorized_poly_area)

RULE = ('1-8 simple polygons of 3-12 vertices: stars, combs, rectangles on a lattice that share '
        'edges and corners, rings of rectangles that enclose a hole, in either winding, as '
        'lists, tuples or arrays, at unit, microradian and thousand-fold size and away from the '
        'origin; also integer coordinates passed unscaled. Also up to 60 polygons at once. '
        'Non-trivial: overlapping polygons, '
        'or a concave or clockwise one. Oracles: exact rational area for small integers, '
        'shapely for regions; tolerance 2^-29 times the perimeters (resolution of the clipping '
        'library).')

SCALES = [(1.0, 0.0, 0.0), (1e-4, -0.1, 0.08), (1.0, -80.0, 30.0), (1000.0, 5e4, -2e4)]
STEP = 4 * poly.CLIP_STEP


def one(rng, kind):
    cx, cy = rng.uniform(-3, 3, 2)
    if kind == 'star':
        p = poly.star(rng, rng.randint(3, 13), cx, cy, 0.5, 2.5)
    elif kind == 'thin':
        p = poly.star(rng, rng.randint(3, 8), cx, cy, 0.5, 2.5, squash=0.02)
    elif kind == 'comb':
        p = poly.comb(rng, rng.randint(2, 5), cx - 1, cy - 1, rng.uniform(1, 4), 2.0)
    else:
        x, y = rng.randint(-4, 4, 2)
        w, h = rng.randint(1, 4, 2)
        p = np.array([[x, y], [x + w, y], [x + w, y + h], [x, y + h]], dtype='f8')
        p = np.roll(p, rng.randint(4), axis=0)
    return p


def ring(rng):
    """Rectangles around an open middle."""
    x, y = rng.randint(-3, 3, 2)
    n, m = rng.randint(3, 6, 2)
    out = []
    for (a, b, c, d) in ((0, 0, n, 1), (n - 1, 0, n, m), (0, m - 1, n, m), (0, 0, 1, m)):
        out.append(np.array([[x + a, y + b], [x + c, y + b], [x + c, y + d], [x + a, y + d]],
                            dtype='f8'))
    return out


@st.composite
def cases(draw, large=False):
    size = dict(min_size=1, max_size=8) if not large else dict(min_size=15, max_size=50)
    return {'kinds': draw(st.lists(st.sampled_from(['star', 'star', 'rect', 'rect', 'thin',
                                                    'comb', 'ring']), **size)),
            'wind': draw(st.sampled_from(['ccw', 'ccw', 'cw', 'mixed'])),
            'scale': draw(st.integers(0, len(SCALES) - 1)),
            'form': draw(st.sampled_from(['array', 'list', 'tuple'])),
            'clip': draw(st.sampled_from(['star', 'rect', 'comb', 'thin'])),
            'ints': draw(st.booleans()),
            'seed': draw(st.integers(0, 2 ** 31))}


def make(case, rng):
    out = []
    for k in case['kinds']:
        out += ring(rng) if k == 'ring' else [one(rng, k)]
    res = []
    for p in out[:60]:
        cw = case['wind'] == 'cw' or (case['wind'] == 'mixed' and rng.rand() < 0.5)
        if (poly.signed_area(p) < 0) != cw:
            p = p[::-1]
        res.append(p)
    return res


def form(ps, how):
    if how == 'array':
        return [np.array(p) for p in ps]
    if how == 'tuple':
        return [tuple(tuple(v) for v in p.tolist()) for p in ps]
    return [[list(v) for v in p.tolist()] for p in ps]


def body(case, ctx):
    rng = np.random.RandomState(case['seed'])
    unit = make(case, rng)
    scale, x0, y0 = SCALES[case['scale']]
    cut = one(rng, case['clip'])
    if case['ints']:
        unit = [np.round(p * 64) for p in unit]
        unit = [p for p in unit if abs(poly.signed_area(p)) > 100 and poly.Polygon(p).is_valid]
        cut = np.round(cut * 64)
        scale, x0, y0, step = 1.0, 0.0, 0.0, 1.0
        if not unit or not poly.Polygon(cut).is_valid or abs(poly.signed_area(cut)) < 100:
            return
    else:
        step = STEP
    polys = [p * scale + [x0, y0] for p in unit]
    cut = cut * scale + [x0, y0]
    far = (abs(x0) + abs(y0) + 10 * scale) ** 2
    # areas
    for p in polys:
        want = poly.signed_area(p)
        r = rng.randint(len(p))
        q = np.roll(p, r, axis=0)
        with ctx.sut('poly_area'):
            a, b = poly_area(p[:, 0], p[:, 1]), poly_area(q[:, 0], q[:, 1])
            c = poly_area(p[::-1, 0], p[::-1, 1])
            v = vectorized_poly_area(np.stack([p[:, 0], q[:, 0], p[::-1, 0]]),
                                     np.stack([p[:, 1], q[:, 1], p[::-1, 1]]))
        expect_close([a, b, -c], [want] * 3, 'area of %s' % p.tolist(), rtol=1e-9,
                     atol=1e-15 * far * len(p))
        expect_close(v, [want, want, -want], 'areas of stacked polygons', rtol=1e-9,
                     atol=1e-15 * far * len(p))
    shapes = [poly.Polygon(p) for p in polys]
    pers = [poly.perimeter(p) for p in polys]
    keep = [p.copy() for p in polys]
    args = form(polys, case['form'])
    kw = {}
    if case['ints']:
        args = [[[int(a), int(b)] for a, b in p] for p in polys]
        kw = {'scale': False}
    # clip
    cutarg = [[int(a), int(b)] for a, b in cut] if case['ints'] else form([cut], case['form'])[0]
    with ctx.sut('clip_polys_by_one_poly'):
        res, counts = clip_polys_by_one_poly(args, cutarg, **kw)
    expect_equal(len(counts), len(polys), 'number of piece counts')
    expect_equal(sum(counts), len(res), 'sum of the piece counts')
    g, k, overlap = poly.Polygon(cut), 0, False
    for n, c in enumerate(counts):
        pieces = [np.asarray(r, dtype='f8') for r in res[k:k + c]]
        k += c
        want = shapes[n].intersection(g)
        got = poly.rings_to_shape([p if poly.signed_area(p) > 0 else p[::-1] for p in pieces])
        tol = step * (pers[n] + poly.perimeter(cut)) * (1 if not case['ints'] else 0.75)
        expect(abs(sum(abs(poly.signed_area(p)) for p in pieces) - want.area) <= tol,
               'clip of polygon %d: pieces of total area %r instead of %r', n,
               sum(abs(poly.signed_area(p)) for p in pieces), want.area)
        expect(got.symmetric_difference(want).area <= tol, 'clip of polygon %d covers a '
               'different region (difference %r)', n, got.symmetric_difference(want).area)
        overlap |= want.area > 0
    # union; opposite winding marks holes, so polygons to join are wound the same way
    if case['wind'] == 'mixed':
        args = [a if poly.signed_area(p) > 0 else a[::-1] for a, p in zip(args, polys)]
    with ctx.sut('join_polys'):
        res = join_polys(args, **kw)
        again = join_polys(res, **kw)
    want = shapely.unary_union(shapes)
    tol = step * sum(pers)
    for rings, what in ((res, 'union'), (again, 'union of the outlines of the union')):
        rings = [np.asarray(r, dtype='f8') for r in rings]
        total = sum(poly.signed_area(r) for r in rings)
        expect(abs(total - want.area) <= tol, '%s of %d polygons has area %r instead of %r',
               what, len(polys), total, want.area)
        diff = poly.rings_to_shape(rings).symmetric_difference(want).area
        expect(diff <= tol, 'the %s covers a different region (difference %r of %r)', what, diff,
               want.area)
    for a, b in zip(keep, polys):
        expect_equal(a, b, 'an input polygon')
    if any(poly.signed_area(r) < 0 for r in rings):
        ctx.label('hole')
    ctx.label(case['wind'])
    inter = want.area < sum(s.area for s in shapes) * (1 - 1e-9)
    ctx.nontrivial = bool(inter or overlap)


TESTS = [Test('geometry', cases(), body, quick=3000),
         Test('large', cases(large=True), body, quick=48)]
