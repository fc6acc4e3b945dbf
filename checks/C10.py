"""Location ids."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from harness import layout
from harness.core import Test, expect

from glmtools.io.glm import discretize_2d_location

RULE = ('2-14 points in a coordinate range, placed by cell number and fraction within the cell, '
        'ranges square or not, whole or partial number of cells, square offsets of any sign; on '
        'exactly representable lattices the points may lie on cell edges and on the range '
        'limits. Up to 2**20 cells per side, points as close as 2**-16 of a cell to its edge, '
        'points a power of two of cells apart. '
        'Half of the points are placed near the range limits and in neighbouring rows. '
        'Arrays by rows, by columns, strided or read-only. Also 300 to 4000 points in one call. '
        'Non-trivial: two points in one cell and two in different cells. Oracle: exact '
        'rational floor division.')

U = 2 ** 16   # points are placed in this fraction of a cell
POWERS = [2 ** k + d for k in (13, 15, 16, 17, 20) for d in (-1, 0, 1)]


@st.composite
def cases(draw):
    exact = draw(st.booleans())
    if exact:
        scale = 2.0 ** -draw(st.integers(0, 12))
        x0 = scale * draw(st.integers(-300, 300))
        y0 = scale * draw(st.integers(-300, 300))
    else:
        scale = draw(st.sampled_from([28e-6, 1e-3, 0.1, 3.7e-4, 1.0, 56e-6]))
        x0 = draw(st.sampled_from([-0.31, -0.2, 0.0, -1.5, 0.4]))
        y0 = draw(st.sampled_from([-0.31, -0.2, 0.0, -1.5, 0.4]))
    nx, ny = [draw(st.one_of(st.integers(1, 12), st.integers(1, 2000), st.just(22142),
                             st.sampled_from(POWERS))) for _ in range(2)]
    # beyond the whole cells, in quarters of a cell
    px = draw(st.sampled_from([0, 0, 1, 2, 3]))
    py = draw(st.sampled_from([0, 0, 1, 2, 3]))
    pts = []

    def coord(n, part):
        top = n - 1 if part == 0 else n
        i = draw(st.one_of(st.integers(0, top), st.integers(0, min(2, top)),
                           st.integers(max(0, top - 2), top)))
        top = part * U // 4 if i == n else U
        fr = draw(st.sampled_from([U // 4, U // 2, 3 * U // 4, 1, U - 1])) * top // U
        fr = max(fr, 1)
        if exact:
            fr = draw(st.sampled_from([0, fr]))
            if part == 0 and draw(st.integers(0, 6)) == 0:
                return n * U  # on the upper limit
        return i * U + fr

    for _ in range(draw(st.integers(1, 7))):
        p = [coord(nx, px), coord(ny, py)]
        pts.append(p)
        q = list(p)
        k = draw(st.sampled_from(['same', 'x', 'y', 'wrap', 'far']))
        if k == 'x':
            q[0] = coord(nx, px)
        elif k == 'y':
            q[1] = coord(ny, py)
        elif k == 'wrap':  # end of one row, start of the next
            q = [0 if exact else 1, min(p[1] + U, ny * U + U // 4 * py - (0 if exact else 1))]
        elif k == 'far':  # a power of two away, where narrow integers would wrap around
            a = draw(st.integers(0, 1))
            room = (nx, ny)[a] - 1 - p[a] // U
            j = [2 ** j for j in range(20, 6, -1) if 2 ** j <= room]
            q[a] += U * draw(st.sampled_from(j)) if j else 0
        else:
            q = [p[k] // U * U + draw(st.integers(1, U - 1)) if p[k] // U < n else p[k]
                 for k, n in enumerate((nx, ny))]
        pts.append(q)
    return {'scale': scale, 'x0': x0, 'y0': y0, 'exact': exact,
            'x1': x0 + scale * (nx + px / 4), 'y1': y0 + scale * (ny + py / 4),
            'pts': [[x0 + scale * a / U, y0 + scale * b / U] for a, b in pts],
            'cells': [[a // U, b // U] for a, b in pts],
            'int_type': draw(st.sampled_from([None, 'int64', 'uint64'])),
            'memory': draw(layout.layouts)}


@st.composite
def many(draw):
    c = draw(cases())
    nx, ny = [draw(st.sampled_from([3, 40, 300, 2 ** 16 + 1])) for _ in range(2)]
    return dict(c, n=draw(st.sampled_from([300, 1000, 4000])), nx=nx, ny=ny, pts=[], cells=[],
                x1=c['x0'] + c['scale'] * nx, y1=c['y0'] + c['scale'] * ny,
                seed=draw(st.integers(0, 2 ** 31)))


def body_many(case, ctx):
    rng = np.random.default_rng(case['seed'])
    cells = rng.integers(0, [case['nx'], case['ny']], (case['n'], 2))
    k = rng.random(case['n']) < 0.3
    cells[k] = cells[rng.integers(0, case['n'], k.sum())]
    frac = rng.integers(0 if case['exact'] else 1, U, (case['n'], 2))
    a = np.array([case['x0'], case['y0']]) + case['scale'] * ((cells * U + frac) / U)
    body(dict(case, pts=a.tolist(), cells=cells.tolist()), ctx)


def body(case, ctx):
    p = layout.arrange(np.asarray(case['pts'], 'f8'), case['memory'])
    kw = {'int_type': case['int_type']} if case['int_type'] else {}
    keep = p.copy()
    with ctx.sut('discretize_2d_location'):
        ids = discretize_2d_location(p[:, 0], p[:, 1], case['scale'],
                                     (case['x0'], case['x1']), (case['y0'], case['y1']), **kw)
    expect(bool((p == keep).all()), 'the coordinates were modified')
    ids = np.asarray(ids)
    expect(ids.dtype.kind in 'iu', 'ids have type {}', ids.dtype)
    expect(ids.shape == (len(p),), 'shape {}', ids.shape)
    cells = [tuple(c) for c in case['cells']]
    if case['exact']:
        s = Fraction(case['scale'])
        ref = [(math.floor((Fraction(x) - Fraction(case['x0'])) / s),
                math.floor((Fraction(y) - Fraction(case['y0'])) / s)) for x, y in case['pts']]
        assert ref == cells, (ref, cells)
    by = {}
    for c, i, q in zip(cells, ids.tolist(), case['pts']):
        if c in by:
            expect(by[c] == i, 'cell {} has ids {} and {}', c, by[c], i)
        by[c] = i
    inv = {}
    for c, i in by.items():
        expect(i not in inv, 'cells {} and {} share id {} (x range {}..{}, scale {})',
               c, inv.get(i), i, case['x0'], case['x1'], case['scale'])
        inv[i] = c
    expect(min(ids.tolist()) >= 0, 'negative id')
    if 1 < len(by) < len(cells):
        ctx.nontrivial = True
    ctx.label('exact lattice' if case['exact'] else 'inexact lattice')


TESTS = [Test('ids', cases(), body, quick=4000),
         Test('many', many(), body_many, quick=64)]
