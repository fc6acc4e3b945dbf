"""Footprints from the corner table."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness.core import Test, expect, expect_close, expect_equal

from glmtools.io.ccd import quads_from_corner_lookup

RULE = ('Corner tables of 2-6 by 2-6 nodes on uneven or even rectilinear axes, stored in either '
        'orientation of rows and columns, with corner offsets that are constant, affine in '
        'position or arbitrary, plus an arbitrary sheared table with affine offsets; 1-10 '
        'pixels inside cells, on cell edges, on nodes and outside the table; any satellite '
        'longitude and inflation factor; extrapolation on and off; pixels as plain or labelled arrays. '
        'Also tables of up to 45 by 45 nodes with up to 600 pixels. '
        'Non-trivial: a pixel strictly inside a cell and one elsewhere, or non-zero shift. Oracle: '
        'the two ways of splitting the surrounding cell into triangles, evaluated in plain '
        'numpy (1e-9 relative to the offset size), nearest node by brute force.')


@st.composite
def cases(draw, large=False):
    nx, ny = [draw(st.integers(2, 6) if not large else st.sampled_from([7, 20, 45]))
              for _ in range(2)]
    kinds = ['in', 'in', 'in', 'node', 'edge', 'out', 'far']
    if large:
        rng = np.random.RandomState(draw(st.integers(0, 2 ** 31)))
        pix = [kinds[k] for k in rng.randint(0, len(kinds), rng.randint(50, 600))]
    else:
        pix = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=10))
    return {'nx': nx, 'ny': ny,
            'even': draw(st.booleans()),
            'order': draw(st.sampled_from(['yx', 'xy'])),
            'flip': draw(st.booleans()),
            'offs': draw(st.sampled_from(['affine', 'random', 'random', 'const'])),
            'scale': draw(st.sampled_from([1.0, 1e-2, 250.0, 1e-6])),
            'nadir': draw(st.sampled_from([0.0, 0.0, -75.0, -137.2, 140.7, 1e-3, 360.0])),
            'inflate': draw(st.sampled_from([1.0, 1.0, 1.02, 0.5, 3.0, 0.0, -1.0])),
            'extrapolate': draw(st.sampled_from([True, None, False])),
            'seed': draw(st.integers(0, 2 ** 31)),
            'labelled': draw(st.booleans()),
            'pix': pix}


def table(case):
    rng = np.random.RandomState(case['seed'])
    if case['even']:
        xs = np.arange(case['nx']) * 0.8 - 1.1
        ys = np.arange(case['ny']) * 1.3 + 0.4
    else:
        xs = np.cumsum(rng.uniform(0.3, 1.5, case['nx'])) - 2.0
        ys = np.cumsum(rng.uniform(0.3, 1.5, case['ny'])) - 1.0
    xs, ys = xs * case['scale'], ys * case['scale']
    return rng, xs, ys


def body(case, ctx):
    rng, xs, ys = table(case)
    nx, ny, s = len(xs), len(ys), case['scale']
    X, Y = np.meshgrid(xs, ys, indexing='ij')
    if case['offs'] == 'const':
        off = np.tile(rng.uniform(-0.3, 0.3, (4, 2)), (nx, ny, 1, 1)) * s
    elif case['offs'] == 'affine':
        a, b, c = rng.uniform(-0.2, 0.2, (3, 4, 2))
        off = (a * (X / s)[:, :, None, None] + b * (Y / s)[:, :, None, None] + c) * s
    else:
        off = rng.uniform(-0.5, 0.5, (nx, ny, 4, 2)) * s
    px, py, kind = [], [], []
    for k in case['pix']:
        i, j = rng.randint(0, nx - 1), rng.randint(0, ny - 1)
        u, v = rng.uniform(0.05, 0.95, 2)
        if k == 'node':
            u, v = rng.randint(0, 2, 2)
        elif k == 'edge':
            # interior edges only: the rim is decided by rounding
            if rng.rand() < 0.5 and nx > 2:
                i, u = rng.randint(1, nx - 1), 0.0
            elif ny > 2:
                j, v = rng.randint(1, ny - 1), 0.0
            else:
                k = 'in'
        if k in ('out', 'far'):
            d = (0.1 if k == 'out' else 30.0) * s
            side = rng.randint(0, 4)
            x = xs[0] + (xs[-1] - xs[0]) * rng.uniform(-0.2, 1.2)
            y = ys[0] + (ys[-1] - ys[0]) * rng.uniform(-0.2, 1.2)
            x = xs[0] - d if side == 0 else xs[-1] + d if side == 1 else x
            y = ys[0] - d if side == 2 else ys[-1] + d if side == 3 else y
        else:
            x = xs[i] if u == 0 else xs[i + 1] if u == 1 else xs[i] + u * (xs[i + 1] - xs[i])
            y = ys[j] if v == 0 else ys[j + 1] if v == 1 else ys[j] + v * (ys[j + 1] - ys[j])
        px.append(float(x))
        py.append(float(y))
        kind.append((k, i, j))
        ctx.label(k)
    # The shift is added to the table nodes; put the pixels in the same frame.
    nadir = case['nadir'] * s
    tx, ty, toff = X, Y, off
    if case['order'] == 'yx':
        tx, ty, toff = X.T, Y.T, off.transpose(1, 0, 2, 3)
    if case['flip']:
        tx, ty, toff = tx[::-1], ty[::-1], toff[::-1]
    qx = (np.array(px) + nadir)
    qy = np.array(py)
    kw = {}
    if case['extrapolate'] is not None:
        kw['extrapolate'] = case['extrapolate']
    if nadir:
        kw['nadir_lon'] = nadir
    if case['inflate'] != 1.0:
        kw['inflate'] = case['inflate']
    keep = [a.copy() for a in (tx, ty, toff, qx, qy)]
    with ctx.sut('quads_from_corner_lookup'):
        if case['labelled']:
            q = quads_from_corner_lookup(tx, ty, toff, xr.DataArray(qx, dims='p'), xr.DataArray(qy, dims='p'), **kw)
        else:
            q = quads_from_corner_lookup(tx, ty, toff, qx, qy, **kw)
    for a, b in zip(keep, (tx, ty, toff, qx, qy)):
        expect(np.array_equal(a, b), 'an input array was changed')
    q = np.asarray(q)
    expect_equal(q.shape, (len(px), 4, 2), 'shape of the footprints')
    extrap = case['extrapolate'] is not False
    size = np.abs(off).max() * max(abs(case['inflate']), 1e-3) + 1e-300
    tol = 1e-9 * size + 1e-14 * (abs(nadir) + np.abs(xs).max() + np.abs(ys).max()) * (
        1 + np.abs(off).max() / (0.3 * s) * abs(case['inflate']))
    inside_any = False
    for n, (k, i, j) in enumerate(kind):
        got = q[n] - np.array([qx[n], qy[n]])
        if k in ('out', 'far'):
            if not extrap:
                expect(np.isnan(q[n]).all(), 'pixel %d lies outside the table without '
                       'extrapolation but has corners %s', n, q[n].tolist())
                continue
            d = np.hypot(X - px[n], Y - py[n])
            near = d <= d.min() * (1 + 1e-9)
            want = off[near]
            err = min(np.abs(got - w * case['inflate']).max() for w in want)
            expect(err <= tol, 'pixel %d outside the table: offsets %s are not those of the '
                   'nearest node %s', n, got.tolist(), (want[0] * case['inflate']).tolist())
            continue
        if k == 'node' and (px[n] in (xs[0], xs[-1]) or py[n] in (ys[0], ys[-1])) and not extrap:
            # on the rim rounding of the shift decides between inside and outside
            if np.isnan(q[n]).any():
                continue
        u = (px[n] - xs[i]) / (xs[i + 1] - xs[i])
        v = (py[n] - ys[j]) / (ys[j + 1] - ys[j])
        o00, o10, o01, o11 = off[i, j], off[i + 1, j], off[i, j + 1], off[i + 1, j + 1]
        if u >= v:
            one = o00 + u * (o10 - o00) + v * (o11 - o10)
        else:
            one = o00 + v * (o01 - o00) + u * (o11 - o01)
        if u + v <= 1:
            two = o00 + u * (o10 - o00) + v * (o01 - o00)
        else:
            two = o11 + (1 - u) * (o01 - o11) + (1 - v) * (o10 - o11)
        err = np.minimum(np.abs(got - one * case['inflate']).max(),
                         np.abs(got - two * case['inflate']).max())
        expect(err <= tol, 'pixel %d at (%r, %r): offsets %s, table interpolation gives %s or %s',
               n, px[n], py[n], got.tolist(), (one * case['inflate']).tolist(),
               (two * case['inflate']).tolist())
        inside_any |= k == 'in'
    ctx.nontrivial = inside_any and (len(set(k for k, _, _ in kind)) > 1 or nadir != 0)


@st.composite
def sheared(draw):
    return {'n': draw(st.integers(3, 30)), 'seed': draw(st.integers(0, 2 ** 31)),
            'nadir': draw(st.sampled_from([0.0, -75.0, 12.5])),
            'inflate': draw(st.sampled_from([1.0, 1.02, 2.0]))}


def body_sheared(case, ctx):
    """Scattered table positions with affine offsets: any linear interpolation
    on them is exact inside the hull."""
    rng = np.random.RandomState(case['seed'])
    m = case['n']
    x = rng.uniform(-1, 1, (m, 2))
    y = rng.uniform(-1, 1, (m, 2))
    a, b, c = rng.uniform(-0.2, 0.2, (3, 4, 2))
    off = a * x[:, :, None, None] + b * y[:, :, None, None] + c
    # inside points: convex combinations of three nodes with weights above zero
    fx, fy = x.ravel(), y.ravel()
    k = np.array([rng.choice(2 * m, 5, replace=False) for _ in range(6)])
    w = rng.dirichlet(np.ones(5), 6) * 0.9 + 0.02
    qx, qy = (fx[k] * w).sum(1), (fy[k] * w).sum(1)
    with ctx.sut('quads_from_corner_lookup'):
        q = quads_from_corner_lookup(x, y, off, qx + case['nadir'], qy,
                                     nadir_lon=case['nadir'], inflate=case['inflate'])
    want = (a * qx[:, None, None] + b * qy[:, None, None] + c) * case['inflate'] + np.stack(
        [qx + case['nadir'], qy], axis=-1)[:, None, :]
    expect_close(q, want, 'footprints', rtol=0, atol=1e-7)
    ctx.nontrivial = True


TESTS = [Test('lattice', cases(), body, quick=1500),
         Test('large', cases(large=True), body, quick=48),
         Test('scattered', sheared(), body_sheared, quick=200)]
