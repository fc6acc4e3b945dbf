"""Scaled integer storage of image variables."""
import os

import netCDF4
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness import gridrun as gr, glmgen as gg, imgmake as im
from harness.core import Test, expect, expect_close, expect_equal

RULE = ('Fields of single-precision values made from a storage code 0-65535 (all ranges, with '
        'both ends and the signed limit over-represented) plus a fraction of a step (exact halves included), values below '
        'one step down to 1e-30, a few beyond the last code, and zeros; every field, scaled and unscaled, one to three frames, written once or twice; also single '
        'variables with other scales, types, offsets and codes for missing values. Non-trivial: codes below and above 32767 and a '
        'value under one step are present. Oracle: decimal rounding of the value over the step.')

CODES = [0, 1, 2, 3, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65533, 65534, 65535]


def values(rng, shape, step, top=65535):
    """Non-negative values over the encodable range and a few beyond it."""
    n = int(np.prod(shape))
    c = np.where(rng.random(n) < 0.4, rng.choice(CODES, n), rng.integers(0, 65536, n))
    small = rng.random(n) < 0.3
    c = np.where(small, rng.integers(0, 60, n), c)
    kind = rng.random(n)
    frac = np.where(kind < 0.5, 0.0, np.where(kind < 0.9, rng.uniform(-0.499, 0.499, n),
                                              rng.choice([-0.5, 0.5], n)))
    k = np.clip(c + frac, 0, top)
    k = np.where(rng.random(n) < 0.03, top + rng.choice([0.3, 1, 2, 700, top, 9e6], n), k)
    tiny = rng.random(n)
    k = np.where(tiny < 0.15, 10.0 ** rng.uniform(-20, 0, n), np.where(tiny < 0.2, 0.5, k))
    k[rng.random(n) < 0.2] = 0.0
    return (k * step).astype('f4').reshape(shape)


@st.composite
def cases(draw):
    return {'seed': draw(st.integers(0, 2 ** 31)), 'nx': draw(st.integers(2, 9)),
            'ny': draw(st.integers(2, 9)),
            'scaled': [draw(st.integers(0, 3)) > 0 for _ in range(draw(st.integers(1, 2)))],
            'n': draw(st.sampled_from([1, 1, 1, 2, 3])),
            'sat_lon': draw(st.sampled_from(gg.SAT_LONS))}


def check_decoded(got, v, step, what, top=65535):
    """v: what was written, before rounding to the step."""
    v = np.minimum(v.astype('f8'), top * step)
    zero = v == 0
    expect(np.isnan(got[zero]).all(), '%s: %s where nothing was there', what, got[zero])
    expect(not np.isnan(got[~zero]).any(), '%s: %s is missing after storage', what,
           v[~zero][np.isnan(got[~zero])][:3])
    low = ~zero & (v <= step)
    expect_close(got[low], np.full(low.sum(), step), what + ': values up to one step', 2e-6)
    high = v > step
    expect_close(got[high], v[high], what, 2e-6, 0.5 * step * (1 + 1e-6))


def body(case, ctx):
    rng = np.random.default_rng(case['seed'])
    nx, ny = case['nx'], case['ny']
    g = dict(dx=112e-6, dy=112e-6, nx=nx, ny=ny, x0=-0.05, y0=0.02, start=gg.T_BASE,
             seconds=60 * case['n'],
             interval=60)
    with ctx.sut('set up'):
        gd = im.gridder(g, case['sat_lon'])
    vals, want = {}, {}
    for f, step in im.STEPS.items():
        want[f] = values(rng, (nx, ny, case['n']), step)
        vals[f] = want[f]
    for f, d in im.DIVIDED.items():
        # the division is carried out in single precision
        den = vals[d]
        tot = (want[f].astype('f8') * den).astype('f4')
        vals[f] = tot
        with np.errstate(all='ignore'):
            want[f] = np.where((den == 0) | (tot == 0), np.float32(0), tot / den)
    im.fill(gd, vals)
    from glmtools.io.imagery import write_goes_imagery
    for w, scaled in enumerate(case['scaled']):
        with ctx.sut('write'):
            out = write_goes_imagery(gd, outpath=os.path.join(ctx.tmp, str(w), '{dataset_name}'),
                                     scale_and_offset=scaled)
        expect_equal(len(out), case['n'], 'files')
        for t, path in enumerate(out):
            check_file(path, want, t, scaled, gd)
        ctx.label('scaled' if scaled else 'unscaled')
    allv = np.concatenate([(want[f] / s).ravel() for f, s in im.STEPS.items()])
    ctx.label('%d frames' % case['n'])
    ctx.nontrivial = bool((allv > 32768).any() and ((allv > 1) & (allv < 32767)).any()
                          and ((allv > 0) & (allv < 1)).any())


def check_file(path, want, t, scaled, gd):
    from glmtools.io.imagery import glm_scaling
    with xr.open_dataset(path) as ds, netCDF4.Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        for f, step in im.STEPS.items():
            v = want[f][:, :, t].T[::-1]
            got = ds[f].data.astype('f8')
            expect(ds[f].dims == ('y', 'x'), '%s has dimensions %s', f, ds[f].dims)
            raw = nc[f]
            at = {k: raw.getncattr(k) for k in raw.ncattrs()}
            if scaled:
                check_decoded(got, v, step, f)
                expect(raw.dtype == np.dtype('i2') and at.get('_Unsigned') == 'true',
                       '%s is stored as %s', f, raw.dtype)
                expect_close(at['scale_factor'], step, f + ' scale', 1e-6)
                expect_close(at.get('add_offset', 0.0), 0.0, f + ' offset')
                expect_close(glm_scaling[f]['scale_factor'], step, f + ' scale table', 1e-6)
            else:
                expect(raw.dtype == np.dtype('f4'), '%s is stored as %s', f, raw.dtype)
                if f in im.DIVIDED:
                    expect_close(np.nan_to_num(got), v.astype('f8'), f, 1e-6)
                else:
                    expect_equal(np.nan_to_num(got), v.astype('f8'), f)
                expect(np.isnan(got[v == 0]).all(), '%s: zeros are not missing', f)
                expect('scale_factor' not in at, '%s has a scale', f)
            i = gd.field_names.index(f)
            expect_equal(at['units'], gd.field_units[i], f + ' units')
            expect_equal(at['long_name'], gd.field_descriptions[i], f + ' long_name')
            expect_equal(at['standard_name'], f, f + ' standard_name')
            expect_equal(at['grid_mapping'], 'goes_imager_projection', f + ' grid_mapping')
        expect('goes_imager_projection' in nc.variables, 'no grid mapping variable')
        dq = nc['DQF']
        expect_equal(np.asarray(dq[:]), np.zeros(v.shape), 'quality flags')


@st.composite
def var_cases(draw):
    return {'seed': draw(st.integers(0, 2 ** 31)), 'shape': [draw(st.integers(1, 12)),
                                                             draw(st.integers(1, 12))],
            'step': draw(st.sampled_from([1.0, 0.0625, 0.25, 10.0, 1.52597e-6, 0.1, 1e-3, 3.7])),
            'dtype': draw(st.sampled_from(['uint16', 'uint16', 'int16', None])),
            'offset': draw(st.sampled_from([None, 0.0])),
            'f8': draw(st.booleans())}


def var_body(case, ctx):
    from glmtools.io.imagery import glm_image_to_var
    rng = np.random.default_rng(case['seed'])
    step = case['step'] if case['dtype'] else 1.0
    top = 32767 if case['dtype'] == 'int16' else 65535
    v = values(rng, case['shape'], step, top)
    if case['f8']:
        v = v.astype('f8')
    before = v.copy()
    kw = {}
    if case['dtype']:
        kw = dict(scale_factor=step, dtype=case['dtype'])
        if case['offset'] is not None:
            kw['add_offset'] = case['offset']
    with ctx.sut('glm_image_to_var'):
        d = glm_image_to_var(v, 'some_field', 'A field', 'km^2', ('y', 'x'), **kw)
    expect_equal(v, before, 'array passed in')
    path = os.path.join(ctx.tmp, 'v.nc')
    with ctx.sut('write'):
        xr.Dataset({'some_field': d}).to_netcdf(path)
    with xr.open_dataset(path) as ds:
        got = ds.some_field.data.astype('f8')
        expect_equal(ds.some_field.attrs.get('units'), 'km^2', 'units')
        expect_equal(ds.some_field.attrs.get('long_name'), 'A field', 'long_name')
    if case['dtype']:
        check_decoded(got, before, step, case['dtype'], top)
    else:
        expect_equal(np.nan_to_num(got), before.astype('f8'), 'unscaled')
    k = before / step
    ctx.label(str(case['dtype']))
    ctx.nontrivial = bool(((k > 1) & (k < 32767)).any() and ((k > 0) & (k < 1)).any())


@st.composite
def packed_cases(draw):
    below = draw(st.sampled_from([0, 0, 1, 2, 8, 40, 100]))
    return {'seed': draw(st.integers(0, 2 ** 31)),
            'shape': [draw(st.integers(1, 8)), draw(st.integers(1, 8))],
            'step': draw(st.sampled_from([1.0, 0.0625, 10.0, 1.52597e-6, 0.1])),
            'dtype': draw(st.sampled_from(['uint16', 'int16', 'uint8'])), 'below': below,
            'fill': draw(st.sampled_from([0, 0, below, below + 1, below + 3, 17]))}


def packed_body(case, ctx):
    """Other offsets and codes for missing values than those of the images."""
    from glmtools.io.imagery import glm_image_to_var
    rng = np.random.default_rng(case['seed'])
    step, m, fill = case['step'], case['below'], case['fill']
    top = {'uint16': 65535, 'int16': 32767, 'uint8': 255}[case['dtype']]
    n = int(np.prod(case['shape']))
    k = np.where(rng.random(n) < 0.5, rng.integers(0, 30, n), rng.integers(0, top - m + 1, n))
    k = np.clip(k + np.where(rng.random(n) < 0.5, 0, rng.uniform(-0.45, 0.45, n)), 0, top - m)
    k = np.where(rng.random(n) < 0.1, 0.0, k)
    v = (k * step).reshape(case['shape'])
    before = v.copy()
    with ctx.sut('glm_image_to_var'):
        d = glm_image_to_var(v, 'some_field', 'A field', 'km^2', ('y', 'x'), fill=float(fill),
                             scale_factor=step, add_offset=-m * step, dtype=case['dtype'])
    expect_equal(v, before, 'array passed in')
    path = os.path.join(ctx.tmp, 'v.nc')
    with ctx.sut('write'):
        xr.Dataset({'some_field': d}).to_netcdf(path)
    with xr.open_dataset(path) as ds:
        got = ds.some_field.data.astype('f8')
    want = before.copy()
    if m == 0:
        want[(want > 0) & (want < step)] = step
    missing = np.rint(want / step) + m == fill
    expect(np.isnan(got[missing]).all(), '%s: %s where the code is the one of missing values',
           case['dtype'], got[missing])
    expect(not np.isnan(got[~missing]).any(), '%s is missing after storage',
           before[~missing][np.isnan(got[~missing])][:3])
    expect_close(got[~missing], want[~missing], 'decoded', 2e-6,
                 0.5 * step * (1 + 1e-6) + 2e-6 * m * step)
    ctx.label('offset' if m else 'no offset')
    ctx.label('missing' if missing.any() else 'none missing')
    ctx.nontrivial = bool((~missing).sum() > 1 and (m or fill))


TESTS = [Test('fields', cases(), body, quick=400), Test('variable', var_cases(), var_body, quick=400),
         Test('packed', packed_cases(), packed_body, quick=200)]
