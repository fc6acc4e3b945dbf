"""Repair of values decoded from signed codes."""
import os

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness.core import Test, expect, expect_close

RULE = ('Arrays (0-30, one or two dimensions) of 8, 16 and 32 bit codes with both ends, the middle and -1 over-represented, '
        'scale factors from 1e-16 to 100 and offsets of either sign '
        'up to 2**26 steps, decoded by xarray as signed; '
        'event positions as float32 or float64 arrays and as netCDF variables. Non-trivial: codes '
        'on both sides of the sign. Oracle: the same codes decoded as unsigned integers; '
        'tolerance a thousandth of a step (arrays in float64), a hundredth for float32 input.')

SCALES = [0.00203128, 1.52597e-15, 0.15163901, 0.000305287, 2.0, 0.1, 100.0, 1e-16, 3.051851e-06]
OFFSETS = [0.0, -5.0, 63.095734, 2.8515e-16, -66.56, -156.06, 1000.0]
LON0, LAT0, STEP = -156.06, -66.56, 0.00203128


def codes(bits):
    top = 2 ** bits
    return st.one_of(st.sampled_from([0, 1, 2, top // 2 - 1, top // 2, top // 2 + 1, top - 2,
                                      top - 1]), st.integers(0, top - 1))


@st.composite
def array_cases(draw):
    bits = draw(st.sampled_from([8, 16, 16, 32]))
    scale = draw(st.sampled_from(SCALES))
    return {'bits': bits, 'codes': draw(st.lists(codes(bits), max_size=30)),
            'scale': scale,
            'offset': draw(st.sampled_from([v for v in OFFSETS if abs(v) < scale * 2 ** 26])),
            'shape': draw(st.sampled_from([[-1], [-1], [-1, 1], [1, -1]])),
            'f4': draw(st.booleans()), 'big': draw(st.booleans())}


def array_body(case, ctx):
    from glmtools.io.glm import fix_unsigned
    bits = case['bits']
    t = np.float32 if case['f4'] else np.float64
    scale, offset = t(case['scale']), t(case['offset'])
    u = np.array(case['codes'], dtype='u%d' % (bits // 8))
    u = u.reshape(case.get('shape', [-1])) if u.size else u
    raw = u.view('i%d' % (bits // 8))
    if case['big']:
        raw = raw.astype('>i%d' % (bits // 8))
    ds = xr.Dataset({'v': (['n', 'm'][:raw.ndim], raw, {'scale_factor': scale, 'add_offset': offset})})
    v = xr.decode_cf(ds).v
    keep = v.data.copy()
    with ctx.sut('fix_unsigned'):
        got = fix_unsigned(v)
    expect(np.array_equal(keep, v.data), 'the input was changed')
    got = np.asarray(got)
    expect(got.dtype == np.float64 and got.shape == u.shape, 'result is %s of shape %s', got.dtype,
           got.shape)
    want = u.astype('f8') * float(scale) + float(offset)
    bad = np.abs(got - want) > 1e-3 * float(scale)
    expect(not bad.any(), 'codes %s come out as %s instead of %s', u[bad], got[bad], want[bad])
    ctx.label('%d bit' % bits)
    half = 2 ** (bits - 1)
    ctx.nontrivial = bool(case['codes']) and min(case['codes']) < half <= max(case['codes'])


@st.composite
def event_cases(draw):
    n = draw(st.integers(0, 20))
    return {'lat': draw(st.lists(codes(16), min_size=n, max_size=n)),
            'lon': draw(st.lists(codes(16), min_size=n, max_size=n)),
            'kind': draw(st.sampled_from(['f8', 'f4', 'netcdf']))}


def event_body(case, ctx):
    from glmtools.io.glm import fix_event_locations
    lat, lon = (np.array(case[k], dtype='u2') for k in ('lat', 'lon'))
    if case['kind'] == 'netcdf':
        import netCDF4
        path = os.path.join(ctx.tmp, 'e.nc')
        ds = netCDF4.Dataset(path, 'w')
        ds.createDimension('number_of_events', len(lat))
        for name, c, off in (('event_lat', lat, LAT0), ('event_lon', lon, LON0)):
            v = ds.createVariable(name, 'i2', ('number_of_events',), fill_value=False)
            v.set_auto_maskandscale(False)
            v._Unsigned = 'true'
            v.scale_factor = np.float32(STEP)
            v.add_offset = np.float32(off)
            v[:] = c.view('i2')
        ds.close()
        ds = netCDF4.Dataset(path)
        ds.set_auto_mask(False)
        with ctx.sut('fix_event_locations'):
            got = fix_event_locations(ds['event_lat'], ds['event_lon'])
        got = [np.array(g) for g in got]
        ds.close()
    else:
        val = [xr.DataArray((c.view('i2') * STEP + off).astype(case['kind']),
                            dims='number_of_events') for c, off in ((lat, LAT0), (lon, LON0))]
        with ctx.sut('fix_event_locations'):
            got = fix_event_locations(*val, is_xarray=True)
    for g, c, off, what in ((got[0], lat, LAT0, 'latitudes'), (got[1], lon, LON0, 'longitudes')):
        expect_close(np.asarray(g, dtype='f8'), c * STEP + off, what, 0, 1e-2 * STEP)
    ctx.label(case['kind'])
    ctx.nontrivial = len(lat) > 0 and min(case['lat']) < 32768 <= max(case['lat']) \
        and min(case['lon']) < 32768 <= max(case['lon'])


TESTS = [Test('arrays', array_cases(), array_body, quick=4000),
         Test('events', event_cases(), event_body, quick=3000)]
