"""Aggregation of image series over time."""
from datetime import datetime, timedelta

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from harness.core import Test, expect, expect_close, expect_equal

RULE = ('Series of 1-12 images of 1-4 by 1-4 pixels, at regular or irregular seconds, in any '
        'order, over intervals of 1-10 minutes, or of hours over up to three days; missing pixels; with or without all optional '
        'fields; start and end given (whole intervals, before, at or inside the series) or not. '
        'Also series of 60-200 images. '
        'Non-trivial: several images in an interval, an image exactly on an interval edge, and '
        'missing pixels. Oracle: loops over images and pixels in double precision, 1e-6.')

SUM = ['flash_extent_density', 'flash_centroid_density', 'total_energy', 'group_extent_density',
       'group_centroid_density']
FIELDS = SUM + ['average_flash_area', 'average_group_area', 'minimum_flash_area']


@st.composite
def cases(draw, large=False):
    minutes = draw(st.sampled_from([1, 2, 3, 5, 10]))
    n = draw(st.integers(1, 12) if not large else st.integers(60, 200))
    style = draw(st.sampled_from(['minute', 'minute', 'mixed', 'edge', 'days']))
    if style == 'days':
        minutes = draw(st.sampled_from([60, 90, 720, 1440]))
    if style == 'minute':
        t = [60 * k for k in range(n)]
    elif style == 'edge':
        t = [60 * minutes * draw(st.integers(0, 4)) + draw(st.sampled_from([0, 0, -1, 1, 30]))
             for _ in range(n)]
    elif style == 'days':
        t = [60 * draw(st.integers(0, 4400)) for _ in range(n)]
    else:
        t = [draw(st.integers(0, 1800)) for _ in range(n)]
    if draw(st.booleans()):
        t = draw(st.permutations(t))
    se = None
    if draw(st.booleans()):
        first = draw(st.sampled_from([0, 0, -60, 60, -60 * minutes, -30, -7]))
        se = [min(t) + first, draw(st.integers(1, 6))]
    extra = draw(st.booleans())
    return {'t': list(t), 'minutes': minutes, 'start_end': se,
            'base': draw(st.sampled_from([[2018, 7, 2, 4, 33], [2019, 12, 31, 23, 55],
                                          [2020, 2, 29, 23, 58]])),
            'shape': [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
            'missing': draw(st.sampled_from([0.0, 0.3, 0.6, 0.95])),
            'seed': draw(st.integers(0, 2 ** 31)),
            'extra': extra, 'drop_min': extra and draw(st.integers(0, 5)) == 0,
            'f4': draw(st.booleans())}


def make(case):
    rng = np.random.default_rng(case['seed'])
    n, (ny, nx) = len(case['t']), case['shape']
    base = datetime(*case['base'])
    times = [base + timedelta(seconds=s) for s in case['t']]
    miss = rng.random((n, ny, nx)) < case['missing']
    v = {}
    for f in FIELDS:
        a = rng.integers(1, 400, (n, ny, nx)) * 0.0625 * (1 + rng.integers(0, 3))
        v[f] = np.where(miss, np.nan, a).astype('f4' if case['f4'] else 'f8')
    # centroids are missing in more places than extents
    for f in ('flash_centroid_density', 'group_centroid_density'):
        v[f] = np.where(rng.random((n, ny, nx)) < 0.5, np.nan, v[f]).astype(v[f].dtype)
    ds = xr.Dataset({f: (('time', 'y', 'x'), a, {'units': 'u_' + f}) for f, a in v.items()},
                    coords={'time': times, 'y': np.arange(ny)[::-1] * 1e-4,
                            'x': np.arange(nx) * 1e-4})
    if case['extra']:
        ds['goes_imager_projection'] = ('time', np.full(n, -2147483647),
                                        {'longitude_of_projection_origin': -75.0})
        ds['nominal_satellite_subpoint_lat'] = ('time', np.zeros(n))
        ds['nominal_satellite_subpoint_lon'] = ('time', np.full(n, -75.0))
        ds['DQF'] = (('time', 'y', 'x'), np.zeros((n, ny, nx)))
    if case['drop_min']:
        ds = ds.drop_vars('minimum_flash_area')
    return ds, times, v


def body(case, ctx):
    from glmtools.io.imagery import aggregate
    ds, times, v = make(case)
    dt = timedelta(minutes=case['minutes'])
    base = datetime(*case['base'])
    se = None
    if case['start_end'] is not None:
        a = base + timedelta(seconds=case['start_end'][0])
        se = (a, a + dt * case['start_end'][1])
        start, n = a, case['start_end'][1]
    else:
        start = min(times)
        n = int((max(times) - start) / dt) + 1
    before = ds.copy(deep=True)
    bins = [(start + dt * k, start + dt * (k + 1)) for k in range(n)]
    member = [[i for i, t in enumerate(times) if a <= t < b] for a, b in bins]
    if not any(member):
        return   # nothing to aggregate
    with ctx.sut('aggregate'):
        agg = aggregate(ds, case['minutes'], start_end=se)
    expect(ds.identical(before), 'the series passed in was changed')
    lefts = [pd.Timestamp(i.left).to_pydatetime() for i in agg.time_bins.values]
    rights = [pd.Timestamp(i.right).to_pydatetime() for i in agg.time_bins.values]
    expect(len(set(lefts)) == len(lefts), 'an interval appears twice: %s', lefts)
    expect(sorted(lefts) == lefts, 'intervals out of order: %s', lefts)
    pos = {a: k for k, (a, b) in enumerate(bins)}
    for a, b in zip(lefts, rights):
        expect(a in pos and b - a == dt, 'interval %s to %s is not one of those asked for', a, b)
    for k, m in enumerate(member):
        expect(not m or bins[k][0] in lefts, 'no result for the interval from %s, which has %d '
               'images', bins[k][0], len(m))
    for f in FIELDS:
        if f == 'minimum_flash_area' and case['drop_min']:
            continue
        expect(f in agg, '%s is missing', f)
        expect(set(agg[f].dims) == {'time_bins', 'y', 'x'}, '%s has dimensions %s', f,
               agg[f].dims)
        got = agg[f].transpose('time_bins', 'y', 'x').data.astype('f8')
        for r, a in enumerate(lefts):
            m = member[pos[a]]
            if not m:
                expect(not np.nan_to_num(got[r]).any(), '%s of an interval without images is %s',
                       f, got[r])
                continue
            x = v[f][m].astype('f8')
            if f in SUM:
                w = np.nansum(x, axis=0)
                g = got[r]
                expect(not np.isnan(g).any() or not w[np.isnan(g)].any(), '%s from %s is missing',
                       f, a)
                g = np.nan_to_num(g)
            elif f == 'minimum_flash_area':
                w = np.where(np.isnan(x).all(axis=0), np.nan,
                             np.nanmin(np.where(np.isnan(x), np.inf, x), axis=0))
                g = got[r]
            else:
                d = v['flash_extent_density' if 'flash' in f else 'group_extent_density'][m] \
                    .astype('f8')
                with np.errstate(all='ignore'):
                    w = np.nansum(x * d, axis=0) / np.nansum(d, axis=0)
                g = got[r]
            expect_close(g, w, '%s from %s' % (f, a), 2e-6)
    expect_equal(agg.x.data, ds.x.data, 'x')
    expect_equal(agg.y.data, ds.y.data, 'y')
    with ctx.sut('reading the coverage'):
        s = pd.Timestamp(agg.attrs['time_coverage_start']).to_pydatetime()
        e = pd.Timestamp(agg.attrs['time_coverage_end']).to_pydatetime()
    expect(s == min(lefts) and e == max(rights), 'coverage %s to %s for intervals from %s to %s',
           s, e, min(lefts), max(rights))
    if case['extra']:
        for f in ('nominal_satellite_subpoint_lon', 'goes_imager_projection'):
            expect(f in agg, '%s is missing', f)
        got = agg.nominal_satellite_subpoint_lon.data
        got = got[~np.isnan(got)]
        expect(len(got) > 0 and (got == -75).all(), 'subpoint longitude %s', got)
    edge = any(t == a for t in times for a, _ in bins)
    many = any(len(m) > 1 for m in member)
    ctx.label('explicit' if se else 'whole series')
    if edge:
        ctx.label('image on an edge')
    ctx.nontrivial = edge and many and case['missing'] > 0


TESTS = [Test('aggregate', cases(), body, quick=800),
         Test('large', cases(large=True), body, quick=32)]
