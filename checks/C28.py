"""Opening series of image files."""
import os
from datetime import datetime, timedelta

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from harness import gridrun as gr, imgmake as im
from harness.core import Test, expect, expect_close, expect_equal

RULE = ('1-6 image files with start times in any order, gapped, overlapping or equal coverage of '
        'differing length, with names that sort unlike their times, written directly as netCDF or '
        'by the image writer; whole and fractional seconds. Also 12-40 files. '
        'Non-trivial: at least two files not '
        'listed in time order. Oracle: each file opened on its own. dask is not installed, so '
        'xarray opens the files without chunks.')


class NoChunks:
    """Lets xarray.open_mfdataset run without dask."""

    def __enter__(self):
        import xarray.backends.api as api
        self.api, self.real = api, api.open_dataset

        def plain(*a, **k):
            k.pop('chunks', None)
            return self.real(*a, **k)
        api.open_dataset = plain

    def __exit__(self, *_):
        self.api.open_dataset = self.real


@st.composite
def cases(draw, large=False):
    n = draw(st.integers(1, 6) if not large else st.integers(12, 40))
    step = draw(st.sampled_from([60, 60, 20, 300]))
    style = draw(st.sampled_from(['regular', 'regular', 'any']))
    if style == 'regular':
        t = [[step * 10 * k, step * 10] for k in range(n)]
    else:
        t = [[draw(st.integers(0, 9000)), draw(st.sampled_from([600, 10, 200, 3000, 7]))]
             for _ in range(n)]
    order = draw(st.sampled_from(['given', 'shuffled', 'reversed']))
    if order == 'shuffled':
        t = draw(st.permutations(t))
    elif order == 'reversed':
        t = t[::-1]
    writer = draw(st.integers(0, 4)) == 0
    if writer:
        t = [[a - a % 10, max(b - b % 10, 10)] for a, b in t]
    return {'t': [list(v) for v in t], 'names': draw(st.permutations(range(n))),
            'base': draw(st.sampled_from([[2018, 7, 2, 4, 33], [2019, 12, 31, 23, 55],
                                          [2020, 2, 29, 23, 58]])),
            'shape': [draw(st.integers(2, 4)), draw(st.integers(2, 4))],
            'seed': draw(st.integers(0, 2 ** 31)), 'writer': writer,
            'zulu': draw(st.sampled_from(['Z', '', '+00:00'])),
            'scaled': draw(st.booleans())}


def write(case, ctx):
    from glmtools.io.imagery import write_goes_imagery
    rng = np.random.default_rng(case['seed'])
    ny, nx = case['shape']
    base = datetime(*case['base'])
    out = []
    for k, (t, dur) in enumerate(case['t']):
        start = base + timedelta(seconds=t / 10)
        end = start + timedelta(seconds=dur / 10)
        path = os.path.join(ctx.tmp, 'f%02d.nc' % case['names'][k])
        if case['writer']:
            s = (start - datetime(2000, 1, 1, 12)).total_seconds()
            g = dict(dx=56e-6, dy=56e-6, nx=nx, ny=ny, x0=-0.05, y0=0.02, start=int(s),
                     seconds=dur // 10, interval=dur // 10)
            with ctx.sut('gridder'):
                gd = im.gridder(g, -75.0)
            for a in gd.outgrids:
                a[...] = rng.integers(0, 30, a.shape)
            with ctx.sut('write_goes_imagery'):
                write_goes_imagery(gd, outpath=path)
        else:
            v = {}
            for f in ('flash_extent_density', 'average_flash_area', 'total_energy'):
                a = rng.integers(1, 99, (ny, nx)).astype('f4')
                a[rng.random((ny, nx)) < 0.3] = np.nan
                v[f] = (('y', 'x'), a, {'units': 'u'})
                if case['scaled']:
                    v[f] += ({'dtype': 'i2', 'scale_factor': 0.5, 'add_offset': 0.0,
                              '_FillValue': 0, 'zlib': True},)
            v['goes_imager_projection'] = ((), np.int32(-2147483647), {'a': 1.0})
            v['nominal_satellite_subpoint_lon'] = ((), -75.0 + k)
            fmt = '%Y-%m-%dT%H:%M:%S.%f' if t % 10 or dur % 10 else '%Y-%m-%dT%H:%M:%S'
            d = xr.Dataset(v, coords={'y': np.arange(ny)[::-1] * 1e-4, 'x': np.arange(nx) * 1e-4},
                           attrs={'time_coverage_start': start.strftime(fmt) + case['zulu'],
                                  'time_coverage_end': end.strftime(fmt) + case['zulu'],
                                  'platform_ID': 'G16'})
            d.to_netcdf(path)
        out.append((path, start, end))
    return out


def body(case, ctx):
    from glmtools.io.imagery import gen_file_times, open_glm_time_series
    made = write(case, ctx)
    paths = [p for p, _, _ in made]
    starts = [s for _, s, _ in made]
    ends = [e for _, _, e in made]
    with ctx.sut('gen_file_times'):
        a = [pd.Timestamp(t) for t in gen_file_times(paths)]
        b = [pd.Timestamp(t) for t in gen_file_times(paths, time_attr='time_coverage_end')]
    expect([t.to_pydatetime() for t in a] == starts, 'start times %s instead of %s', a, starts)
    expect([t.to_pydatetime() for t in b] == ends, 'end times %s instead of %s', b, ends)
    with NoChunks(), ctx.sut('open_glm_time_series'):
        d = open_glm_time_series(paths)
        d.load()
        d.close()
    expect_equal(d.sizes['time'], len(paths), 'time steps')
    got = [pd.Timestamp(t).to_pydatetime() for t in d.time.data]
    expect(got == starts, 'time labels %s instead of %s', got, starts)
    expect('time' in d.indexes and len(d.indexes['time']) == len(paths), 'time is not an index')
    for k, p in enumerate(paths):
        with xr.open_dataset(p) as one:
            one.load()
        step = d.isel(time=k)
        for f in one.data_vars:
            expect(f in step, '%s is missing', f)
            expect(np.array_equal(step[f].data, one[f].data, equal_nan=one[f].dtype.kind == 'f'),
                   '%s of step %d is %s instead of %s', f, k, step[f].data, one[f].data)
            # (units name the duration, so only alike files share them)
            expect(xr.core.utils.dict_equiv(step[f].attrs, one[f].attrs)
                   or len({d for _, d in case['t']}) > 1, 'attributes of %s: %s', f,
                   step[f].attrs)
        expect_equal(step.x.data, one.x.data, 'x')
        expect_equal(step.y.data, one.y.data, 'y')
        if len(set(starts)) == len(starts):
            s2 = d.sel(time=starts[k])
            expect(np.array_equal(s2.flash_extent_density.data, one.flash_extent_density.data,
                                  equal_nan=True), 'selecting %s gives another image', starts[k])
    for k, t in (('time_coverage_start', min(starts)), ('time_coverage_end', max(ends))):
        with ctx.sut('reading the coverage'):
            v = pd.Timestamp(d.attrs[k]).tz_localize(None).to_pydatetime()
        expect(v == t, '%s is %s instead of %s', k, v, t)
    ctx.label('writer' if case['writer'] else 'direct')
    if max(ends) != ends[int(np.argmax(starts))]:
        ctx.label('last end not of last start')
    ctx.nontrivial = starts != sorted(starts)


TESTS = [Test('series', cases(), body, quick=320),
         Test('large', cases(large=True), body, quick=24)]
