"""Image metadata, names, scene and resolution."""
import os
from datetime import datetime, timedelta

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness import glmgen as gg, gridrun as gr, imgmake as im
from harness.core import Test, expect, expect_close, expect_equal

RULE = ('Start and end times from 2016 to 2040 with year ends, leap days and '
        'midnights over-represented; platforms, slots, instruments; every scene; grid spans from '
        'far below to far above each standard sector with both sides of the one percent '
        'tolerance over-represented (margin 0.02 percent); spacings likewise; path templates '
        'with and without folders. Non-trivial: the end falls on another day or the span is '
        'within two percent of a standard sector. Oracle: datetime arithmetic and the sector '
        'definitions.')

SCENES = {'FULL': ('F', 'Full Disk'), 'CONUS': ('C', 'CONUS'), 'MESO1': ('M1', 'Mesoscale'),
          'MESO2': ('M2', 'Mesoscale'), 'OTHER': ('M1', 'Custom')}
SPANS = {'FULL': (0.303744, 0.303744), 'CONUS': (0.14, 0.084), 'MESO1': (0.028, 0.028)}
WIDE = 0.172732
RESOLUTIONS = {14: '0.5km', 28: '1km', 56: '2km', 112: '4km', 224: '8km', 280: '10km',
               2800: '100km'}
PLATFORMS = [['G16', 'GOES-East', 'GLM-1'], ['G17', 'GOES-West', 'GLM-2'],
             ['G18', 'GOES-West', 'FM3'], ['G19', 'GOES-Test', 'GLM-4']]


@st.composite
def platforms(draw):
    return [draw(st.sampled_from(PLATFORMS))[k] for k in range(3)]


DAYS = [[2016, 2, 28], [2016, 2, 29], [2016, 12, 31], [2017, 12, 31], [2018, 1, 1], [2020, 2, 29],
        [2020, 12, 30], [2020, 12, 31], [2024, 2, 29], [2039, 12, 31]]


@st.composite
def instants(draw):
    if draw(st.booleans()):
        d = datetime(*draw(st.sampled_from(DAYS)))
    else:
        d = datetime(2016, 1, 1) + timedelta(days=draw(st.integers(0, 8766)))
    s = draw(st.one_of(st.sampled_from([0, 1, 59, 60, 3599, 43200, 86340, 86399]),
                       st.integers(0, 86399)))
    return [d.year, d.month, d.day, s]


def instant(v):
    return datetime(*v[:3]) + timedelta(seconds=v[3])


@st.composite
def attr_cases(draw):
    return {'start': draw(instants()),
            'dur': draw(st.sampled_from([60, 20, 1, 300, 3600, 86400, 86400 * 366])),
            'platform': draw(platforms()), 'micro': draw(st.sampled_from([0, 0, 0, 400000, 123456])),
            'scene': draw(st.sampled_from(sorted(SCENES))),
            'resolution': draw(st.sampled_from(['2km at nadir', '10km at nadir'])),
            'prod': draw(st.sampled_from([['DE', 'Postprocessed', 'TTU'],
                                          ['OE', 'Realtime', 'NAPO']]))}


def check_name(name, start, end, platform, letter):
    from glmtools.io.glm import parse_glm_filename
    with np.errstate(all='ignore'):
        env, alg, pl, s, e, c = parse_glm_filename(name)
    expect(name.endswith('.nc') and env == 'OR', 'name %s', name)
    expect_equal(alg, 'GLM-L2-GLM%s-M3' % letter, 'product part of the name')
    expect_equal(pl, platform, 'platform in the name')
    # names hold whole seconds, then tenths which may be left at zero
    for what, got, t in (('start', s, start), ('end', e, end)):
        expect(t.replace(microsecond=0) <= got <= t, '%s in the name is %s instead of %s', what,
               got, t)
    now = datetime.now()
    expect(abs((now - c).total_seconds()) < 108000, 'creation in the name is %s at %s', c, now)


def check_attrs(at, start, end, platform, slot, instrument, scene, resolution):
    for k, v in (('platform_ID', platform), ('orbital_slot', slot), ('instrument_ID', instrument),
                 ('scene_id', SCENES[scene][1]), ('spatial_resolution', resolution),
                 ('timeline_id', 'ABI Mode 3')):
        expect_equal(at[k], v, k)
    for k, t in (('time_coverage_start', start), ('time_coverage_end', end)):
        got = datetime.fromisoformat(at[k].rstrip('Z'))
        expect(got == t and at[k].endswith('Z'), '%s is %s instead of %s', k, at[k], t)
    got = datetime.fromisoformat(at['date_created'].rstrip('Z'))
    expect(abs((datetime.now() - got).total_seconds()) < 108000, 'date_created is %s', got)
    check_name(at['dataset_name'], start, end, platform, SCENES[scene][0])


def attr_body(case, ctx):
    from glmtools.io.imagery import get_glm_global_attrs
    start = instant(case['start']) + timedelta(microseconds=case.get('micro', 0))
    end = start + timedelta(seconds=case['dur'])
    pl, slot, inst = case['platform']
    env, src, site = case['prod']
    with ctx.sut('get_glm_global_attrs'):
        at = get_glm_global_attrs(start, end, pl, slot, inst, case['scene'], case['resolution'],
                                  'ABI Mode 3', env, src, site)
    with ctx.sut('reading the attributes'):
        check_attrs(at, start, end, pl, slot, inst, case['scene'], case['resolution'])
    for k, v in (('production_environment', env), ('production_data_source', src),
                 ('production_site', site)):
        expect_equal(at.get(k), v, k)
    ctx.label(case['scene'])
    ctx.nontrivial = start.date() != end.date() or start.timetuple().tm_yday > 365


@st.composite
def lons(draw):
    return draw(st.one_of(st.sampled_from(gg.SAT_LONS), st.sampled_from([-75.1873, -137.28, 0.061])))


@st.composite
def spans(draw):
    """Relative deviation from a nominal value, on a known side of the tolerance."""
    return draw(st.sampled_from([0.0, 0.0, 0.001, -0.001, 0.005, -0.005, 0.0098, -0.0098, 0.0102,
                                 -0.0102, 0.02, -0.02, 0.05, -0.05, 0.12, -0.12, 0.3, -0.3]))


@st.composite
def scene_cases(draw):
    base = draw(st.sampled_from(['FULL', 'CONUS', 'MESO1', 'WIDE', 'MIXED']))
    w, h = {'WIDE': (WIDE, draw(st.sampled_from([0.084, 0.1, 0.3]))),
            'MIXED': (draw(st.sampled_from([0.303744, 0.14, 0.028, 0.05])),
                      draw(st.sampled_from([0.303744, 0.084, 0.028, 0.05])))}.get(
                          base, SPANS.get(base))
    w, h = w * (1 + draw(spans())), h * (1 + draw(spans()))
    kind = draw(st.sampled_from(['known', 'near', 'free']))
    res = draw(st.sampled_from(sorted(RESOLUTIONS))) * 1e-6
    if kind == 'near':
        res *= 1 + draw(spans())
    elif kind == 'free':
        res = draw(st.sampled_from([20e-6, 84e-6, 150e-6, 400e-6, 1000e-6]))
    return {'w': w, 'h': h, 'res': res, 'sat_lon': draw(lons()),
            'x0': draw(st.sampled_from([-0.15, -0.1, 0.0])),
            'y0': draw(st.sampled_from([-0.15, -0.1, 0.0, 0.05])),
            'desc': draw(st.booleans())}


def near(v, nominal, slack=0.0):
    """True/False, or None where within 0.012 percent, and slack, of the tolerance."""
    r = abs(v - nominal) / nominal
    if abs(r - 0.01) < 1.2e-4 + slack / nominal:
        return None
    return bool(r < 0.01)


def scene_of(w, h):
    cand = {s: (near(w, a), near(h, b)) for s, (a, b) in SPANS.items()}
    unsure = any(None in v and False not in v for v in cand.values())
    for s in ('FULL', 'CONUS', 'MESO1'):
        if cand[s] == (True, True):
            return {s}
    out = {'CONUS'} if near(w, WIDE) else {'OTHER'}
    if near(w, WIDE) is None:
        out = {'CONUS', 'OTHER'}
    if unsure:
        out |= {s for s, v in cand.items() if False not in v}
    return out


def resolution_of(d):
    out = set()
    for m, n in RESOLUTIONS.items():
        r = near(d * 1e6, m, 0.011)   # comparing small floats allows another 1e-8
        if r is not False:
            out.add(n + ' at nadir')
        if r is True:
            return {n + ' at nadir'}
    k = d * 1e6
    out |= {'%dmicroradian at nadir' % v for v in {int(np.floor(k + 0.5 - 1e-6)),
                                                   int(np.floor(k + 0.5 + 1e-6))}}
    return out


def scene_body(case, ctx):
    from glmtools.io.imagery import infer_scene_from_dataset, new_goes_imagery_dataset
    # coordinates whose first spacing and overall span are as wanted
    def coords(c0, span):
        n = max(int(span / case['res']), 1)
        v = c0 + case['res'] * np.arange(min(n, 40) + 1)
        return np.append(v[v < c0 + span * (1 - 1e-9)], c0 + span)
    x, y = coords(case['x0'], case['w']), coords(case['y0'], case['h'])
    if case['desc']:
        y = y[::-1]
    dx = abs(x[1] - x[0])
    with ctx.sut('infer_scene_from_dataset'):
        scene, res = infer_scene_from_dataset(x, y)
    want = scene_of(case['w'], case['h'])
    expect(scene in want, 'a span of %s by %s is %s instead of %s', case['w'], case['h'], scene,
           sorted(want))
    wr = resolution_of(dx)
    expect(res in wr, 'a spacing of %s is %s instead of %s', dx, res, sorted(wr))
    with ctx.sut('new_goes_imagery_dataset'):
        d, s2, r2 = new_goes_imagery_dataset(x, y, case['sat_lon'])
    expect(s2 == scene and r2 == res, 'the dataset is %s, %s instead of %s, %s', s2, r2, scene, res)
    expect_equal(d.x.data, x, 'x')
    expect_equal(d.y.data, y, 'y')
    pr = d.goes_imager_projection.attrs
    expect_close(pr['longitude_of_projection_origin'], case['sat_lon'], 'longitude')
    expect_close(float(d.nominal_satellite_subpoint_lon), case['sat_lon'], 'subpoint longitude')
    expect_close(float(d.nominal_satellite_subpoint_lat), 0.0, 'subpoint latitude')
    for k, v in (('perspective_point_height', 35786023.0), ('semi_major_axis', 6378137.0),
                 ('semi_minor_axis', 6356752.31414), ('latitude_of_projection_origin', 0.0),
                 ('inverse_flattening', 298.2572221)):
        expect_close(pr[k], v, k)
    expect(d.DQF.dims == ('y', 'x'), 'quality flags have dimensions %s', d.DQF.dims)
    expect_equal(np.asarray(d.DQF.data), np.zeros((len(y), len(x))), 'quality flags')
    expect_equal(pr['sweep_angle_axis'], 'x', 'sweep')
    expect_equal(pr['grid_mapping_name'], 'geostationary', 'grid_mapping_name')
    ctx.label(scene)
    ctx.nontrivial = any(abs(case['w'] - a) < 0.02 * a for a, _ in SPANS.values()) \
        or abs(case['w'] - WIDE) < 0.02 * WIDE


TEMPLATES = ['{dataset_name}', './{dataset_name}', 'a/b/{dataset_name}',
             '{start_time:%Y/%b/%d}/{dataset_name}',
             'x/{start_time:%Y%j}/{end_time:%H}/GLM_{start_time:%Y%m%d_%H%M%S}_{end_time:%S}.nc']


@st.composite
def path_cases(draw):
    n = draw(st.integers(1, 3))
    return {'start': draw(instants()), 'n': n, 'dt': draw(st.sampled_from([60, 20, 3600, 1])),
            'platform': draw(platforms()),
            'template': draw(st.sampled_from(TEMPLATES)), 'absolute': draw(st.booleans()),
            'exists': draw(st.booleans()), 'sat_lon': draw(lons()),
            'dx': draw(st.sampled_from([56e-6, 280e-6, 150e-6])),
            'nx': draw(st.sampled_from([100, 101, 5])), 'ny': draw(st.sampled_from([100, 99, 7]))}


def path_body(case, ctx):
    from glmtools.io.imagery import write_goes_imagery
    start = instant(case['start'])
    t = (start - datetime(2000, 1, 1, 12)).total_seconds()
    g = dict(dx=case['dx'], dy=case['dx'], nx=case['nx'], ny=case['ny'], x0=-0.05, y0=0.02,
             start=int(t), seconds=case['dt'] * case['n'], interval=case['dt'])
    pl, slot, inst = case['platform']
    with ctx.sut('set up'):
        gd = im.gridder(g, case['sat_lon'], dict(platform_ID=pl, orbital_slot=slot,
                                                 instrument_ID=inst))
    gd.outgrids[0][0, 0, :] = 1
    home = os.path.join(ctx.tmp, 'home')
    os.makedirs(home)
    if case['exists']:
        os.makedirs(os.path.join(home, 'a', 'b'))
    here = os.getcwd()
    tpl = os.path.join(home, case['template']) if case['absolute'] else case['template']
    os.chdir(home)
    try:
        with ctx.sut('write_goes_imagery'):
            files = write_goes_imagery(gd, outpath=tpl)
        expect_equal(len(files), case['n'], 'files')
        w, h = (case['nx'] - 1) * case['dx'], (case['ny'] - 1) * case['dx']
        scene = scene_of(w, h)
        found = set()
        for base, _, names in os.walk(home):
            found |= {os.path.realpath(os.path.join(base, n)) for n in names}
        for k, p in enumerate(files):
            s = start + timedelta(seconds=case['dt'] * k)
            e = s + timedelta(seconds=case['dt'])
            with ctx.sut('reading the image'), xr.open_dataset(p) as d:
                at = dict(d.attrs)
                lon = d.goes_imager_projection.attrs['longitude_of_projection_origin']
                expect_close(lon, case['sat_lon'], 'longitude of the projection', 0, 1e-9)
                expect_close(float(d.nominal_satellite_subpoint_lon), case['sat_lon'],
                             'subpoint longitude', 0, 1e-4)
                expect(d.attrs['scene_id'] in {SCENES[v][1] for v in scene}, 'scene %s instead '
                       'of %s', d.attrs['scene_id'], scene)
            sc = [v for v in scene if SCENES[v][1] == at['scene_id']][0]
            with ctx.sut('reading the attributes'):
                check_attrs(at, s, e, pl, slot, inst, sc, sorted(resolution_of(case['dx']))[0])
            want = tpl.format(start_time=s, end_time=e, dataset_name=at['dataset_name'])
            expect(os.path.realpath(p) == os.path.realpath(want), 'written to %s instead of %s', p,
                   want)
            expect(os.path.realpath(p) in found, '%s does not exist', p)
            found.discard(os.path.realpath(p))
        expect(not found, 'other files were written: %s', sorted(found)[:3])
    finally:
        os.chdir(here)
    ctx.label(case['template'][:12])
    ctx.nontrivial = start.date() != (start + timedelta(seconds=case['dt'] * case['n'])).date() \
        or case['n'] > 1


TESTS = [Test('attributes', attr_cases(), attr_body, quick=1200),
         Test('scene', scene_cases(), scene_body, quick=800),
         Test('path', path_cases(), path_body, quick=160)]
