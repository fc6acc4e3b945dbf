"""Collections and time series of files."""
import os
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg, gridrun as gr, select
from harness.core import Test, expect, expect_equal
from checks import C19

from glmtools.io.glm import GLMDataset

RULE = ('1-4 files (some empty) with different product times in any order and with arbitrary '
        'names, flash ids repeated between files; minimum events and groups, longitude and '
        'latitude ranges; base dates before, at and after the data; requests in any order and '
        'repeated; time series with windows of 5-60 s and polygons. Also 8-16 files. '
        'Non-trivial: at least two '
        'files with flashes, and criteria, windows or polygons that keep some and drop others. '
        'Oracle: tables written out from the granules in plain Python.')


@st.composite
def cases(draw, large=False):
    n = draw(st.integers(1, 4) if not large else st.integers(8, 16))
    t0 = draw(st.sampled_from([gg.T_BASE, gg.T_SWITCH + 86400 * 60, gg.T_YEAREND - 20,
                               gg.T_LEAP - 20, gg.T_LATE]))
    slots = draw(st.permutations(range(n + 1)))[:n]
    sat = draw(st.sampled_from(gg.SAT_LONS))
    specs = []
    late = draw(st.sampled_from([0, 0, 1, 5, 12]))
    for s in slots:
        shape = draw(gg.shapes(max_flashes=5)) if draw(st.integers(0, 5)) else []
        specs.append(draw(gg.granules(shape=st.just(shape), sat_lons=[sat],
                                      times=st.just(t0 + 20 * s + (late if s % 2 else 0)), max_group_id=2 ** 32 - 1,
                                      spreads=('cluster',), span=400)))
    rng = {}
    for k in ('lon', 'lat'):
        if draw(st.integers(0, 3)) == 0:
            rng[k] = [[draw(st.sampled_from(['between', 'below'])), draw(st.integers(0, 999))],
                      [draw(st.sampled_from(['between', 'above'])), draw(st.integers(1000, 1999))]]
    return {'specs': specs, 'rng': rng, 'names': draw(st.permutations(range(n))),
            'min_events': draw(st.sampled_from([None, None, 1, 2, 3])),
            'min_groups': draw(st.sampled_from([None, None, 1, 2])),
            'base_s': draw(st.sampled_from([0, -86400, -86400 * 900, 3600, 86400])),
            'ask': draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))}


def setup(case, ctx):
    specs = case['specs']
    paths = gr.write_files(specs, ctx.tmp, ['f%d.nc' % k for k in case['names']])
    dss = [GLMDataset(gg.to_dataset(s)).dataset for s in specs]
    kw = {}
    full = [d for s, d in zip(specs, dss) if s['flash']['id']]
    if full:
        kw = select.ranges(full[0], case['rng'], C19.pick)
    t0 = gr.stamp(min(s['t'] for s in specs))
    base = datetime(t0.year, t0.month, t0.day) + timedelta(seconds=case['base_s'])
    crit = dict(kw, min_events=case['min_events'], min_groups=case['min_groups'])
    keep = [select.keep_flashes(s, d, **crit) if s['flash']['id'] else []
            for s, d in zip(specs, dss)]
    return paths, dss, kw, t0, base, keep


def body(case, ctx):
    from glmtools.io.mimic_lma import GLMncCollection
    specs = case['specs']
    paths, dss, kw, t0, base, keep = setup(case, ctx)
    with ctx.sut('GLMncCollection'):
        col = GLMncCollection(paths, base_date=base, min_points=case['min_events'],
                              min_groups=case['min_groups'], **kw)
    times = [gr.stamp(s['t']) for s in specs]
    expect([t for t in col.times] == sorted(times), 'times %s instead of %s', col.times,
           sorted(times))

    def check(k, pair, what):
        child, par = C19.expected(specs[k], dss[k], keep[k], base)
        C19.compare('flash', pair[0], pair[1], child, par, what)

    for k in case['ask']:
        with ctx.sut('data_for_time'):
            pair = col.data_for_time(times[k])
        check(k, pair, 'file %d' % k)
    with ctx.sut('iterating'):
        pairs = list(col)
    expect_equal(len(pairs), len(specs), 'pairs')
    for k, pair in zip(np.argsort([s['t'] for s in specs]), pairs):
        check(k, pair, 'iteration, file %d' % k)
    total = sum(len(s['flash']['id']) for s in specs)
    used = sum(len(k) for k in keep)
    ctx.label('all' if used == total else 'none' if not used else 'some')
    ctx.nontrivial = sum(bool(s['flash']['id']) for s in specs) > 1 and 0 < used < total


@st.composite
def series_cases(draw):
    c = draw(cases())
    c['window'] = draw(st.sampled_from([5, 7, 20, 60]))
    c['n'] = draw(st.integers(1, 5))
    c['first'] = draw(st.sampled_from([0, 0, -10, 5]))
    c['base'] = draw(st.sampled_from([True, True, False]))
    c['poly'] = draw(st.booleans())
    c['half'] = [draw(st.sampled_from([0.05, 0.3, 2.0])) for _ in range(2)]
    c['at'] = draw(st.integers(0, 100))
    c['split'] = draw(st.booleans())
    return c


def series_body(case, ctx):
    from glmtools.io.mimic_lma import TimeSeriesGLMFlashSubset, TimeSeriesGLMPolygonFlashSubset
    specs = case['specs']
    paths, dss, kw, t0, base, keep = setup(case, ctx)
    start = t0 + timedelta(seconds=case['first'])
    dt = timedelta(seconds=case['window'])
    end = start + case['n'] * dt
    args = dict(kw, min_events=case['min_events'], min_groups=case['min_groups'])
    if case['base']:
        args['base_date'] = base
    else:
        base = datetime(start.year, start.month, start.day)
    polys = edges = None
    if case['poly']:
        full = [s for s in specs if s['flash']['id']] or [None]
        s = full[case['at'] % len(full)]
        x, y = (s['flash']['lon'][0], s['flash']['lat'][0]) if s else (0.0, 0.0)
        w, h = case['half']
        x, y = x + 0.0123457, y - 0.0345671
        polys = [[(x - w, y - h), (x + w, y - h), (x + w, y + h), (x - w, y + h)]]
        edges = [start, end]
        if case['split']:
            polys.append([(a + 2 * w, b) for a, b in polys[0]])
            edges = [start, start + dt, end] if case['n'] > 1 else [start, start + dt / 2, end]
        with ctx.sut('TimeSeriesGLMPolygonFlashSubset'):
            ts = TimeSeriesGLMPolygonFlashSubset(paths, start, end, dt, polys=polys,
                                                 t_edges_polys=edges, **args)
    else:
        with ctx.sut('TimeSeriesGLMFlashSubset'):
            ts = TimeSeriesGLMFlashSubset(paths, start, end, dt, **args)
    with ctx.sut('gen_chopped_events_flashes'):
        got = list(ts.gen_chopped_events_flashes())
    expect_equal(len(got), len(specs), 'series')
    b = np.datetime64(base, 'ns')
    seen = drop = 0

    def inside(lon, lat, t):
        """True, False or None where too near an edge of the polygon."""
        if not case['poly']:
            return True
        for p, a, z in zip(polys, edges[:-1], edges[1:]):
            a, z = ((v - base).total_seconds() for v in (a, z))
            if a <= t < z:
                x0, y0, x1, y1 = *p[0], *p[2]
                m = min(lon - x0, x1 - lon, lat - y0, y1 - lat)
                return None if abs(m) < 1e-4 else m > 0
        return False

    for k, (evs, fls) in zip(np.argsort([s['t'] for s in specs]), got):
        child, par = C19.expected(specs[k], dss[k], keep[k], base)
        expect(len(evs) == len(fls) == case['n'], '%d and %d windows instead of %d', len(evs),
               len(fls), case['n'])
        for q in range(case['n']):
            lo = (start - base).total_seconds() + q * case['window']
            hi = lo + case['window']
            for rows, tab, tcol, pos in ((
                    [(i, r[4], r[3], r[2]) for i, r in par['flash'].items()], fls[q], 'start',
                    'init_'),
                    ([(r[0], r[3], r[2], r[1]) for r in child['flash']], evs[q], 'time', '')):
                sure = maybe = 0
                want = []
                for i, t, lon, lat in rows:
                    if not lo - 1e-6 <= t < hi + 1e-6:
                        continue
                    v = inside(lon, lat, t)
                    near = min(abs(t - lo), abs(t - hi)) < 1e-5
                    if v is None or (near and v):
                        maybe += 1
                    elif v:
                        sure += 1
                        want.append((i, t))
                    else:
                        drop += 1
                n = len(tab)
                expect(sure <= n <= sure + maybe, 'file %d, window %d: %d rows (%s) instead of %d',
                       k, q, n, tcol, sure)
                seen += n
                if not maybe:
                    g = sorted(zip(tab['flash_id'].tolist(), np.round(tab[tcol], 4).tolist()))
                    w = sorted((i, round(t, 4)) for i, t in want)
                    expect([v[0] for v in g] == [v[0] for v in w]
                           and np.allclose([v[1] for v in g], [v[1] for v in w], atol=2e-4, rtol=0),
                           'file %d, window %d: rows (%s) %s instead of %s', k, q, tcol, g[:5],
                           w[:5])
    ctx.label('polygons' if case['poly'] else 'windows')
    ctx.nontrivial = seen > 0 and (not case['poly'] or drop > 0)


TESTS = [Test('collection', cases(), body, quick=120),
         Test('many files', cases(large=True), body, quick=24),
         Test('series', series_cases(), series_body, quick=120)]
