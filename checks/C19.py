"""Point tables from a file, without clipping."""
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg, select
from harness.core import Test, expect, expect_close, expect_equal

from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import mimic_lma_dataset, read_flashes, sec_since_basedate

RULE = ('Opened granules of 1-25 flashes with ids of every style and row order; no criteria or '
        'longitude, latitude, x, y ranges and minimum event and group counts; chunk sizes 1 to '
        'more than the number of flashes; base dates from years before to a day after the data, '
        'with fractions of a second; results returned or sent to targets. Some granules of hundreds of flashes or children of one parent. '
        'Non-trivial: at least '
        'two flashes in two chunks, or criteria that keep some flashes and drop others. Oracle: '
        'tables written out from the granule in plain Python (positions to single precision, '
        'times 1e-6 s, energies and areas 2e-6 relative).')


@st.composite
def cases(draw, shape=None):
    spec = draw(gg.granules(shape=shape or gg.shapes_mixed(small=(6, 3, 4), big=(25, 5, 6), p_big=4),
                            cjit=draw(st.sampled_from([0.01, 4.0])),
                            max_group_id=2 ** 32 - 1,
                            area=draw(st.sampled_from(['mixed', 'small'])),
                            spreads=('cluster', 'cluster', 'anywhere')))
    rng = {}
    for k in ('lon', 'lat', 'x', 'y'):
        if draw(st.integers(0, 5)) == 0:
            rng[k] = [[draw(st.sampled_from(['between', 'below'])), draw(st.integers(0, 999))],
                      [draw(st.sampled_from(['between', 'above'])), draw(st.integers(1000, 1999))]]
    return {'spec': spec, 'rng': rng,
            'min_events': draw(st.sampled_from([None, None, None, None, 1, 2, 3])),
            'min_groups': draw(st.sampled_from([None, None, None, None, 1, 2])),
            'chunk': draw(st.sampled_from([None, 1, 1, 2, 3, 5, 100])),
            'base_s': draw(st.sampled_from([0, -86400, -86400 * 900, 3600, 86400])),
            'base_us': draw(st.sampled_from([0, 0, 250000, 1])),
            'targets': draw(st.booleans()),
            'fixed': draw(st.sampled_from([None, False, True])),
            'nadir': draw(st.booleans())}


class Sink:
    def __init__(self):
        self.got = []

    def send(self, x):
        self.got.append(x)


def pick(i, n):
    k = i % max(1, (n + 1) // 2)
    return k if i < 1000 else n - 1 - k


def expected(spec, ds, keep, base):
    """{level: (child rows, parent rows)}, rows keyed for comparison."""
    m = gg.Model(spec)
    kf = set(keep)
    lat, lon = gg.event_latlon(spec)
    en = gg.energy_nJ_events(spec)
    b = np.datetime64(base, 'ns')

    def sec(t):
        return float((t - b) / np.timedelta64(1, 'ns')) * 1e-9
    et, gt = (gg.time64(spec, spec[k]['t']) for k in ('event', 'group'))
    f0, f1 = (gg.time64(spec, spec['flash'][k]) for k in ('t0', 't1'))
    child = {'flash': [], 'group': [], 'event': []}
    for r, (i, g) in enumerate(zip(spec['event']['id'], spec['event']['parent'])):
        if m.e_flash[r] not in kf:
            continue
        row = (lat[r], lon[r], sec(et[r]), en[r])
        child['flash'].append((m.e_flash[r],) + row)
        child['group'].append((g,) + row)
        child['event'].append((i,) + row)
    par = {'flash': {}, 'group': {}, 'event': {}}
    fa = ds.flash_area.data.astype('f8')
    fe = ds.flash_energy.data.astype('f8')
    ga = ds.group_area.data.astype('f8')
    ge = ds.group_energy.data.astype('f8')
    for r, i in enumerate(spec['flash']['id']):
        if i in kf:
            par['flash'][i] = (fa[r], fe[r], spec['flash']['lat'][r], spec['flash']['lon'][r],
                               sec(f0[r]), sec(f1[r]) - sec(f0[r]))
    for r, (i, p) in enumerate(zip(spec['group']['id'], spec['group']['parent'])):
        if p in kf:
            par['group'][i] = (ga[r], ge[r], spec['group']['lat'][r], spec['group']['lon'][r],
                               sec(gt[r]), 0.0)
    for r, i in enumerate(spec['event']['id']):
        if m.e_flash[r] in kf:
            par['event'][i] = (0.0, en[r], lat[r], lon[r], sec(et[r]), 0.0)
    return child, par


def compare(level, events, flashes, child, par, what):
    c = child[level]
    expect_equal(len(events), len(c), '%s %s table: number of child rows' % (what, level))
    # both sides sorted by id, time, position codes
    want = sorted(c, key=lambda t: (t[0], round(t[2 + 1] * 1e3), round(t[1] * 1e2),
                                    round(t[2] * 1e2), round(t[4] * 1e3)))
    got = sorted(zip(*(events[k].tolist() for k in ('flash_id', 'lat', 'lon', 'time', 'power'))),
                 key=lambda t: (t[0], round(t[3] * 1e3), round(t[1] * 1e2), round(t[2] * 1e2),
                                round(t[4] * 1e3)))
    w, g = np.array(want, 'f8').reshape(-1, 5), np.array(got, 'f8').reshape(-1, 5)
    tag = '%s %s table: child ' % (what, level)
    expect_equal(g[:, 0], w[:, 0], tag + 'ids')
    # ties in the sort key are decided by rounding; compare columns sorted within equal ids
    for k, name, rt, at in ((1, 'lat', 0, 1e-5), (2, 'lon', 0, 2e-5), (3, 'time', 1e-15, 1e-6),
                            (4, 'power', 2e-6, 0)):
        o1, o2 = np.lexsort((g[:, k], g[:, 0])), np.lexsort((w[:, k], w[:, 0]))
        expect_close(g[o1, k], w[o2, k], tag + name, rt, at)
    # rows as a whole: time and position belong together
    o1 = np.lexsort((np.round(g[:, 3] * 500), np.round(g[:, 1] * 400), g[:, 0]))
    o2 = np.lexsort((np.round(w[:, 3] * 500), np.round(w[:, 1] * 400), w[:, 0]))
    expect_close(g[o1, 3], w[o2, 3], tag + 'times at their positions', 1e-15, 1e-6)
    expect_equal(events['alt'], np.zeros(len(events)), tag + 'altitude')
    compare_parents(level, flashes, par, what)


def compare_parents(level, flashes, par, what):
    p = par[level]
    ids = flashes['flash_id'].tolist()
    expect(len(ids) == len(set(ids)) and set(ids) == set(p), '%s %s table: parent ids %s '
           'instead of %s', what, level, sorted(ids)[:20], sorted(p)[:20])
    tag = '%s %s table: parent ' % (what, level)
    w = np.array([p[i] for i in ids], 'f8').reshape(-1, 6)
    for k, names, rt, at in ((0, ['area'], 2e-6, 0), (1, ['total_energy'], 2e-6, 0),
                             (2, ['ctr_lat', 'init_lat'], 0, 1e-5),
                             (3, ['ctr_lon', 'init_lon'], 0, 2e-5), (4, ['start'], 1e-15, 1e-6),
                             (5, ['duration'], 1e-6, 1e-6)):
        for name in names:
            expect_close(flashes[name].astype('f8'), w[:, k], tag + name, rt, at)


def body(case, ctx):
    spec = case['spec']
    with ctx.sut('open'):
        glm = GLMDataset(gg.to_dataset(spec))
    ds = glm.dataset
    kw = select.ranges(ds, case['rng'], pick)
    for k in ('min_events', 'min_groups'):
        if case[k] is not None:
            kw[k] = case[k]
    t0 = datetime(2000, 1, 1, 12) + timedelta(seconds=spec['t'])
    base = (datetime(t0.year, t0.month, t0.day) + timedelta(seconds=case['base_s'],
                                                            microseconds=case['base_us']))
    keep = select.keep_flashes(spec, ds, **kw)
    child, par = expected(spec, ds, keep, base)
    call = dict(kw, base_date=base, clip_events=False)
    if case['chunk'] is not None:
        call['chunk_size'] = case['chunk']
    if case['fixed'] is not None:
        call['fixed_grid'] = case['fixed']
    if case['nadir']:
        call['nadir_lon'] = spec['sat_lon']
    if case['targets']:
        sinks = {k: Sink() for k in ('flash', 'group', 'event')}
        with ctx.sut('read_flashes'):
            read_flashes(glm, sinks, **call)
        chunks = {k: s.got for k, s in sinks.items()}
    else:
        with ctx.sut('read_flashes'):
            res = read_flashes(glm, None, **call)
        chunks = {k: [d[k] for d in res] for k in ('flash', 'group', 'event')}
    nc = {len(c) for c in chunks.values()}
    expect(len(nc) == 1, 'levels were delivered in different numbers of chunks: %s', nc)
    for level, c in chunks.items():
        if not c:
            expect(not keep, '%s: nothing delivered although %d flashes meet the criteria',
                   level, len(keep))
            continue
        ev = np.concatenate([a for a, b in c])
        fl = np.concatenate([b for a, b in c])
        compare(level, ev, fl, child, par, 'read')
        # children travel with their parents
        for a, b in c:
            expect(set(a['flash_id'].tolist()) <= set(b['flash_id'].tolist()),
                   '%s: a chunk has children without their parents', level)
    if len(set(spec['flash']['id'])) > 1 and len(next(iter(chunks.values()))) > 1:
        ctx.label('several chunks')
        ctx.nontrivial = True
    if 0 < len(keep) < len(spec['flash']['id']):
        ctx.label('some dropped')
        ctx.nontrivial = True
    with ctx.sut('mimic_lma_dataset'):
        d = mimic_lma_dataset(ds, base)
    child, par = expected(spec, ds, spec['flash']['id'], base)
    for level in ('flash', 'group', 'event'):
        compare(level, *d[level], child, par, 'whole')
    with ctx.sut('sec_since_basedate'):
        s = sec_since_basedate(ds.event_time_offset.data, base)
    expect_close(s, [(t - np.datetime64(base, 'ns')) / np.timedelta64(1, 'ns') * 1e-9 for t in
                     gg.time64(spec, spec['event']['t'])], 'seconds since the base date', 1e-14,
                 1e-7)


TESTS = [Test('unclipped', cases(), body, quick=480),
         Test('large', cases(gg.shapes_large()), body, quick=32)]
