"""Replicating parent data onto pieces."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, expect, expect_close, expect_equal

from glmtools.grid.split_events import replicate_and_weight_split_child_dataset
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import replicate_and_weight_split_child_dataset_new

RULE = ('Granules of 1-8 flashes with ids of every style and row order; pieces (0-40) that name '
        'their event, group or flash in any order, repeated or not, some parents never named, '
        'with area fractions that add up to one for parents named completely; default and chosen '
        'variables and weights. The same for a table of locations indexed by its own id. '
        'Some granules of hundreds of flashes or children of one parent. '
        'Non-trivial: pieces of two parents out of table order, one of them repeated. Oracle: '
        'lookup by id in plain Python.')

LEVELS = {
    'event': ('event_id', 'split_event_parent_event_id', 'split_event_area_fraction',
              ['event_energy', 'event_time_offset', 'event_parent_flash_id',
               'event_parent_group_id', 'event_lat', 'event_lon'], ['event_energy']),
    'group': ('group_id', 'split_group_parent_group_id', 'split_group_area_fraction',
              ['group_time_offset', 'group_area', 'group_energy', 'group_lat'],
              ['group_energy', 'group_area']),
    'flash': ('flash_id', 'split_flash_parent_flash_id', 'split_flash_area_fraction',
              ['flash_time_offset_of_first_event', 'flash_time_offset_of_last_event',
               'flash_area', 'flash_energy', 'flash_lon'], ['flash_energy', 'flash_area']),
}


@st.composite
def pieces(draw, n):
    """Rows of the parents the pieces belong to."""
    k = draw(st.integers(0, 12))
    rows = [draw(st.integers(0, n - 1)) for _ in range(k)]
    how = draw(st.sampled_from(['any', 'sorted', 'descending', 'all', 'repeat']))
    if how == 'sorted':
        rows.sort()
    elif how == 'descending':
        rows.sort(reverse=True)
    elif how == 'all':
        rows = list(range(n))[:600]
    elif how == 'repeat':
        rows = [r for r in rows for _ in range(3)]
    return rows


@st.composite
def cases(draw, shape=None):
    level = draw(st.sampled_from(sorted(LEVELS)))
    spec = draw(gg.granules(shape or gg.shapes()))
    n = len(spec[level]['id'])
    return {'spec': spec, 'level': level,
            'rows': draw(pieces(n)) if n else [],
            'default': draw(st.booleans()),
            'idt': draw(st.sampled_from(['u8', 'i8', 'u4'])),
            'seed': draw(st.integers(0, 2 ** 31))}


def fractions(rng, rows):
    """Area fractions that add up to one over the pieces of a parent."""
    f = rng.uniform(0.05, 1.0, len(rows))
    for r in set(rows):
        k = np.array(rows) == r
        f[k] /= f[k].sum()
    return f


def body(case, ctx):
    spec, level, rows = case['spec'], case['level'], case['rows']
    idname, pname, fname, names, weighted = LEVELS[level]
    rng = np.random.RandomState(case['seed'])
    with ctx.sut('open'):
        glm = GLMDataset(gg.to_dataset(spec))
    ds = glm.dataset
    f = fractions(rng, rows)
    weighted = {v: f for v in weighted}
    ids = np.array([spec[level]['id'][r] for r in rows], dtype=case['idt'])
    other = rng.uniform(0, 1, len(rows))
    split = xr.Dataset({pname: ('pieces', ids), fname: ('pieces', f),
                        'own': ('pieces', other)})
    keep = {v: ds[v].data.copy() for v in names}
    place = {int(i): k for k, i in enumerate(ds[idname].data.tolist())}
    where = [place[int(i)] for i in ids]
    kw = dict(parent_id=idname, split_child_parent_id=pname, names=names,
              weights={w: fname for w in weighted})
    if level == 'event' and case['default']:
        kw, names = {}, names[:4]
    elif not case['default']:
        # weights chosen by the caller: another column for some, none for others
        k = rng.randint(0, 3)
        w = {names[i]: 'own' for i in range(len(names)) if 'energy' in names[i]
             or ('area' in names[i] and k > 1)} if k else {}
        if w and 'group_lat' in names:
            w['group_lat'] = fname
        if w and 'flash_lon' in names:
            w['flash_lon'] = fname
        kw['weights'] = w
        weighted = dict((v, f if c == fname else other) for v, c in w.items())
    with ctx.sut('replicate_and_weight_split_child_dataset'):
        out = replicate_and_weight_split_child_dataset(glm, split, **kw)
    check(out, names, weighted, keep, where, split, ids, pname)
    for v in keep:
        expect_equal(glm.dataset[v].data, keep[v], v + ' of the parents')
    if case['default']:
        for w in weighted:
            got = out['split_' + w].data.astype('f8')
            for k in set(where):
                total = got[np.array(where) == k].sum()
                expect_close(total, float(keep[w][k]), 'sum of %s over the pieces of one parent'
                             % w, rtol=1e-6)
    ctx.label(level)
    ctx.nontrivial = len(set(rows)) > 1 and len(rows) > len(set(rows)) and rows != sorted(rows)


def check(out, names, weighted, keep, where, split, ids, pname):
    for v in names:
        expect('split_' + v in out, 'variable split_%s is missing', v)
        got = out['split_' + v]
        expect_equal(got.shape, (len(where),), 'shape of split_' + v)
        expect(got.dims == split[pname].dims, 'dimensions of split_%s are %s', v, got.dims)
        want = keep[v][where] if len(where) else keep[v][:0]
        if v in weighted:
            expect_close(got.data, want.astype('f8') * weighted[v], 'split_' + v, rtol=2e-7)
        else:
            expect_equal(got.data, want, 'split_' + v)
    expect_equal(out[pname].data, ids, 'parent ids of the pieces')


@st.composite
def tables(draw):
    n = draw(st.integers(1, 12))
    return {'n': n, 'rows': draw(pieces(n)), 'default': draw(st.booleans()),
            'style': draw(st.sampled_from(['seq', 'rand', 'desc'])),
            'seed': draw(st.integers(0, 2 ** 31))}


LUT = ['lutevent_id', 'lutevent_energy', 'lutevent_time_offset', 'lutevent_count',
       'lutevent_flash_count', 'lutevent_group_count', 'lutevent_total_flash_area',
       'lutevent_total_group_area', 'lutevent_min_flash_area']


def body_tables(case, ctx):
    rng = np.random.RandomState(case['seed'])
    n, rows = case['n'], case['rows']
    ids = {'seq': np.arange(n), 'desc': 500 - np.arange(n),
           'rand': rng.permutation(n) * 10 ** 9 + rng.randint(0, 10 ** 9, n)}[case['style']]
    data = {'lutevent_energy': rng.uniform(0, 1e-12, n),
            'lutevent_time_offset': np.datetime64('2018-07-02T04:33:00', 'ns')
            + rng.randint(0, 10 ** 9, n).astype('m8[ns]'),
            'lutevent_count': rng.randint(1, 50, n), 'lutevent_flash_count': rng.randint(1, 9, n),
            'lutevent_group_count': rng.randint(1, 20, n),
            'lutevent_total_flash_area': rng.uniform(1, 900, n),
            'lutevent_total_group_area': rng.uniform(1, 900, n).astype('f4'),
            'lutevent_min_flash_area': rng.uniform(1, 900, n)}
    parent = xr.Dataset({k: ('lutevent_id', v) for k, v in data.items()},
                        coords={'lutevent_id': ids})
    pids = ids[rows] if rows else ids[:0]
    af, mf = fractions(rng, rows), rng.uniform(0, 1, len(rows))
    pname = 'split_event_parent_event_id'
    split = xr.Dataset({pname: ('pieces', pids), 'split_event_area_fraction': ('pieces', af),
                        'split_event_mesh_area_fraction': ('pieces', mf)})
    by_mesh = ['lutevent_count', 'lutevent_flash_count', 'lutevent_group_count',
               'lutevent_total_flash_area', 'lutevent_total_group_area']
    kw = {}
    if not case['default']:
        by_mesh = [LUT[i] for i in (1, 3, 7) if rng.rand() < 0.6]
        kw = dict(names=LUT[1:], weights={v: 'split_event_mesh_area_fraction' for v in by_mesh})
    with ctx.sut('replicate_and_weight_split_child_dataset_new'):
        out = replicate_and_weight_split_child_dataset_new(parent, split, **kw)
    data['lutevent_id'] = ids
    for v in (LUT if case['default'] else LUT[1:]):
        expect('split_' + v in out, 'variable split_%s is missing', v)
        got = out['split_' + v]
        expect_equal(got.shape, (len(rows),), 'shape of split_' + v)
        want = data[v][rows] if rows else data[v][:0]
        if v in by_mesh:
            expect_close(got.data, want.astype('f8') * mf, 'split_' + v, rtol=2e-7)
        elif v == 'lutevent_energy' and case['default']:
            expect_close(got.data, want * af, 'split_' + v, rtol=1e-12)
            for r in set(rows):
                expect_close(got.data[np.array(rows) == r].sum(), data[v][r],
                             'energy over the pieces of one location', rtol=1e-9)
        else:
            expect_equal(got.data, want, 'split_' + v)
    expect_equal(out[pname].data, pids, 'parent ids of the pieces')
    for v in data:
        expect_equal(parent[v].data, data[v], v + ' of the parents')
    ctx.nontrivial = len(set(rows)) > 1 and len(rows) > len(set(rows)) and rows != sorted(rows)


TESTS = [Test('entities', cases(), body, quick=800),
         Test('large', cases(gg.shapes_large()), body, quick=48),
         Test('locations', tables(), body_tables, quick=640)]
