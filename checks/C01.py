"""Child counts and ancestor ids."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, expect, expect_equal

from glmtools.io.traversal import OneToManyTraversal
from glmtools.io.glm import GLMDataset

RULE = ('Hierarchies of 2-5 levels (0-12 rows each, up to 300, or up to 70000 from a seed) with '
        'sequential, gappy, wrapping, colliding and random ids of four integer types, in tree, '
        'shuffled and reversed row order, with childless parents and empty levels; lightning '
        'granules the same way, some with hundreds of flashes or of children of one parent, in '
        'memory or through a netCDF file. Non-trivial: some level has '
        'at least two rows and two different child counts, or some row has an ancestor two '
        'levels up. Oracle: counting, listing and following ids in plain Python dicts.')

TOPS = {'i8': 2**40, 'u4': 2**32 - 1, 'u2': 65535, 'i4': 2**31 - 1}


@st.composite
def large(draw):
    """Made in the check from a seed: a level of 2**16 rows and more below few parents."""
    return {'seed': draw(st.integers(0, 2**31)), 'n_levels': draw(st.integers(2, 4)),
            'style': draw(st.sampled_from(['seq', 'rev', 'wrap', 'gaps'])),
            'dtype': draw(st.sampled_from(['i8', 'u4', 'i4'])),
            'shuffle': draw(st.booleans())}


def make_large(c):
    rng = np.random.default_rng(c['seed'])
    sizes = [int(rng.integers(1, 4))] + [int(rng.integers(200, 700))] * (c['n_levels'] - 2)
    sizes += [int(rng.integers(66000, 75000))]
    levels = []
    for k, n in enumerate(sizes):
        ids = gg.make_ids(rng, n, c['style'], TOPS[c['dtype']])
        ids = rng.permutation(ids) if c['shuffle'] else ids
        row = {'id': ids.tolist()}
        if k:
            up = np.asarray(levels[-1]['id'])
            idx = rng.integers(0, len(up), n)
            idx[rng.random(n) < 0.96] = rng.integers(0, len(up))
            row['parent'] = up[idx if c['shuffle'] else np.sort(idx)].tolist()
        levels.append(row)
    return {'dtype': c['dtype'], 'levels': levels}


def generic_large(case, ctx):
    generic(make_large(case), ctx)


@st.composite
def hierarchy(draw):
    n_levels = draw(st.integers(2, 5))
    big = draw(st.integers(0, 9)) == 9
    seed = draw(st.integers(0, 2**31))
    rng = np.random.default_rng(seed)
    sizes = ([int(rng.integers(1, 300)) for _ in range(n_levels)] if big else
             [draw(st.integers(1, 12)) for _ in range(n_levels)])
    if draw(st.integers(0, 7)) == 0:
        k = draw(st.integers(0, n_levels - 1))
        sizes = sizes[:k] + [0] * (n_levels - k)
    style = draw(st.sampled_from(gg.ID_STYLES))
    dtype = draw(st.sampled_from(sorted(TOPS)))
    order = draw(st.sampled_from(gg.ORDERS))
    skew = draw(st.booleans())
    levels = []
    for k, n in enumerate(sizes):
        ids = gg.make_ids(rng, n, style, TOPS[dtype])
        if order == 'shuffle':
            ids = rng.permutation(ids)
        elif order == 'reverse':
            ids = ids[::-1]
        row = {'id': [int(i) for i in ids]}
        if k:
            up = levels[-1]['id']
            if n:
                idx = rng.integers(0, len(up), size=n)
                if skew:
                    idx = np.minimum(idx, rng.integers(0, len(up), size=n))
                if order == 'tree':
                    idx = np.sort(idx)
                row['parent'] = [up[int(i)] for i in idx]
            else:
                row['parent'] = []
        levels.append(row)
    return {'dtype': dtype, 'levels': levels}


def build(case):
    v, ent, par = {}, [], []
    dt = case['dtype']
    for k, row in enumerate(case['levels']):
        v['l%d_id' % k] = ('n%d' % k, np.asarray(row['id'], dtype=dt))
        ent.append('l%d_id' % k)
        if k:
            v['l%d_parent_id' % k] = ('n%d' % k, np.asarray(row['parent'], dtype=dt))
            par.append('l%d_parent_id' % k)
        v['l%d_data' % k] = ('n%d' % k, np.arange(len(row['id']), dtype='f8') + 1000 * k)
    ds = xr.Dataset(v).set_coords(ent + par)
    return ds, ent, par


def count(parents, ids):
    n = {}
    for p in parents:
        n[p] = n.get(p, 0) + 1
    return [n.get(i, 0) for i in ids]


def rows_of(values):
    d = {}
    for n, v in enumerate(values):
        d.setdefault(v, []).append(n)
    return d


def expect_groups(got, values, what, ctx):
    """A grouping lists, for every value and no other, the rows that hold it."""
    with ctx.sut('groups of ' + what):
        got = {int(k): np.arange(len(values))[v].tolist() for k, v in got.groups.items()}
    want = rows_of(values)
    expect(sorted(got) == sorted(want), 'the grouping by {} has other values: {} for {}', what,
           sorted(got)[:10], sorted(want)[:10])
    for k, rows in want.items():
        expect(got[k] == rows, 'rows of {} {}: {}, should be {}', what, k, got[k][:20], rows[:20])


def groupings(trav, ids, parents, ent, par, ctx):
    for k, e in enumerate(ent):
        expect_groups(trav.entity_groups[e], ids[k], e, ctx)
        if k == 0:
            continue
        q = par[k - 1]
        expect_groups(trav.entity_groups_by_parent[q], ids[k], e, ctx)
        expect_groups(trav.parent_groups[q], parents[k], q, ctx)
        expect_groups(trav.parent_groups_by_entity[e], parents[k], q, ctx)
        expect(trav.child_to_parent[e] == q and trav.parent_to_child[q] == e,
               'links between {} and {}: {}, {}', e, q, trav.child_to_parent[e],
               trav.parent_to_child[q])


def generic(case, ctx):
    ds, ent, par = build(case)
    lv = case['levels']
    before = ds.copy(deep=True)
    with ctx.sut('OneToManyTraversal'):
        trav = OneToManyTraversal(ds, ent, par)
    L = len(lv)
    counts = [count(lv[k + 1]['parent'], lv[k]['id']) for k in range(L - 1)]
    for k in range(L - 1):
        with ctx.sut('count_children({})'.format(ent[k])):
            got = trav.count_children(ent[k])
        expect(len(got) == 1, 'count_children({}) gave {} levels', ent[k], len(got))
        expect_equal(got[0], counts[k], 'children of ' + ent[k])
        for m in range(k + 1, L):
            with ctx.sut('count_children({}, {})'.format(ent[k], ent[m])):
                got = trav.count_children(ent[k], ent[m])
            expect(len(got) == m - k, 'count_children({}, {}) gave {} levels',
                   ent[k], ent[m], len(got))
            for j, g in enumerate(got):
                expect_equal(g, counts[k + j], 'children of {} via {}..{}'.format(
                    ent[k + j], ent[k], ent[m]))
    groupings(trav, [r['id'] for r in lv], [r.get('parent') for r in lv], ent, par, ctx)
    # ancestors
    for k in range(1, L):
        up = [dict(zip(lv[j]['id'], lv[j]['parent'])) if j else None for j in range(L)]
        anc = list(lv[k]['parent'])
        for m in range(k - 1, -1, -1):
            if m < k - 1:
                anc = [up[m + 1][a] for a in anc]
            with ctx.sut('replicate_parent_ids({}, {})'.format(ent[m], par[k - 1])):
                got = trav.replicate_parent_ids(ent[m], par[k - 1])
            expect_equal(got, anc, 'ancestor {} of rows of level {}'.format(ent[m], k))
    expect(ds.identical(before), 'the dataset was modified')
    if any(len(set(c)) > 1 for c in counts) or (L > 2 and lv[2]['id']):
        ctx.nontrivial = True
    if any(0 in c for c in counts):
        ctx.label('childless parent')
    if any(not row['id'] for row in lv):
        ctx.label('empty level')
    ctx.label('%d levels' % L)


def granule(case, ctx):
    spec = case['spec']
    m = gg.Model(spec)
    raw = None
    kw = {}
    if case['rev'] is not None:
        kw['ellipse_rev'] = case['rev']
    if case['file']:
        src = gg.to_file(spec, ctx.tmp + '/g.nc')
        raw = gg.to_dataset(spec)
    else:
        src = gg.to_dataset(spec)
        raw = src.copy(deep=True)
    with ctx.sut('GLMDataset'):
        glm = GLMDataset(src, **kw)
    ds = glm.dataset
    f, g, e = spec['flash'], spec['group'], spec['event']
    expect_equal(ds.flash_id.data, f['id'], 'flash_id')
    expect_equal(ds.group_id.data, g['id'], 'group_id')
    expect_equal(ds.event_id.data, e['id'], 'event_id')
    with ctx.sut('extra variables'):
        got = {k: ds[k].data for k in ('flash_child_group_count', 'group_child_event_count',
                                       'flash_child_event_count', 'event_parent_flash_id')}
        dims = {k: ds[k].dims for k in got}
    expect_equal(got['flash_child_group_count'], [len(m.groups_of[i]) for i in f['id']],
                 'flash_child_group_count')
    expect_equal(got['group_child_event_count'], [len(m.events_of_group[i]) for i in g['id']],
                 'group_child_event_count')
    expect_equal(got['flash_child_event_count'], [len(m.events_of_flash[i]) for i in f['id']],
                 'flash_child_event_count')
    expect_equal(got['event_parent_flash_id'], m.e_flash, 'event_parent_flash_id')
    expect(dims['flash_child_group_count'] == ('number_of_flashes',)
           and dims['flash_child_event_count'] == ('number_of_flashes',)
           and dims['group_child_event_count'] == ('number_of_groups',)
           and dims['event_parent_flash_id'] == ('number_of_events',), 'dimensions {}', dims)
    # the relations stay usable through the traversal interface of the file
    with ctx.sut('traversal of a file'):
        c = glm.count_children('flash_id', 'event_id')
        a = glm.replicate_parent_ids('flash_id', 'event_parent_group_id')
        c1 = glm.count_children('group_id')
    expect_equal(c[0], [len(m.groups_of[i]) for i in f['id']], 'count_children flashes')
    expect_equal(c[1], [len(m.events_of_group[i]) for i in g['id']], 'count_children groups')
    expect_equal(c1[0], [len(m.events_of_group[i]) for i in g['id']], 'count_children groups')
    expect_equal(a, m.e_flash, 'replicate_parent_ids')
    groupings(glm, [f['id'], g['id'], e['id']], [None, g['parent'], e['parent']],
              ['flash_id', 'group_id', 'event_id'],
              ['group_parent_flash_id', 'event_parent_group_id'], ctx)
    for k in ('event_lat', 'event_time_offset', 'group_quality_flag', 'flash_lon'):
        expect_equal(ds[k].data, raw[k].data, k)
    glm.dataset.close()
    ns = [len(m.groups_of[i]) for i in f['id']]
    if len(set(ns)) > 1 or len(e['id']) > len(f['id']):
        ctx.nontrivial = True
    ctx.label('file' if case['file'] else 'memory')


def granule_cases(shape=None):
    return st.fixed_dictionaries({
        'spec': gg.granules(shape),
        'file': st.integers(0, 5).map(lambda i: i == 5),
        'rev': st.sampled_from([None, None, 0, 1]),
    })


TESTS = [Test('hierarchy', hierarchy(), generic, quick=2000),
         Test('granule', granule_cases(), granule, quick=800),
         Test('large hierarchy', large(), generic_large, quick=32),
         Test('large granule', granule_cases(gg.shapes_large()), granule, quick=48)]
