"""Diagnosis and repair of inconsistent parent-child links."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, expect, expect_equal
from checks import C01

from glmtools.io.traversal import OneToManyTraversal
from glmtools.io.glm import GLMDataset

RULE = ('Hierarchies and granules with rows deleted or re-parented to ids that do not exist at '
        'any level, any number of times, including none. Some granules of hundreds of flashes or children of one parent. '
        'Non-trivial: at least one fault is '
        'present (diagnosis) or a fault is present and some flash survives (repair). Oracle: '
        'set algebra on the ids.')


@st.composite
def broken_hierarchy(draw):
    h = draw(C01.hierarchy())
    top = C01.TOPS[h['dtype']]
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, len(h['levels']) - 1))
        row = h['levels'][k]
        n = len(row['id'])
        if n == 0:
            continue
        r = draw(st.integers(0, n - 1))
        if draw(st.booleans()) and n > 1:
            for c in row:
                del row[c][r]
        elif 'parent' in row:
            row['parent'][r] = draw(st.integers(0, min(top, n + 5)))
    return h


def diagnose(case, ctx):
    ds, ent, par = C01.build(case)
    lv = case['levels']
    with ctx.sut('check_parent_child'):
        es, ps = OneToManyTraversal(ds, ent, par).check_parent_child()
    L = len(lv)
    expect(set(es) == set(ent[:-1]), 'levels reported: {}', sorted(es))
    expect(set(ps) == set(par), 'parent variables reported: {}', sorted(ps))
    bad = 0
    for k in range(L - 1):
        ids, refs = set(lv[k]['id']), set(lv[k + 1]['parent'])
        want = (len(ids), len(ids - refs), ids - refs)
        got = es[ent[k]]
        expect((got[0], got[1]) == want[:2] and set(int(i) for i in got[2]) == want[2],
               '{}: got {} instead of {}', ent[k], got, want)
        want = (len(refs), len(refs - ids), refs - ids)
        got = ps[par[k]]
        expect((got[0], got[1]) == want[:2] and set(int(i) for i in got[2]) == want[2],
               '{}: got {} instead of {}', par[k], got, want)
        bad += len(ids ^ refs)
    if bad:
        ctx.nontrivial = True


def keep_rows(tab, rows):
    for c in tab:
        tab[c] = [tab[c][r] for r in rows]


def drop_children(spec, name, which):
    ids = spec[name]['id']
    if len(ids) < 2:
        return
    lost = {ids[which % len(ids)]}
    for child in {'flash': ('group', 'event'), 'group': ('event',)}[name]:
        tab = spec[child]
        gone = [p in lost for p in tab['parent']]
        if all(gone):
            return
        lost = {i for i, x in zip(tab['id'], gone) if x}
        keep_rows(tab, [r for r, x in enumerate(gone) if not x])


@st.composite
def broken_granule(draw, shape=None):
    spec = draw(gg.granules(shape=shape or gg.shapes_mixed(big=(12, 5, 5))))
    if draw(st.integers(0, 2)) == 0:
        # a parent left without children, all links otherwise sound
        for _ in range(draw(st.integers(1, 2))):
            drop_children(spec, draw(st.sampled_from(['flash', 'flash', 'group'])),
                          draw(st.integers(0, 1000)))
        return {'spec': spec, 'file': draw(st.integers(0, 5)) == 0}
    for _ in range(draw(st.integers(0, 4))):
        name = draw(st.sampled_from(['flash', 'group', 'event']))
        tab = spec[name]
        n = len(tab['id'])
        if n < 1:
            continue
        r = draw(st.integers(0, n - 1))
        if name == 'flash' or draw(st.booleans()):
            if n > 1:
                for c in tab:
                    del tab[c][r]
        else:
            up = set(spec['flash' if name == 'group' else 'group']['id'])
            p = draw(st.integers(0, 65535))
            while p in up:
                p = (p + 1) % 65536
            tab['parent'][r] = p
    return {'spec': spec, 'file': draw(st.integers(0, 5)) == 0}


def repair(case, ctx):
    spec = case['spec']
    src = gg.to_file(spec, ctx.tmp + '/g.nc') if case['file'] else gg.to_dataset(spec)
    raw = gg.to_dataset(spec)
    f, g, e = spec['flash'], spec['group'], spec['event']
    m = gg.Model(spec)
    gids = set(g['id'])
    consistent = (set(f['id']) == set(g['parent']) and gids == set(e['parent']))
    with ctx.sut('GLMDataset'):
        glm = GLMDataset(src)
    ds = glm.dataset
    keep_f = [i for i in f['id'] if m.groups_of[i]]
    kf = set(keep_f)
    keep_g = [i for i, p in zip(g['id'], g['parent']) if p in kf]
    kg = set(keep_g)
    keep_e = [i for i, p in zip(e['id'], e['parent']) if p in kg]
    got = {k: ds[k + '_id'].data.tolist() for k in ('flash', 'group', 'event')}
    for k, want in (('flash', keep_f), ('group', keep_g), ('event', keep_e)):
        if consistent:
            expect_equal(got[k], want, k + ' ids of a consistent file')
        else:
            expect(sorted(got[k]) == sorted(want), '{} ids: got {} instead of {}',
                   k, sorted(got[k])[:20], sorted(want)[:20])
    rows = {'number_of_flashes': [m.f_row[i] for i in got['flash']],
            'number_of_groups': [m.g_row[i] for i in got['group']],
            'number_of_events': [m.e_row[i] for i in got['event']]}
    for name in raw.variables:
        if name in ('event_energy', 'group_energy', 'flash_energy', 'group_area', 'flash_area'):
            continue
        d = raw[name].dims
        if d and d[0] in rows:
            expect_equal(ds[name].data, raw[name].data[rows[d[0]]], name)
        else:
            expect_equal(ds[name].data, raw[name].data, name)
    # derived variables describe the repaired tree
    gpar = dict(zip(g['id'], g['parent']))
    ef = [gpar[e['parent'][r]] for r in rows['number_of_events']]
    expect_equal(ds.event_parent_flash_id.data, ef, 'event_parent_flash_id')
    expect_equal(ds.flash_child_event_count.data, [ef.count(i) for i in got['flash']],
                 'flash_child_event_count')
    gp = ds.group_parent_flash_id.data.tolist()
    ep = ds.event_parent_group_id.data.tolist()
    expect_equal(ds.flash_child_group_count.data, [gp.count(i) for i in got['flash']],
                 'flash_child_group_count')
    expect_equal(ds.group_child_event_count.data, [ep.count(i) for i in got['group']],
                 'group_child_event_count')
    ds.close()
    if not consistent:
        ctx.label('inconsistent')
        if keep_f:
            ctx.nontrivial = True
        else:
            ctx.label('nothing left')
    if set(g['parent']) - set(f['id']):
        ctx.label('orphan group')
    if set(e['parent']) - gids:
        ctx.label('orphan event')
    if set(f['id']) - set(g['parent']):
        ctx.label('childless flash')
    if gids - set(e['parent']):
        ctx.label('childless group')


TESTS = [Test('diagnose', broken_hierarchy(), diagnose, quick=1600),
         Test('repair', broken_granule(), repair, quick=800),
         Test('large repair', broken_granule(gg.shapes_large()), repair, quick=48)]
