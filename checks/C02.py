"""Selecting entities of a hierarchy."""
import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, expect, expect_equal
from checks import C01

from glmtools.io.traversal import OneToManyTraversal
from glmtools.io.glm import GLMDataset

RULE = ('Hierarchies as for C01 and lightning granules; selections of 0-8 ids at any level, '
        'mixing existing and missing ids, in any order and with repeats; several requests of one opened '
        'granule or hierarchy, at several levels and with the order reversed. Some as large as for C01. '
        'Non-trivial: the '
        'selection keeps at least one and drops at least one row of the selected level. '
        'Oracle: selection by following ids in plain Python.')


@st.composite
def reduce_cases(draw):
    h = draw(C01.hierarchy())
    k = draw(st.integers(0, len(h['levels']) - 1))
    more = []
    for _ in range(draw(st.integers(0, 2))):
        j = draw(st.integers(0, len(h['levels']) - 1))
        more.append([j, draw(selection(h['levels'][j]['id']))])
    return {'h': h, 'level': k, 'sel': draw(selection(h['levels'][k]['id'])), 'more': more}


@st.composite
def selection(draw, ids):
    sel = []
    if ids and draw(st.integers(0, 3)) == 0:  # everything, permuted
        rng = np.random.default_rng(draw(st.integers(0, 2**31)))
        sel = [ids[int(i)] for i in rng.permutation(len(ids))]
    else:
        if ids:
            sel = draw(st.lists(st.sampled_from(ids), min_size=draw(st.integers(0, 3)), max_size=8))
        if not draw(st.booleans()):
            # keep each id once
            sel = list(dict.fromkeys(sel))
    if draw(st.integers(0, 2)) == 0:
        have = set(ids)
        extra = draw(st.lists(st.integers(0, 2**16 - 1), min_size=1, max_size=3))
        for x in extra:
            while x in have:
                x = x + 1
            sel.insert(draw(st.integers(0, len(sel))), x)
    return sel


def follow(levels, k, sel):
    """Rows retained per level: list at/below k in order (None = any order)."""
    row_of = {i: r for r, i in enumerate(levels[k]['id'])}
    keep = {k: [row_of[i] for i in sel if i in row_of]}
    ids = set(levels[k]['id'][r] for r in keep[k])
    for j in range(k + 1, len(levels)):
        keep[j] = [r for r, p in enumerate(levels[j]['parent']) if p in ids]
        ids = set(levels[j]['id'][r] for r in keep[j])
    have = set(levels[k]['id'][r] for r in keep[k])
    for j in range(k - 1, -1, -1):
        par = dict(zip(levels[j + 1]['id'], levels[j + 1]['parent']))
        want = set(par[i] for i in have)
        keep[j] = [r for r, i in enumerate(levels[j]['id']) if i in want]
        have = want
    return keep


def compare(ctx, levels, ent, k, sel, src, got):
    """got is the reduced dataset; src the dataset before the call."""
    keep = follow(levels, k, sel)
    repeats = len(set(sel)) < len(sel)
    for j, row in enumerate(levels):
        dim = src[ent[j]].dims[0]
        gid = got[ent[j]].data.tolist()
        want = [row['id'][r] for r in keep[j]]
        if j == k:
            expect_equal(gid, want, '{} selected'.format(ent[j]))
        elif repeats and j > k:
            expect(set(gid) == set(want), '{}: got {} instead of {}',
                   ent[j], sorted(set(gid))[:20], sorted(set(want))[:20])
        else:
            expect(sorted(gid) == sorted(want), '{}: got {} instead of {}',
                   ent[j], sorted(gid)[:20], sorted(want)[:20])
        # every variable along this dimension still belongs to its row
        row_of = {i: r for r, i in enumerate(row['id'])}
        rows = [row_of[i] for i in gid]
        for name in src.variables:
            if dim in src[name].dims:
                expect(name in got.variables, '{} disappeared', name)
                expect_equal(got[name].data, src[name].data[rows], name)
    for name in src.variables:
        if not any(src[e].dims[0] in src[name].dims for e in ent):
            expect_equal(got[name].data, src[name].data, name)
    n, m = len(levels[k]['id']), len(set(keep[k]))
    if 0 < m < n:
        ctx.nontrivial = True
    if m == 0:
        ctx.label('nothing kept')
    if repeats:
        ctx.label('repeats')
    if len(keep[k]) < len(sel):
        ctx.label('missing ids')


def generic(case, ctx):
    ds, ent, par = C01.build(case['h'])
    ds['scalar'] = 7.5
    ds['other'] = ('n_other', np.arange(4))
    before = ds.copy(deep=True)
    lv, k = case['h']['levels'], case['level']
    with ctx.sut('reduce_to_entities'):
        trav = OneToManyTraversal(ds, ent, par)
        got = trav.reduce_to_entities(ent[k], case['sel'])
        got2 = trav.reduce_to_entities(ent[k], case['sel'])
    compare(ctx, lv, ent, k, case['sel'], before, got)
    expect(got.identical(got2), 'the second identical selection differs')
    for j, sel in case.get('more', []) + [[k, case['sel'][::-1]]]:
        with ctx.sut('reduce_to_entities again'):
            again = trav.reduce_to_entities(ent[j], sel)
        compare(ctx, lv, ent, j, sel, before, again)
    expect(ds.identical(before), 'the source dataset was modified')
    ctx.label('level %d of %d' % (k, len(lv)))


def flashes(case, ctx):
    spec, sel = case['spec'], case['sel']
    with ctx.sut('GLMDataset'):
        glm = GLMDataset(gg.to_dataset(spec))
    before = glm.dataset.copy(deep=True)
    with ctx.sut('get_flashes'):
        got = glm.get_flashes(sel)
    levels = [spec['flash'], spec['group'], spec['event']]
    compare(ctx, levels, ['flash_id', 'group_id', 'event_id'], 0, sel, before, got)
    expect(glm.dataset.identical(before), 'the source dataset was modified')
    if sel:
        with ctx.sut('get_flashes on one flash'):
            one = glm.get_flashes(sel[:1])
            back = glm.get_flashes(sel[::-1])
        compare(ctx, levels, ['flash_id', 'group_id', 'event_id'], 0, sel[:1], before, one)
        compare(ctx, levels, ['flash_id', 'group_id', 'event_id'], 0, sel[::-1], before, back)
    k = case['level']
    if k:
        ent = ['flash_id', 'group_id', 'event_id'][k]
        ids = levels[k]['id']
        pick = [ids[i % len(ids)] for i in case['pick']]
        pick = list(dict.fromkeys(pick))
        with ctx.sut('reduce_to_entities ' + ent):
            got = glm.reduce_to_entities(ent, pick)
        compare(ctx, levels, ['flash_id', 'group_id', 'event_id'], k, pick, before, got)


@st.composite
def large_cases(draw):
    c = draw(C01.large())
    return dict(c, level=draw(st.integers(0, c['n_levels'] - 1)), n=draw(st.integers(0, 70000)))


def generic_large(case, ctx):
    h = C01.make_large(case)
    ids = h['levels'][case['level']]['id']
    rng = np.random.default_rng(case['seed'] + 1)
    sel = [ids[i] for i in rng.permutation(len(ids))[:case['n'] % len(ids) + 1]]
    generic({'h': h, 'level': case['level'], 'sel': sel}, ctx)


@st.composite
def flash_cases(draw, shape=None):
    spec = draw(gg.granules(shape))
    return {'spec': spec, 'sel': draw(selection(spec['flash']['id'])),
            'level': draw(st.integers(0, 2)),
            'pick': draw(st.lists(st.integers(0, 10000), min_size=1, max_size=6))}


TESTS = [Test('reduce', reduce_cases(), generic, quick=1600),
         Test('flashes', flash_cases(), flashes, quick=500),
         Test('large reduce', large_cases(), generic_large, quick=32),
         Test('large flashes', flash_cases(gg.shapes_large()), flashes, quick=48)]
