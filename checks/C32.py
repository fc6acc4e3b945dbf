"""Conversion of text listings."""
import os
import runpy
import sys
import warnings

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, expect, expect_close, expect_equal
from checks.C02 import follow

RULE = ('Listings of 1-4 flashes (sometimes 25) with any number of groups and events, ids in any '
        'order and crossing levels, parents listed before children or levels interleaved, blank '
        'and unrelated lines, fixed, exponent and negative numbers, all columns with values of '
        'their own. Also childless flashes and groups, empty listings, and listings '
        'of up to 120 flashes or 400 children of one parent. '
        'Converted by a call or by the program. '
        'Non-trivial: at least two flashes and three groups. Oracle: the values '
        'written, in listing order.')

NAMES = {
    'flash': {'id': 'flash_id', 't0': 'flash_time_offset_of_first_event',
              't1': 'flash_time_offset_of_last_event', 'lat': 'flash_lat', 'lon': 'flash_lon',
              'energy': 'flash_energy', 'area': 'flash_area', 'count': 'flash_child_group_count'},
    'group': {'id': 'group_id', 't0': 'group_time_offset', 'lat': 'group_lat', 'lon': 'group_lon',
              'energy': 'group_energy', 'area': 'group_area', 'parent': 'group_parent_flash_id',
              'count': 'group_child_event_count'},
    'event': {'id': 'event_id', 't0': 'event_time_offset', 'x': 'x_pixel', 'y': 'y_pixel',
              'lat': 'event_lat', 'lon': 'event_lon', 'energy': 'event_energy',
              'parent': 'event_parent_group_id'}}
WHOLE = {'id', 'count', 'parent', 'x', 'y'}


@st.composite
def cases(draw, shape=gg.shapes_mixed(p_big=20)):
    return {'shape': draw(shape), 'seed': draw(st.integers(0, 2 ** 31)),
            'ids': draw(st.sampled_from(gg.ID_STYLES)),
            'order': draw(st.sampled_from(['nested', 'nested', 'mixed', 'levels'])),
            'noise': draw(st.booleans()), 'e_fmt': draw(st.sampled_from(['%.3e', '%.6e', '%g'])),
            'f_fmt': draw(st.sampled_from(['%.3f', '%.6f', '%.1f', '%d', '%+.3f'])),
            'end': draw(st.booleans()), 'program': draw(st.booleans())}


def listing(case):
    """Lines and the rows they stand for."""
    rng = np.random.default_rng(case['seed'])
    shape = case['shape']
    nf, ng = len(shape), sum(len(f) for f in shape)
    ne = sum(sum(f) for f in shape)
    fid, gid, eid = (gg.make_ids(rng, n, case['ids'], 60000) for n in (nf, ng, ne))

    def num(lo, hi, fmt=None):
        text = (fmt or case['f_fmt']) % rng.uniform(lo, hi)
        return text, float(text)

    def energy():
        return num(1e-16, 9e-13, case['e_fmt'])

    rows = []
    g = e = 0
    for f, groups in enumerate(shape):
        v = {'t0': num(5e8, 6e8), 't1': num(5e8, 6e8), 'lat': num(-60, 60), 'lon': num(-180, 180),
             'energy': energy(), 'area': num(10, 9000)}
        text = ('D Flash #%d Start Time:%s End Time:%s Centroid Lat:%s Centroid Lon:%s Energy:%s '
                'Footprint:%s Child_Count:%d' % ((fid[f],) + tuple(
                    v[k][0] for k in ('t0', 't1', 'lat', 'lon', 'energy', 'area'))
                    + (len(groups),)))
        rows.append(('flash', text, dict({k: w[1] for k, w in v.items()}, id=int(fid[f]),
                                         count=len(groups))))
        for gc, n in enumerate(groups):
            v = {'t0': num(5e8, 6e8), 't1': num(5e8, 6e8), 'lat': num(-60, 60),
                 'lon': num(-180, 180), 'energy': energy(), 'area': num(10, 9000)}
            text = ('\tD Group #%d Child #%d Start Time:%s End Time:%s Centroid Lat:%s Centroid '
                    'Lon:%s Energy:%s Footprint:%s Parent_ID:%d Child_Count:%d'
                    % ((gid[g], gc) + tuple(v[k][0] for k in ('t0', 't1', 'lat', 'lon', 'energy',
                                                              'area')) + (fid[f], n)))
            rows.append(('group', text, dict({k: w[1] for k, w in v.items()}, id=int(gid[g]),
                                             parent=int(fid[f]), count=n)))
            for ec in range(n):
                v = {'t0': num(5e8, 6e8), 'lat': num(-60, 60), 'lon': num(-180, 180),
                     'energy': energy()}
                x, y = int(rng.integers(0, 1372)), int(rng.integers(0, 1300))
                text = ('\t\tEvent #%d Child #%d Time:%s X_Pixel:%d Y_Pixel:%d Lat:%s Lon:%s '
                        'Energy:%s Parent_ID:%d' % (eid[e], ec, v['t0'][0], x, y, v['lat'][0],
                                                    v['lon'][0], v['energy'][0], gid[g]))
                rows.append(('event', text, dict({k: w[1] for k, w in v.items()}, id=int(eid[e]),
                                                 parent=int(gid[g]), x=x, y=y)))
                e += 1
            g += 1
    if case['order'] == 'mixed':
        rows = [rows[i] for i in rng.permutation(len(rows))]
    elif case['order'] == 'levels':
        rows.sort(key=lambda r: r[0])
    lines = []
    for _, text, _ in rows:
        lines.append(text)
        if case['noise'] and rng.random() < 0.2:
            lines.append(['', 'LCFA output', '# Flash #3 is followed by D Group #4'][
                int(rng.integers(0, 3))])
    return '\n'.join(lines) + ('\n' if case['end'] else ''), {
        k: [r for q, _, r in rows if q == k] for k in NAMES}


def compare(get, rows, what):
    for level, names in NAMES.items():
        for key, name in names.items():
            got = np.asarray(get(level, name))
            want = np.array([r[key] for r in rows[level]])
            if key in WHOLE:
                expect_equal(got, want, what + ': ' + name)
            else:
                expect_close(got.astype('f8'), want, what + ': ' + name, 1e-12)


def body(case, ctx):
    from glmtools.io.convert_lcfa import main, merge_dataframes_to_xarray, parse_LCFA_ASCII
    from glmtools.io.traversal import OneToManyTraversal
    text, rows = listing(case)
    src, dst = os.path.join(ctx.tmp, 'l.txt'), os.path.join(ctx.tmp, 'l.nc')
    with open(src, 'w') as f:
        f.write(text)
    with ctx.sut('parse_LCFA_ASCII'):
        fl, gr, ev = parse_LCFA_ASCII(src)
    tables = {'flash': fl, 'group': gr, 'event': ev}
    compare(lambda level, name: tables[level][name], rows, 'table')
    with ctx.sut('merge_dataframes_to_xarray'):
        ds = merge_dataframes_to_xarray(fl, gr, ev)
    with ctx.sut('main'):
        if case['program']:   # as from a command line
            argv = sys.argv
            sys.argv = ['convert_lcfa.py', src, dst]
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')   # the module is imported already
                    runpy.run_module('glmtools.io.convert_lcfa', run_name='__main__')
            finally:
                sys.argv = argv
        else:
            main(src, dst)
    with xr.open_dataset(dst, decode_times=False) as saved:
        saved.load()
    levels = [{'id': [r['id'] for r in rows[k]], 'parent': [r.get('parent') for r in rows[k]]}
              for k in ('flash', 'group', 'event')]
    for d, what in ((ds, 'dataset'), (saved, 'file')):
        compare(lambda level, name: d[name].data, rows, what)
        for level, names in NAMES.items():
            for key, name in names.items():
                expect_equal(d[name].dims, ('number_of_%s' % {
                    'flash': 'flashes', 'group': 'groups', 'event': 'events'}[level],),
                    'dimensions of ' + name)
                coord = key in ('id', 'parent', 't0', 't1', 'lat', 'lon')
                expect(name in (d.coords if coord else d.data_vars), '%s: %s is %sa coordinate',
                       what, name, 'not ' if coord else '')
        with ctx.sut('traversal of the ' + what):
            trav = OneToManyTraversal(d, ['flash_id', 'group_id', 'event_id'],
                                      ['group_parent_flash_id', 'event_parent_group_id'])
            sel = levels[0]['id'][-1:]
            sub = trav.reduce_to_entities('flash_id', sel)
            counts = trav.count_children('flash_id', 'event_id')
            par = trav.replicate_parent_ids('flash_id', 'event_parent_group_id')
        keep = follow(levels, 0, sel)
        for k, name in enumerate(('flash_id', 'group_id', 'event_id')):
            expect_equal(sorted(sub[name].data.tolist()),
                         sorted(levels[k]['id'][r] for r in keep[k]), '%s: %s of flash %s' % (
                             what, name, sel))
        flash_of = dict(zip(levels[1]['id'], levels[1]['parent']))
        expect_equal(np.asarray(par), [flash_of[p] for p in levels[2]['parent']],
                     what + ': flash ids of events')
        expect_equal(np.asarray(counts[0]), [r['count'] for r in rows['flash']],
                     what + ': groups per flash')
        expect_equal(np.asarray(counts[1]), [r['count'] for r in rows['group']],
                     what + ': events per group')
    ctx.label(case['order'])
    ctx.nontrivial = len(rows['flash']) > 1 and len(rows['group']) > 2


# also flashes without groups, groups without events and nothing at all
sparse = st.lists(st.lists(st.integers(0, 2), max_size=3), max_size=4)

TESTS = [Test('listings', cases(), body, quick=480),
         Test('sparse', cases(sparse), body, quick=96),
         Test('large', cases(gg.shapes_large(120)), body, quick=32)]
