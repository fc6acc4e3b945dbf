"""The place where a flash starts."""
import contextlib
import io
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import REPO, Test, expect, expect_equal

from glmtools.io.glm import GLMDataset

RULE = ('Files with frame times, 1-12 flashes of 1-8 groups in any row order and with any ids, '
        'group times far apart or with ties, in the signed range or beyond it, in and out of the affected period, opened whole or reduced to some of their flashes and '
        'opened again; the three ways of the example, in any order and repeatedly. '
        'Some files of up to 40 flashes or 400 groups of one flash. Non-trivial: a '
        'flash with several groups whose first row is not the earliest. Oracle: the position of '
        'a group of the flash with the smallest time, read from the codes as signed or (in the '
        'affected period) unsigned.')

_example = {}


def example():
    """The script as a module, up to where it reads a file of its author."""
    if not _example:
        path = os.path.join(REPO, 'examples', 'flash_init_dataset.py')
        with open(path) as f:
            code = compile(f.read(), path, 'exec')
        space = {'__name__': 'flash_init_dataset', '__file__': path}
        try:
            exec(code, space)
        except FileNotFoundError:
            pass
        _example.update(space)
    return _example


WAYS = ['printed', 'table', 'dataset']


@st.composite
def cases(draw, shape=None):
    spec = draw(gg.granules(shape=shape or gg.shapes_mixed(small=(4, 4, 2), big=(12, 8, 3)),
                            frame_vars=True,
                            t_codes=draw(st.sampled_from([(0, 9999), (0, 65535), (0, 3), (32760, 32775)]))))
    spec['wavelength_bounds'] = True
    n = len(spec['flash']['id'])
    keep = draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, n - 1), min_size=1,
                                                         max_size=6, unique=True)))
    return {'spec': spec, 'keep': keep,
            'ways': draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3))}


def large():
    # the way through the dataset takes milliseconds per flash
    return cases(gg.shapes_large(flashes=40))


def body(case, ctx):
    spec, ex = case['spec'], example()
    f, g = spec['flash'], spec['group']
    ids = list(f['id'])
    with ctx.sut('GLMDataset'):
        glm = GLMDataset(gg.to_file(spec, ctx.tmp + '/g.nc'))
        if case['keep'] is not None:
            ids = [f['id'][k] for k in case['keep']]
            glm = GLMDataset(glm.get_flashes(ids), check_area_units=False,
                             change_energy_units=False, fix_bad_DO07_times=False)
    t = gg.time64(spec, g['t'], gg.T_SWITCH <= spec['t'] <= gg.T_FIXEND - spec['dur'])
    starts = {}
    for i in ids:
        rows = [r for r, p in enumerate(g['parent']) if p == i]
        first = min(t[r] for r in rows)
        starts[i] = {(float(np.float32(g['lat'][r])), float(np.float32(g['lon'][r])))
                     for r in rows if t[r] == first}
        if t[rows[0]] > first:
            ctx.nontrivial = True

    def compare(got, way):
        expect_equal(sorted(i for i, _, _ in got), sorted(ids), 'flashes with a start (%s)' % way)
        for i, lat, lon in got:
            expect((lat, lon) in starts[i], 'the start of flash {} is {} instead of {} ({})',
                   i, (lat, lon), sorted(starts[i]), way)

    for way in case['ways']:
        ctx.label(way)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with ctx.sut(way):
                if way == 'printed':
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        ex['flash_init_manual'](glm)
                    lines = [ln.split(',') for ln in out.getvalue().split('\n') if ln.strip()]
                    got = [(int(a), float(np.float32(b)), float(np.float32(c)))
                           for a, b, c in lines]
                elif way == 'table':
                    t = ex['get_flash_init_data'](glm)
                    got = [(int(r['id']), float(r['lat']), float(r['lon'])) for r in t]
                else:
                    call = 'calculate_flash_init' if way == 'dataset' else 'add_flash_init_data'
                    ds = ex[call](glm)
                    got = [(int(a), float(b), float(c)) for a, b, c in
                           zip(ds.flash_id.data, ds.flash_init_lat.data, ds.flash_init_lon.data)]
                    for v in ('flash_lat', 'flash_lon', 'flash_energy', 'flash_area'):
                        w = dict(zip(glm.dataset.flash_id.data.tolist(), glm.dataset[v].data))
                        expect_equal(ds[v].data, np.array([w[i] for i, _, _ in got]), v)
        compare(got, way)


TESTS = [Test('starts', cases(), body, quick=200),
         Test('large', large(), body, quick=32)]
