"""Plots of single flashes."""
import re

import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, Violation, expect, expect_equal

from glmtools.io.glm import GLMDataset

RULE = ('Granules of 1-5 flashes (sometimes 25) with ids of every style and row order, plotted '
        'flash by flash (up to three of them) on new or given axes, with and without a '
        'projection; some flashes with hundreds of groups or events. Non-trivial: the '
        'granule has other flashes and the plotted flash has at least two groups and three '
        'events. Oracle: rows of the flash found by following ids; positions to single '
        'precision (1e-4 degrees), energies 2e-6 relative.')


@st.composite
def cases(draw, shape=None):
    spec = draw(gg.granules(shape=shape or gg.shapes_mixed(small=(5, 4, 5), p_big=12),
                            max_group_id=2 ** 31 - 1, spreads=('cluster',)))
    return {'spec': spec, 'plots': [[draw(st.integers(0, 1000)), draw(st.booleans()),
                                     draw(st.integers(0, 3)) == 0]
                                    for _ in range(draw(st.integers(1, 3)))]}


def match(got, want, what):
    """Multisets of (lon, lat, energy) agree."""
    expect_equal(len(got), len(want), what + ': markers')
    left = [tuple(map(float, p)) for p in got]
    for x, y, e in want:
        hit = [i for i, (a, b, c) in enumerate(left) if abs(a - x) <= 1e-4 and abs(b - y) <= 1e-4
               and abs(c - e) <= 2e-6 * abs(e)]
        expect(hit, '%s: none at %s, %s with energy %s', what, x, y, e)
        left.pop(hit[0])


ENERGIES = [1e-7, 1e-6, 1e-4]


def body(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    spec = case['spec']
    with ctx.sut('opening'):
        glm = GLMDataset(gg.to_dataset(spec))
    m = gg.Model(spec)
    shades = [one(ctx, spec, m, glm, *p) for p in case['plots']]
    for s in shades[1:]:
        expect(np.allclose(s, shades[0]), 'energies %s are shaded %s, and %s in the first plot',
               ENERGIES, s, shades[0])
    if len(shades) > 1:
        ctx.label('several plots')


def one(ctx, spec, m, glm, which, with_axes, with_proj):
    import matplotlib.pyplot as plt
    from matplotlib.transforms import Affine2D
    from glmtools.plot.locations import plot_flash
    fid = spec['flash']['id'][which % len(spec['flash']['id'])]
    ax = plt.figure().add_subplot(111) if with_axes or with_proj else None
    kw = {}
    if with_proj:
        # a map whose coordinates are shifted and stretched
        kw['proj'] = Affine2D().scale(2, 3).translate(7, -5) + ax.transData
    try:
        with ctx.sut('plot_flash'):
            out = plot_flash(glm, fid, ax=ax, **kw)
        if ax is not None:
            expect(out is ax, 'drawn on other axes')
        sets = [np.ma.filled(c.get_offsets(), np.nan) for c in out.collections]
        energy = [c.get_array() for c in out.collections]
        title = out.get_title()
        # where a marker at (1, 2) would be on the axes, and the shade of some energies
        place = [out.transData.inverted().transform(c.get_offset_transform().transform((1, 2)))
                 for c in out.collections]
        shade = [c.norm(np.array(ENERGIES)) for c in out.collections
                 if c.get_array() is not None]
    finally:
        plt.close('all')
    lat, lon = gg.event_latlon(spec)
    f, g = spec['flash'], spec['group']
    ee, ge = (glm.dataset[k + '_energy'].data.astype('f8') for k in ('event', 'group'))
    want_e = [(lon[r], lat[r], ee[r]) for r in range(len(lon)) if m.e_flash[r] == fid]
    want_g = [(g['lon'][r], g['lat'][r], ge[r]) for r in range(len(g['id']))
              if g['parent'][r] == fid]
    r = f['id'].index(fid)
    expect_equal(sum(len(s) for s in sets), len(want_e) + len(want_g) + 1, 'markers in all')
    expect_equal(len(sets), 3, 'sets of markers')
    plain = [k for k, e in enumerate(energy) if e is None]
    expect_equal(len(plain), 1, 'sets without energies')
    match([(x, y, 0) for x, y in sets[plain[0]]], [(f['lon'][r], f['lat'][r], 0)], 'flash')
    rest = [[(x, y, e) for (x, y), e in zip(sets[k], np.ma.filled(energy[k], np.nan))]
            for k in range(3) if k != plain[0]]
    # either set may hold the groups
    try:
        match(rest[0], want_g, 'groups')
        match(rest[1], want_e, 'events')
    except Violation as first:
        try:
            match(rest[1], want_g, 'groups')
            match(rest[0], want_e, 'events')
        except Violation:
            raise first
    want = (9, 1) if with_proj else (1, 2)
    for p in place:
        expect(np.allclose(p, want, atol=1e-6), 'markers for (1, 2) are at %s instead of %s', p,
               want)
    expect(np.allclose(shade[0], shade[1]), 'groups and events are shaded on different scales')
    times = [np.datetime64(t) for t in re.findall(r'\d{4}-\d\d-\d\dT[0-9:.]+', title)]
    ds = glm.dataset
    span = [ds['flash_time_offset_of_%s_event' % k].data[r] for k in ('first', 'last')]
    expect(len(times) == 2 and all(abs(a - b) < np.timedelta64(1, 'us')
                                   for a, b in zip(times, span)),
           'the title %r does not give the times %s', title, span)
    expect(str(fid) in title, 'the title %r does not name flash %s', title, fid)
    ctx.label('given axes' if ax is not None else 'new axes')
    ctx.nontrivial |= len(f['id']) > 1 and len(want_g) > 1 and len(want_e) > 2
    return shade[0]


TESTS = [Test('plot', cases(), body, quick=480),
         Test('large', cases(gg.shapes_large(30, 300)), body, quick=32)]
