"""Fixed grid coordinates of an opened file."""
import numpy as np
from hypothesis import strategies as st

from harness import geo
from harness import glmgen as gg
from harness.core import Test, expect, expect_close

from glmtools.io.glm import GLMDataset

RULE = ('Granules for satellites at twelve longitudes of up to three decimals, on both sides of the '
        'date line too, product times within a second of, and years away from, the ellipsoid change, '
        'revision default or requested, any row order, in memory or through a file. '
        'Some granules of hundreds of flashes or children of one parent. '
        'Non-trivial: at least two events at different places. Oracle: separately written '
        'projection; tolerance 1e-10 rad for events and 3e-7 rad for groups and flashes, whose '
        'positions are stored in single precision.')

def cases(shape=None):
    return st.fixed_dictionaries({
        'spec': gg.granules(
            shape,
            sat_lons=gg.SAT_LONS + [-75.0, 61.5, -80.25, -88.37, 104.666],
            times=st.one_of(
                st.sampled_from([gg.T_BASE, gg.T_SWITCH, gg.T_YEAREND, gg.T_LEAP, gg.T_LATE]),
                st.integers(-40, 40).map(lambda k: gg.T_SWITCH + k),
                st.sampled_from([-0.1, -0.9, 0.1]).map(lambda k: gg.T_SWITCH + k),
                st.integers(-600, 5000).map(lambda k: gg.T_SWITCH + 86400 * k + 43199))),
        'rev': st.sampled_from([None, None, -1, 0, 1]),
        'file': st.integers(0, 4).map(lambda i: i == 4),
    })


def body(case, ctx):
    spec = case['spec']
    src = gg.to_file(spec, ctx.tmp + '/g.nc') if case['file'] else gg.to_dataset(spec)
    kw = {} if case['rev'] is None else {'ellipse_rev': case['rev']}
    with ctx.sut('GLMDataset'):
        ds = GLMDataset(src, **kw).dataset
    rev = case['rev']
    if rev is None or rev < 0:
        rev = 1 if spec['t'] >= gg.T_SWITCH else 0
        ctx.label('inferred revision %d' % rev)
    else:
        ctx.label('requested')
    sat = float(np.float32(spec['sat_lon']))
    lat, lon = gg.event_latlon(spec)
    pos = {'event': (lon, lat, 1e-10)}
    for k in ('group', 'flash'):
        pos[k] = (np.asarray(spec[k]['lon'], 'f4'), np.asarray(spec[k]['lat'], 'f4'), 3e-7)
    for k, (lo, la, tol) in pos.items():
        x, y = geo.project(lo, la, sat, rev)
        expect(ds[k + '_x'].dims == ('number_of_' + {'event': 'events', 'group': 'groups',
                                                     'flash': 'flashes'}[k],), k + ' dimension')
        expect_close(ds[k + '_x'].data, x, k + '_x', rtol=0, atol=tol)
        expect_close(ds[k + '_y'].data, y, k + '_y', rtol=0, atol=tol)
    ds.close()
    e = spec['event']
    if len(set(zip(e['latc'], e['lonc']))) > 1:
        ctx.nontrivial = True


TESTS = [Test('granule', cases(), body, quick=700),
         Test('large', cases(gg.shapes_large()), body, quick=48)]
