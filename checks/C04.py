"""Energy and area normalisation on opening a file."""
import numpy as np
from hypothesis import strategies as st

from harness import glmgen as gg
from harness.core import Test, Violation, expect, expect_close, expect_equal

from glmtools.io.glm import GLMDataset

RULE = ('Granules with energy and area codes over the whole 16 bit range including 0, 1, the '
        'sign boundary, the largest code and the fill code, several scale/offset pairs, the same or not for events, groups and flashes, area in '
        'km2 or m2 separately for flashes and groups, every combination of the options, in '
        'memory or through a file. Some granules of hundreds of flashes or children of one parent. '
        'Non-trivial: an event at code 0, a missing area, or m2. '
        'Tolerance: relative 2e-6, the stored values being single precision.')
RT = 2e-6
VARS = ('flash_energy', 'group_energy', 'event_energy', 'flash_area', 'group_area')


@st.composite
def cases(draw, shape=None):
    e_scale, e_off = draw(st.sampled_from([(1.52597e-15, 0.0), (1.9024e-17, 2.8515e-16),
                                           (1.52597e-15, 3.0e-15), (2.0 ** -50, 0.0)]))
    a_scale, a_off = draw(st.sampled_from([(0.15163901, 63.095734), (1.0, 0.0), (152601.9, 0.0),
                                           (0.5, 10.0)]))
    spec = draw(gg.granules(shape, area=draw(st.sampled_from(['fill', 'mixed', 'uniform'])),
                            energy=draw(st.sampled_from(['mixed', 'uniform', 'fill'])),
                            e_scale=e_scale, e_off=e_off, a_scale=a_scale, a_off=a_off,
                            area_units=draw(st.sampled_from(['km2', 'm2']))))
    spec['group_area_units'] = draw(st.sampled_from(['km2', 'm2']))
    if draw(st.booleans()):
        spec['group_a_packing'] = draw(st.sampled_from([[0.3, 12.5], [25000.0, 1.0e7], [2.0, 0.0]]))
    if draw(st.booleans()):
        spec['parent_e_packing'] = draw(st.sampled_from([[2.0e-15, 0.0], [3.0e-16, 4.0e-15]]))
    return {'spec': spec, 'file': draw(st.integers(0, 3)) == 0,
            'area': draw(st.integers(0, 4)) > 0, 'energy': draw(st.integers(0, 4)) > 0,
            'tree': draw(st.booleans())}


def body(case, ctx):
    spec = case['spec']
    src = gg.to_file(spec, ctx.tmp + '/g.nc') if case['file'] else gg.to_dataset(spec)
    raw = gg.to_dataset(spec)
    kw = {}
    if not case['area']:
        kw['check_area_units'] = False
    if not case['energy']:
        kw['change_energy_units'] = False
    if not case['tree']:
        kw['check_tree'] = False
    with ctx.sut('GLMDataset'):
        glm = GLMDataset(src, **kw)
        ds = glm.dataset.load()
    f, g, e = spec['flash'], spec['group'], spec['event']
    want, units = {}, {}
    if case['energy']:
        want['event_energy'] = gg.energy_nJ_events(spec)
        want['group_energy'] = gg.decode_energy(spec, g['energy'], 'group') * 1e9
        want['flash_energy'] = gg.decode_energy(spec, f['energy'], 'flash') * 1e9
        for k in ('event', 'group', 'flash'):
            units[k + '_energy'] = 'nJ'
    else:
        want['event_energy'] = gg.decode_energy(spec, e['energy'])
        want['group_energy'] = gg.decode_energy(spec, g['energy'], 'group')
        want['flash_energy'] = gg.decode_energy(spec, f['energy'], 'flash')
        for k in ('event', 'group', 'flash'):
            units[k + '_energy'] = 'J'
    if case['area']:
        want['flash_area'] = gg.area_km2(spec, f['area'])
        want['group_area'] = gg.area_km2(spec, g['area'], spec['group_area_units'], 'group')
        units['flash_area'] = units['group_area'] = 'km2'
    else:
        want['flash_area'] = gg.decode_area(spec, f['area'])
        want['group_area'] = gg.decode_area(spec, g['area'], 'group')
        units['flash_area'], units['group_area'] = spec['area_units'], spec['group_area_units']
    for k in VARS:
        expect_close(ds[k].data, want[k], k, rtol=RT)
        expect(ds[k].attrs.get('units') == units[k], '{} units are {!r} instead of {!r}',
               k, ds[k].attrs.get('units'), units[k])
    if not case['energy'] or not case['area']:
        for k in VARS:
            if (k.endswith('energy') and not case['energy']) or \
                    (k.endswith('area') and not case['area']):
                expect_equal(ds[k].data, raw[k].data, k + ' with the option off')
    for name in raw.variables:
        if name not in VARS:
            expect(name in ds.variables, '{} disappeared', name)
            expect_equal(ds[name].data, raw[name].data, name)
    ds.close()
    if 0 in e['energy']:
        ctx.label('zero energy event')
        ctx.nontrivial = True
    if 65535 in f['area'] or 65535 in g['area']:
        ctx.label('missing area')
        ctx.nontrivial = True
    if 65535 in e['energy']:
        ctx.label('missing event energy')
    if 'm2' in (spec['area_units'], spec['group_area_units']):
        ctx.label('m2')
        ctx.nontrivial = True


@st.composite
def unit_cases(draw):
    spec = draw(gg.granules(shape=gg.shapes(2, 2, 2)))
    return {'spec': spec, 'which': draw(st.sampled_from(VARS[:3])),
            'units': draw(st.sampled_from(['nJ', 'W', 'joule', '1', 'kJ'])),
            'change': draw(st.booleans())}


def refuse(case, ctx):
    src = gg.to_dataset(case['spec'])
    src[case['which']].attrs['units'] = case['units']
    raw = src.copy(deep=True)
    if case['change']:
        try:
            GLMDataset(src)
        except ValueError:
            ctx.nontrivial = True
            return
        raise Violation('{} in {!r} was accepted'.format(case['which'], case['units']))
    with ctx.sut('GLMDataset'):
        ds = GLMDataset(src, change_energy_units=False).dataset
    for k in VARS[:3]:
        expect_equal(ds[k].data, raw[k].data, k)


TESTS = [Test('normalise', cases(), body, quick=1000),
         Test('large', cases(gg.shapes_large()), body, quick=48),
         Test('refuse', unit_cases(), refuse, quick=80)]
