"""Generation of lightning granules in the layout of GLM L2 LCFA files.

A granule is a JSON-able dict ("spec") of explicit encoded columns.  The tree
shape is drawn by Hypothesis (so failures shrink structurally), the bulk
columns come from a numpy generator seeded by a drawn integer.
"""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

EPOCH = np.datetime64('2000-01-01T12:00:00')
LL_SCALE = 0.00203128
HALF_FOV = 66.56
PIX = 37  # codes per ~8 km pixel

T_BASE = int((np.datetime64('2018-07-02T04:33:00') - EPOCH) / np.timedelta64(1, 's'))
T_SWITCH = int((np.datetime64('2018-10-15T00:00:00') - EPOCH) / np.timedelta64(1, 's'))
T_FIXEND = int((np.datetime64('2018-11-06T00:00:00') - EPOCH) / np.timedelta64(1, 's'))
T_YEAREND = int((np.datetime64('2019-12-31T23:59:40') - EPOCH) / np.timedelta64(1, 's'))
T_LEAP = int((np.datetime64('2024-02-29T23:59:40') - EPOCH) / np.timedelta64(1, 's'))
T_LATE = int((np.datetime64('2031-06-30T12:00:00') - EPOCH) / np.timedelta64(1, 's'))

SAT_LONS = [-75.2, -75.0, -89.5, -137.2, 0.0, 140.7, 179.6, -179.9]
PLATFORMS = {-75.2: ('G16', 'GOES-East', 'FM1'), -75.0: ('G19', 'GOES-East', 'FM4'),
             -89.5: ('G16', 'GOES-Test', 'FM1'), -137.2: ('G17', 'GOES-West', 'FM2'),
             -137.0: ('G18', 'GOES-West', 'FM3')}


def platform(spec):
    """Platform, orbital slot and instrument of a granule: one set for each place in orbit."""
    return PLATFORMS.get(spec['sat_lon'], ('G18', 'GOES-West', 'FM3'))


def seconds_to_dt64(s):
    return EPOCH + np.timedelta64(int(round(s * 1000)), 'ms')


def shapes(max_flashes=4, max_groups=3, max_events=4, min_flashes=1, min_events=1):
    """[[n_events per group] per flash]"""
    return st.lists(st.lists(st.integers(min_events, max_events), min_size=1,
                             max_size=max_groups),
                    min_size=min_flashes, max_size=max_flashes)


@st.composite
def shapes_mixed(draw, small=(4, 3, 4), big=(25, 8, 12), p_big=8, min_flashes=1):
    """Mostly small shapes, sometimes a big one made from a seed."""
    if draw(st.integers(0, p_big)) == p_big:
        rng = np.random.default_rng(draw(st.integers(0, 2**31)))
        nf = int(rng.integers(max(1, min_flashes), big[0] + 1))
        return [[int(rng.integers(1, big[2] + 1)) for _ in range(rng.integers(1, big[1] + 1))]
                for _ in range(nf)]
    return draw(shapes(*small, min_flashes=min_flashes))


@st.composite
def shapes_large(draw, flashes=300, most=400):
    """As large as real files: many flashes, or a flash and a group with many children."""
    kind = draw(st.sampled_from(['many', 'deep', 'wide']))
    rng = np.random.default_rng(draw(st.integers(0, 2**31)))
    nf = int(rng.integers(2, 6)) if kind != 'many' else int(rng.integers(flashes // 2, flashes + 1))
    shape = [[int(n) for n in np.minimum(rng.geometric(0.3, rng.geometric(0.2)), 40)]
             for _ in range(nf)]
    k = int(rng.integers(0, nf))
    n = int(rng.integers(most * 2 // 3, most + 1))
    if kind == 'deep':
        shape[k].insert(int(rng.integers(0, len(shape[k]) + 1)), n)
    elif kind == 'wide':
        shape[k] = [int(v) for v in np.minimum(rng.geometric(0.6, n), 5)]
    return shape


@st.composite
def shapes_crowded(draw):
    """Hundreds of flashes of a few events."""
    rng = np.random.default_rng(draw(st.integers(0, 2**31)))
    return [[int(n) for n in rng.integers(1, 3, size=int(rng.integers(1, 3)))]
            for _ in range(int(rng.integers(290, 420)))]


def make_ids(rng, n, style, top):
    """n distinct ids in [0, top]."""
    if style == 'seq0':
        return np.arange(n)
    if style == 'seq':
        return np.arange(n) + int(rng.integers(0, max(1, top - n)))
    if style == 'rev':
        return (np.arange(n) + int(rng.integers(0, max(1, top - n))))[::-1]
    if style == 'gaps':
        return np.cumsum(rng.integers(1, 50, size=n)) % (top + 1)
    if style == 'wrap':
        start = top - int(rng.integers(0, n + 1))
        return (start + np.arange(n)) % (top + 1)
    if style == 'cross':  # small range: ids of different levels collide
        return rng.permutation(n + 3)[:n]
    # 'rand'
    out, seen = [], set()
    while len(out) < n:
        v = int(rng.integers(0, top + 1))
        if v not in seen:
            seen.add(v)
            out.append(v)
    return np.asarray(out, dtype='i8')


ID_STYLES = ['seq0', 'seq', 'rev', 'gaps', 'wrap', 'cross', 'rand']
ORDERS = ['tree', 'shuffle', 'reverse']


def make_spec(shape, seed, id_style='seq0', order='tree', sat_lon=-75.2, t=T_BASE,
              spread='cluster', energy='mixed', area='mixed', area_units='km2',
              frame_vars=False, dur=20, max_group_id=2**32 - 1, max_flash_id=65535,
              e_scale=1.52597e-15, e_off=0.0, a_scale=0.15163901, a_off=63.095734,
              t_codes=(0, 9999), same_pixel=0.3, span=16000, cjit=0.01):
    rng = np.random.default_rng(seed)
    nf = len(shape)
    ng = sum(len(g) for g in shape)
    ne = sum(sum(g) for g in shape)
    f_id = make_ids(rng, nf, id_style, max_flash_id)
    g_id = make_ids(rng, ng, id_style, max_group_id)
    e_id = make_ids(rng, ne, id_style, max_group_id)
    g_par = np.repeat(np.arange(nf), [len(g) for g in shape]) if nf else np.zeros(0, int)
    e_par = np.repeat(np.arange(ng), [n for g in shape for n in g]) if ng else np.zeros(0, int)
    e_par = e_par.astype(int)

    c0 = 32768
    if spread == 'cluster':
        f_lat = c0 + rng.integers(-span, span + 1, size=nf)
        f_lon = c0 + rng.integers(-span, span + 1, size=nf)
        if nf and rng.random() < 0.5:  # flashes over each other
            f_lat[:] = f_lat[0] + PIX * rng.integers(-2, 3, size=nf)
            f_lon[:] = f_lon[0] + PIX * rng.integers(-2, 3, size=nf)
        ef = g_par[e_par] if ne else np.zeros(0, int)
        jit = rng.integers(-3, 4, size=(2, ne)) if rng.random() < 0.5 else np.zeros((2, ne), int)
        latc = f_lat[ef] + PIX * rng.integers(-3, 4, size=ne) + jit[0]
        lonc = f_lon[ef] + PIX * rng.integers(-3, 4, size=ne) + jit[1]
    elif spread == 'limb':  # flashes near the sides of the field of view, most beyond it
        far = rng.integers(0, 9000, size=nf)
        far = np.where(rng.random(nf) < 0.5, far, 65535 - far)
        near = c0 + rng.integers(-9000, 9001, size=nf)
        side = rng.random(nf) < 0.5
        f_lat, f_lon = np.where(side, far, near), np.where(side, near, far)
        ef = g_par[e_par] if ne else np.zeros(0, int)
        latc = f_lat[ef] + PIX * rng.integers(-3, 4, size=ne)
        lonc = f_lon[ef] + PIX * rng.integers(-3, 4, size=ne)
    elif spread == 'point':  # nearly all at one place
        latc = c0 + rng.integers(-span, span + 1) + np.where(rng.random(ne) < 0.9, 0, PIX)
        lonc = c0 + rng.integers(-span, span + 1) + np.where(rng.random(ne) < 0.95, 0, PIX)
    else:  # anywhere, including the corners of the field of view
        latc = rng.integers(0, 65536, size=ne)
        lonc = rng.integers(0, 65536, size=ne)
    if ne > 1:
        k = rng.random(ne) < same_pixel
        src = rng.integers(0, ne, size=ne)
        latc = np.where(k, latc[src], latc)
        lonc = np.where(k, lonc[src], lonc)
    latc = np.clip(latc, 0, 65535)
    lonc = np.clip(lonc, 0, 65535)

    def codes(n, style, top=65534):
        c = rng.integers(2, 60, size=n)
        if style == 'mixed':
            pal = np.array([0, 1, 2, 3, 100, 32766, 32767, 32768, 40000, top])
            k = rng.random(n) < 0.4
            c = np.where(k, pal[rng.integers(0, len(pal), size=n)], c)
        elif style == 'fill':
            pal = np.array([0, 1, 2, 32767, 32768, top, 65535])
            k = rng.random(n) < 0.6
            c = np.where(k, pal[rng.integers(0, len(pal), size=n)], c)
        elif style == 'uniform':
            c = rng.integers(0, top + 1, size=n)
        return np.minimum(c, max(top, 65535 if style == 'fill' else top))

    lat_off = -HALF_FOV
    lon_off = float(np.round(sat_lon - HALF_FOV, 6))
    lat = latc * LL_SCALE + lat_off
    lon = lonc * LL_SCALE + lon_off

    def mean_by(par, n, v):
        s = np.bincount(par, weights=v, minlength=n) if len(par) else np.zeros(n)
        c = np.bincount(par, minlength=n) if len(par) else np.zeros(n)
        return s / np.maximum(c, 1)

    g_lat = mean_by(e_par, ng, lat) + rng.normal(0, cjit, ng)
    g_lon = mean_by(e_par, ng, lon) + rng.normal(0, cjit, ng)
    ef = g_par[e_par] if ne else np.zeros(0, int)
    f_lat_d = mean_by(ef, nf, lat) + rng.normal(0, cjit, nf)
    f_lon_d = mean_by(ef, nf, lon) + rng.normal(0, cjit, nf)

    lo, hi = t_codes
    e_t = rng.integers(lo, hi + 1, size=ne)
    g_t = rng.integers(lo, hi + 1, size=ng)
    f_t0 = rng.integers(lo, hi + 1, size=nf)
    f_t1 = np.minimum(f_t0 + rng.integers(0, 400, size=nf), 32767 if hi <= 32767 else hi)

    flash = dict(id=f_id, lat=np.round(f_lat_d, 4), lon=np.round(f_lon_d, 4),
                 area=codes(nf, area), energy=codes(nf, energy), t0=f_t0, t1=f_t1)
    group = dict(id=g_id, parent=f_id[g_par] if ng else g_par, lat=np.round(g_lat, 4),
                 lon=np.round(g_lon, 4), area=codes(ng, area), energy=codes(ng, energy), t=g_t)
    event = dict(id=e_id, parent=g_id[e_par] if ne else e_par, latc=latc, lonc=lonc,
                 energy=codes(ne, energy), t=e_t)
    for tab in (flash, group, event):
        n = len(tab['id'])
        if order == 'shuffle':
            perm = rng.permutation(n)
        elif order == 'reverse':
            perm = np.arange(n)[::-1]
        else:
            perm = np.arange(n)
        for k in tab:
            tab[k] = np.asarray(tab[k])[perm].tolist()
    return dict(flash=flash, group=group, event=event, sat_lon=float(sat_lon), t=t, dur=dur,
                lat_off=lat_off, lon_off=lon_off, area_units=area_units,
                e_scale=e_scale, e_off=e_off, a_scale=a_scale, a_off=a_off,
                frame_vars=bool(frame_vars))


@st.composite
def granules(draw, shape=None, sat_lons=SAT_LONS, times=None, id_styles=ID_STYLES,
             orders=ORDERS, spreads=('cluster', 'cluster', 'anywhere'), **fixed):
    shp = draw(shape if shape is not None else shapes_mixed())
    t = draw(times if times is not None else st.sampled_from([T_BASE, T_BASE + 20, T_YEAREND,
                                                              T_SWITCH - 20, T_SWITCH, T_LEAP, T_LATE,
                                                              T_SWITCH + 86400 * 60]))
    kw = dict(id_style=draw(st.sampled_from(list(id_styles))),
              order=draw(st.sampled_from(list(orders))),
              sat_lon=draw(st.sampled_from(list(sat_lons))),
              spread=draw(st.sampled_from(list(spreads))))
    kw.update(fixed)
    return make_spec(shp, draw(st.integers(0, 2**31)), t=t, **kw)


def _i2(codes):
    return np.asarray(codes, dtype='i8').astype('u2').view('i2')


def _i4(codes):
    return np.asarray(codes, dtype='i8').astype('u4').view('i4')


def area_packing(spec, table):
    """Scale and offset of the stored areas. Groups may have their own."""
    if table == 'group' and 'group_a_packing' in spec:
        return tuple(spec['group_a_packing'])
    return spec['a_scale'], spec['a_off']


def energy_packing(spec, table):
    """Scale and offset of the stored energies. Groups and flashes may have their own."""
    if table != 'event' and 'parent_e_packing' in spec:
        return tuple(spec['parent_e_packing'])
    return spec['e_scale'], spec['e_off']


def to_raw(spec):
    """Encoded dataset, as stored in a file."""
    f, g, e = spec['flash'], spec['group'], spec['event']
    t0 = seconds_to_dt64(spec['t'])
    tunits = 'milliseconds since ' + str(t0.astype('M8[ms]')).replace('T', ' ')
    us = {'_Unsigned': 'true'}
    tat = dict(scale_factor=2.0, add_offset=0.0, units=tunits, long_name='time')
    if spec.get('t_unsigned', False):
        tat['_Unsigned'] = 'true'
    lat = dict(us, scale_factor=LL_SCALE, add_offset=spec['lat_off'], units='degrees_north')
    lon = dict(us, scale_factor=LL_SCALE, add_offset=spec['lon_off'], units='degrees_east')
    en = dict(us, _FillValue=np.int16(-1), scale_factor=spec['e_scale'],
              add_offset=spec['e_off'], units=spec.get('e_units', 'J'))
    ar = dict(us, _FillValue=np.int16(-1), scale_factor=spec['a_scale'],
              add_offset=spec['a_off'], units=spec['area_units'])
    gr_ar = dict(ar, units=spec.get('group_area_units', spec['area_units']))
    gr_ar['scale_factor'], gr_ar['add_offset'] = area_packing(spec, 'group')
    gf_en = dict(en)
    gf_en['scale_factor'], gf_en['add_offset'] = energy_packing(spec, 'group')
    E, Gd, F = 'number_of_events', 'number_of_groups', 'number_of_flashes'
    v = {}
    v['event_id'] = (E, _i4(e['id']), us)
    v['event_time_offset'] = (E, _i2(e['t']), tat)
    v['event_lat'] = (E, _i2(e['latc']), lat)
    v['event_lon'] = (E, _i2(e['lonc']), lon)
    v['event_energy'] = (E, _i2(e['energy']), en)
    v['event_parent_group_id'] = (E, _i4(e['parent']), us)
    v['group_id'] = (Gd, _i4(g['id']), us)
    v['group_time_offset'] = (Gd, _i2(g['t']), tat)
    if spec['frame_vars']:
        v['group_frame_time_offset'] = (Gd, _i2(g['t']), tat)
    v['group_lat'] = (Gd, np.asarray(g['lat'], 'f4'), {'units': 'degrees_north'})
    v['group_lon'] = (Gd, np.asarray(g['lon'], 'f4'), {'units': 'degrees_east'})
    v['group_area'] = (Gd, _i2(g['area']), gr_ar)
    v['group_energy'] = (Gd, _i2(g['energy']), gf_en)
    v['group_parent_flash_id'] = (Gd, _i2(g['parent']), us)
    v['group_quality_flag'] = (Gd, np.arange(len(g['id']), dtype='i2') % 4,
                               dict(us, _FillValue=np.int16(-1)))
    v['flash_id'] = (F, _i2(f['id']), us)
    v['flash_time_offset_of_first_event'] = (F, _i2(f['t0']), tat)
    v['flash_time_offset_of_last_event'] = (F, _i2(f['t1']), tat)
    if spec['frame_vars']:
        v['flash_frame_time_offset_of_first_event'] = (F, _i2(f['t0']), tat)
        v['flash_frame_time_offset_of_last_event'] = (F, _i2(f['t1']), tat)
    v['flash_lat'] = (F, np.asarray(f['lat'], 'f4'), {'units': 'degrees_north'})
    v['flash_lon'] = (F, np.asarray(f['lon'], 'f4'), {'units': 'degrees_east'})
    v['flash_area'] = (F, _i2(f['area']), ar)
    v['flash_energy'] = (F, _i2(f['energy']), gf_en)
    v['flash_quality_flag'] = (F, np.arange(len(f['id']), dtype='i2') % 4,
                               dict(us, _FillValue=np.int16(-1)))
    ptu = 'seconds since 2000-01-01 12:00:00'
    v['product_time'] = ((), np.float64(spec['t']), {'units': ptu, 'bounds': 'product_time_bounds'})
    v['product_time_bounds'] = ('number_of_time_bounds',
                                np.array([spec['t'], spec['t'] + spec['dur']], 'f8'), {'units': ptu})
    v['lat_field_of_view'] = ((), np.float32(0.0), {'units': 'degrees_north'})
    v['lon_field_of_view'] = ((), np.float32(spec['sat_lon']), {'units': 'degrees_east'})
    v['lat_field_of_view_bounds'] = ('number_of_field_of_view_bounds',
                                     np.array([66.56, -66.56], 'f4'), {})
    v['lon_field_of_view_bounds'] = ('number_of_field_of_view_bounds',
                                     np.array([-141.56, -8.44], 'f4'), {})
    v['lightning_wavelength'] = ((), np.float32(777.37), {'units': 'nm'})
    if spec.get('wavelength_bounds', False):
        v['lightning_wavelength_bounds'] = ('number_of_wavelength_bounds',
                                            np.array([777.2, 777.5], 'f4'), {'units': 'nm'})
    v['event_count'] = ((), np.int32(len(e['id'])), {'units': 'count'})
    v['group_count'] = ((), np.int32(len(g['id'])), {'units': 'count'})
    v['flash_count'] = ((), np.int32(len(f['id'])), {'units': 'count'})
    ds = xr.Dataset({k: ((d if isinstance(d, tuple) else (d,)), a, dict(at))
                     for k, (d, a, at) in v.items()})
    coords = {
        E: 'event_id event_time_offset event_lat event_lon event_parent_group_id',
        Gd: 'group_id group_time_offset group_lat group_lon group_parent_flash_id',
        F: 'flash_id flash_time_offset_of_first_event flash_time_offset_of_last_event '
           'flash_lat flash_lon',
    }
    scal = ' product_time lat_field_of_view lon_field_of_view lightning_wavelength'
    for name in ('event_energy', 'group_area', 'group_energy', 'flash_area', 'flash_energy'):
        ds[name].attrs['coordinates'] = coords[ds[name].dims[0]] + scal
    st0 = str(t0.astype('M8[ms]'))[:-2] + 'Z'
    te = seconds_to_dt64(spec['t'] + spec['dur'])
    sat, slot, instrument = platform(spec)
    ds.attrs = dict(dataset_name='OR_GLM-L2-LCFA_%s_synthetic.nc' % sat, platform_ID=sat,
                    orbital_slot=slot, instrument_ID=instrument, time_coverage_start=st0,
                    time_coverage_end=str(te.astype('M8[ms]'))[:-2] + 'Z')
    ds.attrs.update(spec.get('attrs', {}))
    return ds


def to_dataset(spec):
    """Decoded in-memory dataset, as open_dataset + load would give."""
    return xr.decode_cf(to_raw(spec)).load()


def to_file(spec, path):
    raw = to_raw(spec)
    for name in raw.variables:
        raw[name].encoding = {}
        if '_FillValue' not in raw[name].attrs:
            raw[name].encoding['_FillValue'] = None
    # attributes such as scale_factor are written as they are: the variables
    # are plain integers at this point
    raw.to_netcdf(path)
    return path


# ---- decoded columns, computed independently of xarray --------------------

def event_latlon(spec):
    e = spec['event']
    lat = np.asarray(e['latc'], 'f8') * LL_SCALE + spec['lat_off']
    lon = np.asarray(e['lonc'], 'f8') * LL_SCALE + spec['lon_off']
    return lat, lon


def decode_energy(spec, codes, table='event'):
    c = np.asarray(codes, 'f8')
    scale, off = energy_packing(spec, table)
    return np.where(c == 65535, np.nan, c * scale + off)


def decode_area(spec, codes, table='flash'):
    c = np.asarray(codes, 'f8')
    scale, off = area_packing(spec, table)
    return np.where(c == 65535, np.nan, c * scale + off)


def area_km2(spec, codes, units=None, table='flash'):
    """As documented for an opened file: fill replaced, unit km2."""
    c = np.asarray(codes, 'f8')
    scale, off = area_packing(spec, table)
    v = c * scale + off
    if (units or spec['area_units']) == 'm2':
        v = v / 1e6
    return v


def energy_nJ_events(spec):
    v = decode_energy(spec, spec['event']['energy'])
    m = spec['e_scale'] + spec['e_off']
    with np.errstate(invalid='ignore'):
        v = np.where(v < m * (1 - 1e-6), 0.5 * m, v)
    return v * 1e9


def signed16(codes):
    c = np.asarray(codes, 'i8')
    return np.where(c >= 32768, c - 65536, c)


def time64(spec, codes, unsigned=False):
    c = np.asarray(codes, 'i8') if unsigned else signed16(codes)
    return (seconds_to_dt64(spec['t']).astype('M8[ns]')
            + (c * 2).astype('m8[ms]').astype('m8[ns]'))


class Model:
    """Plain-Python view of the tree in a spec."""

    def __init__(self, spec):
        f, g, e = spec['flash'], spec['group'], spec['event']
        self.f_row = {i: r for r, i in enumerate(f['id'])}
        self.g_row = {i: r for r, i in enumerate(g['id'])}
        self.e_row = {i: r for r, i in enumerate(e['id'])}
        self.groups_of = {i: [] for i in f['id']}
        for r, p in enumerate(g['parent']):
            self.groups_of.setdefault(p, []).append(r)
        self.events_of_group = {i: [] for i in g['id']}
        for r, p in enumerate(e['parent']):
            self.events_of_group.setdefault(p, []).append(r)
        gp = dict(zip(g['id'], g['parent']))
        self.e_flash = [gp.get(p) for p in e['parent']]
        self.events_of_flash = {i: [] for i in f['id']}
        for r, p in enumerate(self.e_flash):
            self.events_of_flash.setdefault(p, []).append(r)
