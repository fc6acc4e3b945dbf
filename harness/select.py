"""Which flashes meet selection criteria, written out per flash."""
from harness import glmgen as gg

FOV = 0.1349   # half width of the field of view used by the event check, radians


def ranges(ds, wanted, pick):
    """Turn {'lon': [[kind, i], [kind, i]]} into keyword ranges."""
    kw = {}
    for k, ends in wanted.items():
        a = sorted(ds['flash_' + k].data.astype('f8').tolist())
        vals = []
        for kind, i in ends:
            j = pick(i, len(a))
            if kind == 'between':
                hi = a[min(j + 1, len(a) - 1)]
                vals.append(0.5 * (a[j] + hi) if hi > a[j] else a[j] - 0.001)
            elif kind == 'below':
                vals.append(-1000.0)
            else:
                vals.append(1000.0)
        kw[k + '_range'] = tuple(sorted(vals))
    return kw


def keep_flashes(spec, ds, lon_range=None, lat_range=None, x_range=None, y_range=None,
                 min_events=None, min_groups=None):
    """Ids of kept flashes, in file order."""
    m = gg.Model(spec)
    f = {k: ds['flash_' + k].data.astype('f8') for k in ('lon', 'lat', 'x', 'y')}
    ex, ey = ds.event_x.data.astype('f8'), ds.event_y.data.astype('f8')
    every = all(v is None for v in (lon_range, lat_range, x_range, y_range, min_events,
                                    min_groups))
    out = []
    for r, fid in enumerate(spec['flash']['id']):
        ok = True
        for k, lim in (('lon', lon_range), ('lat', lat_range), ('x', x_range), ('y', y_range)):
            if lim is not None:
                ok &= bool(lim[0] < f[k][r] < lim[1])
        if min_events is not None:
            ok &= len(m.events_of_flash[fid]) >= min_events
        if min_groups is not None:
            ok &= len(m.groups_of[fid]) >= min_groups
        if not every:
            xl, xh = x_range if x_range is not None else (-FOV, FOV)
            yl, yh = y_range if y_range is not None else (-FOV, FOV)
            xl, xh, yl, yh = max(xl, -FOV), min(xh, FOV), max(yl, -FOV), min(yh, FOV)
            ok &= any(xl < ex[e] < xh and yl < ey[e] < yh for e in m.events_of_flash[fid])
        if ok:
            out.append(fid)
    return out
