"""Whole gridding runs over written files, and what they should produce."""
import os
from datetime import datetime, timedelta

import numpy as np
import xarray as xr

from harness import clipmodel as cm, fastinterp, glmgen as gg, select
from harness.core import REPO, expect, expect_close

from glmtools.io.ccd import load_pixel_corner_lookup, quads_from_corner_lookup
from glmtools.io.glm import GLMDataset

FIELDS = ('flash_extent_density', 'flash_centroid_density', 'average_flash_area', 'total_energy',
          'group_extent_density', 'group_centroid_density', 'average_group_area',
          'minimum_flash_area')
PAD = 100 * 28e-6

_table = []


def stamp(seconds):
    return datetime(2000, 1, 1, 12) + timedelta(seconds=seconds)


def warm():
    fastinterp.warm(os.path.join(REPO, 'glmtools/io', 'G16_corner_lut_fixedgrid.pickle'))


def footprints(x, y):
    """Footprints (radians) from the shipped table."""
    if not _table:
        X, Y, c = load_pixel_corner_lookup(
            os.path.join(REPO, 'glmtools/io', 'G16_corner_lut_fixedgrid.pickle'))
        _table.extend([X * 1e-6, Y * 1e-6, c * 1e-6])
    return quads_from_corner_lookup(*_table, np.asarray(x), np.asarray(y))


def write_files(specs, folder, names=None):
    out = []
    for n, s in enumerate(specs):
        p = os.path.join(folder, names[n] if names else 'granule_%d.nc' % n)
        out.append(gg.to_file(s, p))
    return out


def keywords(grid, outdir, sat_lon, subdivide=1, min_events=None, min_groups=None,
             scale_and_offset=False, ellipse_rev=-1, name='{dataset_name}', **extra):
    """grid: dict x0, y0, nx, ny, dx, dy, start, seconds, interval."""
    from lmatools.grid.fixed import get_GOESR_coordsys
    t0 = stamp(grid['start'])
    kw = dict(proj_name='geos', base_date=datetime(t0.year, t0.month, t0.day), do_3d=False,
              dx=grid['dx'], dy=grid['dy'], frame_interval=float(grid['interval']),
              x_bnd=np.array([grid['x0'], grid['x0'] + grid['nx'] * grid['dx']]),
              y_bnd=np.array([grid['y0'], grid['y0'] + grid['ny'] * grid['dy']]),
              ctr_lat=0.0, ctr_lon=sat_lon, pixel_coords=get_GOESR_coordsys(sat_lon)[0],
              outpath=os.path.join(outdir, name), output_writer=None,
              output_filename_prefix='GLM', output_kwargs={'scale_and_offset': scale_and_offset},
              spatial_scale_factor=1.0, fixed_grid=True, nadir_lon=sat_lon, clip_events=True,
              energy_grids=('total_energy',), subdivide=subdivide,
              min_points_per_flash=min_events, min_groups_per_flash=min_groups)
    if ellipse_rev is not None:
        kw['ellipse_rev'] = ellipse_rev
    kw.update(extra)
    return kw


def run(files, grid, *args, **kw):
    from glmtools.grid.make_grids import grid_GLM_flashes
    t0 = stamp(grid['start'])
    return grid_GLM_flashes(files, t0, t0 + timedelta(seconds=grid['seconds']),
                            **keywords(grid, *args, **kw))


def arguments(*args, **kw):
    """Keywords divided as for making tiles: grid, reading, output."""
    kw = keywords(*args, **kw)
    kw.pop('subdivide')
    kw['event_grid_area_fraction_key'] = 'mesh_frac'
    proc = {k: kw.pop(k) for k in ('min_points_per_flash', 'min_groups_per_flash', 'clip_events',
                                   'fixed_grid', 'nadir_lon', 'ellipse_rev') if k in kw}
    out = {k: kw.pop(k) for k in ('outpath', 'output_writer', 'output_kwargs',
                                  'output_filename_prefix')}
    return kw, proc, out


def read_images(folder):
    """[(start, end, {field: array[ix, iy]}, x, y, attrs)] sorted by start, y ascending."""
    out = []
    for base, _, names in sorted(os.walk(folder)):
        for n in sorted(names):
            with xr.open_dataset(os.path.join(base, n), decode_times=False) as d:
                d.load()
            f = {k: np.nan_to_num(d[k].data.astype('f8'))[::-1].T for k in FIELDS}
            out.append(dict(start=np.datetime64(d.attrs['time_coverage_start'].rstrip('Z')),
                            end=np.datetime64(d.attrs['time_coverage_end'].rstrip('Z')),
                            fields=f, x=d.x.data.astype('f8'), y=d.y.data.astype('f8')[::-1],
                            attrs=dict(d.attrs), path=os.path.join(base, n)))
    out.sort(key=lambda i: (i['start'], float(i['x'][0]), float(i['y'][0])))
    return out


def frames(grid):
    n = int(np.ceil(grid['seconds'] / grid['interval'] - 1e-9))
    return [(grid['start'] + k * grid['interval'], grid['start'] + (k + 1) * grid['interval'])
            for k in range(n)]


def seconds(t64):
    return (np.asarray(t64).astype('M8[ns]') - gg.EPOCH.astype('M8[ns]')) / np.timedelta64(1, 'ns') \
        * 1e-9


class Expected:
    """Per frame: footprint sums with tolerances, centroid counts with bounds."""

    def __init__(self, specs, grid, sat_lon, min_events=None, min_groups=None, pad=PAD,
                 ellipse_rev=-1):
        self.grid = grid
        npx, npy = int(pad / grid['dx']), int(pad / grid['dy'])
        self.xe = grid['x0'] + grid['dx'] * np.arange(grid['nx'] + 1)
        self.ye = grid['y0'] + grid['dy'] * np.arange(grid['ny'] + 1)
        self.frames = frames(grid)
        n = len(self.frames)
        shape = (grid['nx'], grid['ny'])
        self.locs = [[] for _ in range(n)]
        self.cent = {k: [[np.zeros(shape), np.zeros(shape)] for _ in range(n)]
                     for k in ('flash', 'group')}
        self.used = [set() for _ in range(n)]
        for si, s in enumerate(specs):
            if not s['event']['id']:
                continue
            ds = GLMDataset(gg.to_dataset(s), ellipse_rev=ellipse_rev).dataset
            kw = dict(x_range=(self.xe[0] - npx * grid['dx'], self.xe[-1] + npx * grid['dx']),
                      y_range=(self.ye[0] - npy * grid['dy'], self.ye[-1] + npy * grid['dy']))
            keep = set(select.keep_flashes(s, ds, min_events=min_events, min_groups=min_groups,
                                           **kw))
            t = s['t']
            for k, (a, b) in enumerate(self.frames):
                if a <= t < b and keep:
                    self.locs[k] += cm.locations(ds, keep)
                    self.used[k].add(si)
            for pre, own, tt in (('flash', ds.flash_id.data,
                                  ds.flash_time_offset_of_first_event.data),
                                 ('group', ds.group_parent_flash_id.data,
                                  ds.group_time_offset.data)):
                sec = seconds(tt)
                px, py = ds[pre + '_x'].data.astype('f8'), ds[pre + '_y'].data.astype('f8')
                for r in range(len(sec)):
                    if int(own[r]) not in keep:
                        continue
                    k = [n for n, (a, b) in enumerate(self.frames) if a <= sec[r] + 1e-9 < b]
                    if not k:
                        continue
                    low, high = self.cent[pre][k[0]]
                    self.used[k[0]].add(si)
                    hit = set()
                    for ox in (-3e-7, 3e-7):
                        for oy in (-3e-7, 3e-7):
                            i = int(np.floor((px[r] + ox - self.xe[0]) / grid['dx']))
                            j = int(np.floor((py[r] + oy - self.ye[0]) / grid['dy']))
                            hit.add((i, j))
                    for i, j in hit:
                        if 0 <= i < shape[0] and 0 <= j < shape[1]:
                            high[i, j] += 1
                            if len(hit) == 1:
                                low[i, j] += 1
        self.cells = []
        self.split = 0
        for locs in self.locs:
            if not locs:
                self.cells.append({})
                continue
            q = footprints([p['x'] for p in locs], [p['y'] for p in locs])
            c = cm.expected_cells(locs, q, self.xe, self.ye)
            self.split += sum(v['area'] > v['atol'] for v in c.values())
            self.cells.append(c)

    def check(self, k, fields, what, i0=0, j0=0):
        """fields: arrays [ix, iy] for the block that starts at cell (i0, j0)."""
        nx, ny = fields['total_energy'].shape
        cells = self.cells[k]
        want = {n: np.zeros((nx, ny)) for n in cm.SUMS}
        tol = {n: np.zeros((nx, ny)) for n in cm.SUMS}
        lo, hi = np.zeros((nx, ny)), np.zeros((nx, ny))
        unsure = np.zeros((nx, ny), bool)
        for (i, j), c in cells.items():
            i, j = i - i0, j - j0
            if not (0 <= i < nx and 0 <= j < ny):
                continue
            for n in cm.SUMS:
                want[n][i, j] = c['sum'][n]
                tol[n][i, j] = c['tol'][n]
            m = min(c['sure'] + c['maybe'], default=0.0)
            lo[i, j] = m if c['sure'] else 0.0
            hi[i, j] = max(min(c['sure'], default=0.0), max(c['maybe'], default=0.0)
                           if not c['sure'] else 0.0)
            unsure[i, j] = c['area'] <= 20 * c['atol']
        for f, n in (('flash_extent_density', 'lutevent_flash_count'),
                     ('group_extent_density', 'lutevent_group_count'), ('total_energy', 'power')):
            expect_close(fields[f], want[n], '%s: %s' % (what, f), 2e-5, tol[n])
        for f, n, d in (('average_flash_area', 'lutevent_total_flash_area', 'lutevent_flash_count'),
                        ('average_group_area', 'lutevent_total_group_area',
                         'lutevent_group_count')):
            ok = ~unsure
            with np.errstate(all='ignore'):
                w = np.where(want[d] > 0, want[n] / want[d], 0.0)
                rel = np.where(want[d] > 0, tol[n] / want[n] + tol[d] / want[d], 0.0)
            expect_close(fields[f][ok], w[ok], '%s: %s' % (what, f), 4e-5, (2 * rel * w)[ok])
        v = fields['minimum_flash_area']
        bad = (v < lo * (1 - 2e-6)) | (v > hi * (1 + 2e-6))
        if bad.any():
            i, j = np.argwhere(bad)[0]
            expect(False, '%s: minimum flash area of cell (%d, %d) is %s instead of %s', what, i,
                   j, v[i, j], hi[i, j])
        for pre in ('flash', 'group'):
            low, high = self.cent[pre][k]
            low, high = low[i0:i0 + nx, j0:j0 + ny], high[i0:i0 + nx, j0:j0 + ny]
            v = fields[pre + '_centroid_density']
            bad = (v < low) | (v > high)
            if bad.any():
                i, j = np.argwhere(bad)[0]
                expect(False, '%s: %s centroid density of cell (%d, %d) is %s instead of %s',
                       what, pre, i, j, v[i, j], low[i, j])
            slack = (high - low).sum()
            expect(abs(v.sum() - low.sum()) <= slack, '%s: %s %s centroids in all instead of %s',
                   what, v.sum(), pre, low.sum())
