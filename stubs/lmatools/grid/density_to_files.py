"""Accumulation pipeline stages."""
import logging

import numpy as np

from lmatools.stream.subset import coroutine

log = logging.getLogger(__name__)
log.addHandler(logging.NullHandler())


@coroutine
def flash_count_log(logfile):
    while True:
        (yield)


@coroutine
def flashes_to_frames(time_edges, targets, time_key='start', do_events=False,
                      time_edges_datetime=None, flash_counter=None):
    """Route rows to the frame (closed at its start, open at its end) their
    time falls in.  With do_events, that is the name of the event time column
    and events are routed by their own times; otherwise all events are sent
    along and later stages match them by flash id."""
    n_frames = len(time_edges) - 1
    assert n_frames == len(time_edges_datetime) - 1 == len(targets)
    try:
        while True:
            events, flashes = (yield)
            frame_of = np.searchsorted(time_edges, flashes[time_key], side='right') - 1
            if do_events:
                ev_frame_of = np.searchsorted(time_edges, events[do_events], side='right') - 1
            for frame in range(n_frames):
                if flash_counter is not None:
                    flash_counter.send(None)
                these = flashes[frame_of == frame]
                ev = events[ev_frame_of == frame] if do_events else events
                targets[frame].send((ev, these))
    finally:
        for target in targets:
            target.close()


@coroutine
def extract_events_for_flashes(target, flashID_key='flash_id'):
    try:
        while True:
            events, flashes = (yield)
            keep = np.isin(events[flashID_key], flashes[flashID_key])
            target.send((events[keep], flashes))
    finally:
        target.close()


@coroutine
def no_projection(x_coord, y_coord, z_coord, target, use_flashes=False):
    try:
        while True:
            events, flashes = (yield)
            points = flashes if use_flashes else events
            target.send((events, flashes, points[x_coord], points[y_coord],
                         points[z_coord]))
    finally:
        target.close()


@coroutine
def project(x_coord, y_coord, z_coord, mapProj, geoProj, target, use_flashes=False):
    try:
        while True:
            events, flashes = (yield)
            points = flashes if use_flashes else events
            x, y, z = mapProj.fromECEF(*geoProj.toECEF(
                points[x_coord], points[y_coord], points[z_coord]))
            target.send((events, flashes, np.atleast_1d(x), np.atleast_1d(y),
                         np.atleast_1d(z)))
    finally:
        target.close()


@coroutine
def point_density(target, weight_key=None, weight_flashes=True):
    try:
        while True:
            events, flashes, x, y, z = (yield)
            if len(x) > 0:
                weights = None
                if weight_key is not None:
                    weights = (flashes if weight_flashes else events)[weight_key]
                target.send((x, y, weights))
    finally:
        target.close()


@coroutine
def extent_density(x0, y0, dx, dy, target, flash_id_key='flash_id',
                   weight_key=None, event_grid_area_fraction_key=None):
    """One entry for each (flash, cell) pair."""
    try:
        while True:
            events, flashes, x, y, z = (yield)
            if len(x) == 0:
                continue
            xi = np.floor((np.asarray(x) - x0) / dx).astype(int)
            yi = np.floor((np.asarray(y) - y0) / dy).astype(int)
            key = np.stack([xi, yi, np.asarray(events[flash_id_key], int)], axis=-1)
            _, first = np.unique(key, axis=0, return_index=True)
            w = None
            if weight_key is not None:
                lookup = dict(zip(flashes[flash_id_key].tolist(),
                                  flashes[weight_key].tolist()))
                w = np.array([lookup[i] for i in events[flash_id_key][first].tolist()])
            if event_grid_area_fraction_key is not None:
                frac = events[event_grid_area_fraction_key][first]
                w = frac if w is None else w * frac
            target.send((np.asarray(x)[first], np.asarray(y)[first], w))
    finally:
        target.close()


@coroutine
def accumulate_points_on_grid(grid, xedge, yedge, out=None, label='',
                              grid_frac_weights=False):
    """Add points (or their weights) to the cell each falls in."""
    if out is None:
        out = {}
    try:
        while True:
            x, y, weights = (yield)
            if len(x) > 0:
                counts, _ = np.histogramdd(
                    (np.atleast_1d(x), np.atleast_1d(y)), bins=(xedge, yedge),
                    weights=weights)
                grid += counts.astype(grid.dtype)
    finally:
        out['out'] = grid


accumulate_energy_on_grid = accumulate_points_on_grid
accumulate_points_on_grid_sdev = accumulate_points_on_grid
accumulate_minimum_on_grid = accumulate_points_on_grid
