"""Time series of flashes and events chopped into windows."""
from datetime import datetime

import numpy as np


class TimeSeriesGenericFlashSubset(object):
    def __init__(self, t_start, t_end, dt, base_date=None):
        if base_date is None:
            base_date = datetime(t_start.year, t_start.month, t_start.day)
        self.base_date = base_date
        n = int(np.ceil((t_end - t_start).total_seconds() / dt.total_seconds()))
        self.t_edges = [t_start + i * dt for i in range(n + 1)]
        self.t_edges_sec = [(t - base_date).total_seconds() for t in self.t_edges]
        self.lma = None

    def gen_chopped_events_flashes(self):
        for events, flashes in self.lma:
            ev, fl = [], []
            for a, b in zip(self.t_edges_sec[:-1], self.t_edges_sec[1:]):
                ev.append(events[(events['time'] >= a) & (events['time'] < b)])
                fl.append(flashes[(flashes['start'] >= a) & (flashes['start'] < b)])
            yield ev, fl
