"""File collection base class."""


class LMAh5Collection(object):
    """Iterates over (events, flashes) of each file in time order."""

    def __init__(self, filenames, base_date=None, min_points=10):
        self.base_date = base_date
        self.min_points = min_points
        self._filenames = list(filenames)
        self._time_lookup = {}
        self.times = [t for f in self._filenames
                      for t in self._table_times_for_file(f)]
        self.times.sort()

    def _table_times_for_file(self, fname):
        raise NotImplementedError

    def data_for_time(self, t0):
        raise NotImplementedError

    def __iter__(self):
        for t in self.times:
            yield self.data_for_time(t)


def parse_lma_h5_filename(fname):
    raise ValueError("not part of the stand-in")
