from lmatools import missing_names


class LMAh5Collection(object):
    """Time-ordered access to a list of files, one time per file."""

    def __init__(self, filenames, base_date=None, min_points=1):
        self.base_date = base_date
        self.filenames = filenames
        self.min_points = min_points
        self._time_lookup = {}
        self.times = sorted(self._all_times())

    def _all_times(self):
        for f in self.filenames:
            for t in self._table_times_for_file(f):
                yield t

    def __iter__(self):
        for t in self.times:
            yield self.data_for_time(t)


__getattr__ = missing_names(__name__)
