"""A data set is a JSON file: [[split, [examples]], ...]."""
import copy
import itertools
import json
import os
import types

config = types.SimpleNamespace(DEFAULT_MAX_BATCH_SIZE=1000)


def disable_caching():
    pass


class IterableDataset:
    def __init__(self, rows, start=0, stop=None):
        self.rows, self.start, self.stop = rows, start, stop

    def __iter__(self):
        for x in itertools.islice(self.rows, self.start, self.stop):
            yield copy.deepcopy(x)

    def skip(self, n):
        return IterableDataset(self.rows, self.start + n, self.stop)

    def take(self, n):
        stop = self.start + n
        return IterableDataset(self.rows, self.start, stop if self.stop is None else min(stop, self.stop))


class IterableDatasetDict(dict):
    pass


class Dataset:
    """Columns of equal length: rows by number, columns by name."""
    def __init__(self, columns):
        self.columns = columns
        self.column_names = list(columns)

    def __len__(self):
        return len(next(iter(self.columns.values()), []))

    num_rows = property(__len__)

    def row(self, i):
        return {k: copy.deepcopy(v[i]) for k, v in self.columns.items()}

    def __getitem__(self, k):
        if isinstance(k, str):
            return copy.deepcopy(self.columns[k])
        if isinstance(k, slice):
            return {c: copy.deepcopy(v[k]) for c, v in self.columns.items()}
        return self.row(k)

    def __iter__(self):
        return (self.row(i) for i in range(len(self)))

    def select_columns(self, names):
        names = [names] if isinstance(names, str) else names
        return Dataset({k: self.columns[k] for k in names})


class DatasetDict(dict):
    pass


def load_dataset(name, sub=None, streaming=False, split=None, **kw):
    if not streaming:
        sub = kw.get("name", sub)
        with open(os.path.join(os.environ["PV_DATASETS"], "%s--%s.json" % (name, sub))) as f:
            d = DatasetDict((s, Dataset(x)) for s, x in json.load(f).items())
        return d if split is None else d[split]
    with open(name) as f:
        return IterableDatasetDict((s, IterableDataset(rows)) for s, rows in json.load(f))
