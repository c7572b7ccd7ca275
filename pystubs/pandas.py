"""The few operations on tables that wimbd uses."""
import csv
import gzip
import json
import os


class _List(list):
    def tolist(self):
        return list(self)


class Series:
    def __init__(self, values, index=None):
        self.values, self.index = list(values), list(range(len(list(values))) if index is None else index)

    def __eq__(self, x):
        return [v == x for v in self.values]

    def __truediv__(self, o):
        b = dict(zip(o.index, o.values))
        nan = float("nan")
        return Series([v / b.get(i, nan) if b.get(i, nan) != 0 else nan for i, v in zip(self.index, self.values)], self.index)

    def tolist(self):
        return list(self.values)

    def to_dict(self):
        return dict(zip(self.index, self.values))

    def apply(self, f):
        return Series([f(x) for x in self.values], self.index)

    map = apply

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)


class DataFrame:
    def __init__(self, data):
        index = []
        for col in data.values():
            for k in (col.keys() if isinstance(col, dict) else range(len(col))):
                if k not in index:
                    index.append(k)
        nan = float("nan")
        self.index = index
        self.cols = {c: [col.get(k, nan) if isinstance(col, dict) else col[k] for k in index] for c, col in data.items()}

    def fillna(self, v):
        r = DataFrame({})
        r.index = self.index
        r.cols = {c: [v if x is None or x != x else x for x in col] for c, col in self.cols.items()}
        return r

    def __getitem__(self, k):
        if isinstance(k, str):
            return Series(self.cols[k], self.index)
        r = DataFrame({})
        keep = [i for i, b in enumerate(k) if b]
        r.index = [self.index[i] for i in keep]
        r.cols = {c: [col[i] for i in keep] for c, col in self.cols.items()}
        return r

    def __len__(self):
        return len(self.index)

    @property
    def columns(self):
        return list(self.cols)

    def _like(self, cols):
        r = DataFrame({})
        r.index, r.cols = self.index, dict(cols)
        return r

    def copy(self, deep=True):
        return self._like(self.cols)

    def rename(self, columns):
        return self._like((columns.get(k, k), v) for k, v in self.cols.items())

    def filter(self, items):
        return self._like((k, self.cols[k]) for k in items if k in self.cols)

    def drop(self, columns):
        columns = [columns] if isinstance(columns, str) else columns
        for k in columns:
            self.cols[k]
        return self._like((k, v) for k, v in self.cols.items() if k not in columns)

    def __setitem__(self, k, v):
        if isinstance(v, (Series, list)):
            v = list(v)
            assert len(v) == len(self.index)
        else:
            v = [v] * len(self.index)
        self.cols[k] = v

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    def to_dict(self, orient="dict"):
        rows = [{k: v[i] for k, v in self.cols.items()} for i in range(len(self.index))]
        if orient == "records":
            return rows
        return {k: dict(zip(self.index, v)) for k, v in self.cols.items()}

    def to_json(self, path=None, orient=None, lines=False, **kw):
        assert orient == "records" and lines
        clean = lambda x: None if isinstance(x, float) and x != x else x     # noqa: E731
        text = "".join(json.dumps({k: clean(v) for k, v in r.items()}, separators=(",", ":")) + "\n" for r in self.to_dict("records"))
        if path is None:
            return text
        if isinstance(path, (str, os.PathLike)):
            path = os.fspath(path)
            with (gzip.open if path.endswith(".gz") else open)(path, "wt") as f:
                f.write(text)
        else:
            path.write(text)

    def __getattr__(self, k):
        if k in ("cols", "index"):
            raise AttributeError(k)
        return self[k]


def read_csv(path):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    return DataFrame({h: [r[i] if i < len(r) and r[i] != "" else None for r in rows[1:]] for i, h in enumerate(rows[0])})


def read_parquet(f, **kw):
    """Parquet files are tables as JSON: {column: [values]}."""
    return DataFrame(json.load(f))
