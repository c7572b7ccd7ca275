"""HDF5 files with one-dimensional, resizable data sets of strings, kept as JSON."""
import json
import os


class _Dtype:
    def __init__(self, length):
        self.length = length


def string_dtype(encoding="utf-8", length=None):
    return _Dtype(length)


def _length(dtype):
    if isinstance(dtype, _Dtype):
        return dtype.length
    s = str(dtype).lstrip("|<>")
    if s.startswith("S"):
        return int(s[1:])
    raise TypeError("No conversion path for dtype: %r" % (dtype,))


class Dataset:
    def __init__(self, length, values, maxshape):
        self.length, self.values, self.maxshape = length, values, maxshape

    @property
    def shape(self):
        return (len(self.values),)

    def __len__(self):
        return len(self.values)

    def resize(self, size, axis=None):
        n = size[0] if isinstance(size, tuple) else size
        if self.maxshape is None or (self.maxshape[0] is not None and n > self.maxshape[0]):
            raise ValueError("unable to change the dataset dimensions")
        self.values[:] = (self.values + [""] * n)[:n]

    def _conv(self, v):
        b = v if isinstance(v, bytes) else str(v).encode("utf8")
        if self.length is not None:
            b = b[:self.length].rstrip(b"\0")
        return b.decode("utf8", "surrogateescape")

    def __setitem__(self, k, vs):
        if isinstance(k, slice):
            idx = range(len(self.values))[k]
            vs = list(vs)
            if len(vs) != len(idx):
                raise TypeError("Can't broadcast %s -> %s" % ((len(vs),), (len(idx),)))
            for i, v in zip(idx, vs):
                self.values[i] = self._conv(v)
        else:
            self.values[k] = self._conv(vs)

    def __getitem__(self, k):
        v = self.values[slice(None) if isinstance(k, tuple) else k if isinstance(k, slice) else int(k)]
        return [x.encode() for x in v] if isinstance(v, list) else v.encode()


class File:
    def __init__(self, path, mode="r"):
        self.path, self.mode, self.sets = path, mode, {}
        if mode in ("a", "r", "r+") and os.path.exists(path):
            with open(path) as f:
                self.sets = {k: Dataset(*v) for k, v in json.load(f).items()}
        elif mode in ("r", "r+"):
            raise FileNotFoundError(path)
        elif mode in ("w-", "x") and os.path.exists(path):
            raise FileExistsError(path)
        self._flush()

    def _flush(self):
        if self.mode != "r":
            with open(self.path + ".new", "w") as f:
                json.dump({k: [d.length, d.values, d.maxshape] for k, d in self.sets.items()}, f)
            os.replace(self.path + ".new", self.path)

    def create_dataset(self, name, shape=None, dtype=None, data=None, maxshape=None, chunks=None, **kw):
        if name in self.sets:
            raise ValueError("Unable to create dataset (name already exists)")
        n = shape[0] if shape else len(data)
        d = self.sets[name] = Dataset(_length(dtype), [""] * n, maxshape)
        if data is not None:
            d[:] = data
        return d

    def require_dataset(self, name, shape, dtype, **kw):
        return self.sets[name] if name in self.sets else self.create_dataset(name, shape, dtype, **kw)

    def __getitem__(self, k):
        return self.sets[k]

    def __contains__(self, k):
        return k in self.sets

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._flush()

    def flush(self):
        self._flush()
