"""Records are lines of JSON: {feature: text}."""
import json
import types


class _Features:
    def __init__(self, d):
        self.feature = {k: types.SimpleNamespace(bytes_list=types.SimpleNamespace(value=[v.encode()])) for k, v in d.items()}


class _Example:
    @classmethod
    def FromString(cls, data):
        e = cls()
        e.features = _Features(json.loads(data))
        return e


class _Record:
    def __init__(self, data):
        self._data = data

    def numpy(self):
        return self._data


class TFRecordDataset:
    def __init__(self, filenames, **kw):
        self._names = [filenames] if isinstance(filenames, str) else list(filenames)

    def __iter__(self):
        for n in self._names:
            with open(n, "rb") as f:
                data = f.read()
            if data and not data.endswith(b"\n"):
                raise ValueError("corrupted record")
            for x in data.split(b"\n")[:-1]:
                yield _Record(x)

    def as_numpy_iterator(self):
        for x in self:
            yield x.numpy()


train = types.SimpleNamespace(Example=_Example)
data = types.SimpleNamespace(TFRecordDataset=TFRecordDataset)
