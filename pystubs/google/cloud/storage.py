"""Buckets are directories below PV_BUCKETS; an object appears when its upload is complete."""
import os
import tempfile
import urllib.parse

from pvgate import gate

_q = lambda s: urllib.parse.quote(s, safe="")   # noqa: E731


class Blob:
    def __init__(self, name, bucket):
        self.name, self.bucket = name, bucket

    @property
    def _path(self):
        return os.path.join(self.bucket._dir, _q(self.name))

    @property
    def size(self):
        return os.path.getsize(self._path)

    def exists(self):
        gate("exists", file=self.name)
        return os.path.exists(self._path)

    def _data(self):
        with open(self._path, "rb") as f:
            return f.read()

    def _put(self, data):
        fd, tmp = tempfile.mkstemp(dir=os.environ["PV_BUCKETS"])
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        gate("upload", file=self.name)
        os.replace(tmp, self._path)
        gate("uploaded", file=self.name)

    def download_to_file(self, f, **kw):
        gate("download", file=self.name)
        f.write(self._data())

    def download_to_filename(self, path, **kw):
        with open(path, "wb") as f:
            self.download_to_file(f)

    def download_as_bytes(self, **kw):
        gate("download", file=self.name)
        return self._data()

    def upload_from_file(self, f, rewind=False, **kw):
        if rewind:
            f.seek(0)
        self._put(f.read())

    def upload_from_filename(self, path, **kw):
        with open(path, "rb") as f:
            self._put(f.read())

    def upload_from_string(self, data, **kw):
        self._put(data.encode() if isinstance(data, str) else data)

    def compose(self, sources, **kw):
        assert len(sources) <= 32
        self._put(b"".join(b._data() for b in sources))

    def delete(self, **kw):
        gate("delete", file=self.name)
        os.unlink(self._path)


class Bucket:
    def __init__(self, name):
        self.name = name
        self._dir = os.path.join(os.environ["PV_BUCKETS"], _q(name))

    def blob(self, name):
        return Blob(name, self)

    def get_blob(self, name):
        b = Blob(name, self)
        return b if os.path.exists(b._path) else None

    def list_blobs(self, prefix=None, **kw):
        gate("list", file=prefix or "")
        names = sorted((urllib.parse.unquote(x) for x in os.listdir(self._dir)), key=lambda n: n.encode())
        return iter([Blob(n, self) for n in names if n.startswith(prefix or "")])


class Client:
    def bucket(self, name):
        return Bucket(name)

    get_bucket = bucket

    def list_blobs(self, bucket, prefix=None, **kw):
        return (bucket if isinstance(bucket, Bucket) else Bucket(bucket)).list_blobs(prefix=prefix)
