"""Local files only; reading can be gated."""
import builtins
import gzip
import os

from pvgate import gate


class _Reader:
    def __init__(self, f, name):
        self.f, self.name = f, name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __iter__(self):
        return self

    def __next__(self):
        gate("line", file=os.path.basename(self.name))
        return next(self.f)

    def __getattr__(self, k):
        return getattr(self.f, k)


def open(uri, mode="r", encoding=None, **kw):
    uri = str(uri)
    if "b" not in mode and encoding is None:
        encoding = "utf-8"
    if uri.endswith(".gz"):
        m = mode if "b" in mode or "t" in mode else mode + "t"
        f = gzip.open(uri, m, encoding=encoding)
    else:
        f = builtins.open(uri, mode, encoding=encoding)
    if "r" in mode and "b" not in mode and (os.environ.get("PVGATE") or os.environ.get("PVJITTER")):
        return _Reader(f, uri)
    return f
