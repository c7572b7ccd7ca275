import os

if os.environ.get("PVGATE_SEEN") or os.environ.get("PVJITTER"):
    try:
        import numpy
        from pvgate import gate

        _Plain = numpy.memmap

        class _Gated(_Plain):
            def __getitem__(self, k):
                gate("get", index=int(k) if isinstance(k, (int, numpy.integer)) else -1)
                r = _Plain.__getitem__(self, k)
                if os.environ.get("PVJITTER"):
                    gate("got")
                return r

            def __setitem__(self, k, v):
                gate("set", index=int(k) if isinstance(k, (int, numpy.integer)) else -1)
                _Plain.__setitem__(self, k, v)

        numpy.memmap = _Gated
    except ImportError:
        pass

if os.environ.get("PVGATE_FS"):
    # file operations below this directory
    from pvgate import gate as _gate

    _root = os.path.realpath(os.environ["PVGATE_FS"])

    def _inside(path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(_root)
        except TypeError:
            return False

    def _wrap(name, which=0):
        plain = getattr(os, name)

        def f(*a, **k):
            p = a[which] if len(a) > which else list(k.values())[which]
            if _inside(p) and name != os.environ.get("PVGATE_NOT"):
                _gate(name, file=os.path.basename(os.path.normpath(os.fspath(p))))
            return plain(*a, **k)
        setattr(os, name, f)

    _wrap("mkdir")
    for _n in ("replace", "rename", "link"):
        _wrap(_n, 1)
    for _n in ("unlink", "remove"):
        _wrap(_n)

    import gzip as _gzip

    _open = _gzip.open

    class _Held:
        """A file whose writes can be held or cut in the middle."""

        def __init__(self, f, name):
            self._f, self._name = f, name

        def write(self, data):
            h = len(data) // 2
            _gate("write", file=self._name)
            self._f.write(data[:h])
            self._f.flush()
            if h:
                _gate("half", file=self._name)
            self._f.write(data[h:])
            self._f.flush()
            return len(data)

        def writelines(self, lines):
            for x in lines:
                self.write(x)

        def close(self):
            if not self._f.closed:
                _gate("close", file=self._name)
            self._f.close()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            if a[0] is not None:
                self._f.close()
            else:
                self.close()

        def __getattr__(self, k):
            return getattr(self._f, k)

    def _held(filename, mode="rb", *a, **k):
        if isinstance(filename, (str, os.PathLike)) and _inside(filename) and ("w" in mode or "a" in mode or "x" in mode):
            name = os.path.basename(os.fspath(filename))
            _gate("open", file=name)
            return _Held(_open(filename, mode, *a, **k), name)
        return _open(filename, mode, *a, **k)

    _gzip.open = _held

    if os.environ.get("PVCOUNT"):
        # files that are written as text
        import builtins as _builtins

        _bopen = _builtins.open

        def _plain_held(file, mode="r", *a, **k):
            if isinstance(file, (str, os.PathLike)) and _inside(file) and any(x in mode for x in "wax") \
                    and not os.fspath(file).endswith(".gz"):
                name = os.path.basename(os.fspath(file))
                _gate("open", file=name)
                return _Held(_bopen(file, mode, *a, **k), name)
            return _bopen(file, mode, *a, **k)

        import io as _io

        _builtins.open = _io.open = _plain_held

if os.environ.get("PVLINE"):
    # an interruption (ctrl-c) before the n-th line that the script in this directory executes
    import sys as _sys

    _left = [int(os.environ["PVLINE"])]
    _where = os.path.join(os.path.realpath(os.environ["PVGATE_FS"]), "preparation")

    def _line(frame, event, arg):
        if event == "line" and _left[0] > 0:
            _left[0] -= 1
            if not _left[0]:
                with open(os.path.join(os.path.realpath(os.environ["PVGATE_FS"]), "line-hit"), "w"):
                    pass
                _sys.settrace(None)
                raise KeyboardInterrupt
        return _line

    def _call(frame, event, arg):
        return _line if os.path.realpath(frame.f_code.co_filename).startswith(_where) and _left[0] > 0 else None

    _sys.settrace(_call)
