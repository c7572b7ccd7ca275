class tqdm:
    def __init__(self, iterable=None, *a, **k):
        self.iterable = iterable

    def __iter__(self):
        return iter(self.iterable)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, k):
        return lambda *a, **kw: None


def trange(n, **k):
    return range(n)
