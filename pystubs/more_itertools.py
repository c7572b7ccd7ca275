import itertools


def chunked(iterable, n, strict=False):
    it = iter(iterable)
    while True:
        x = list(itertools.islice(it, n))
        if not x:
            return
        yield x


batched = chunked
