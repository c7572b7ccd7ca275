"""Data sets to be split, and the observation of their parts."""
import gzip
import hashlib
import json

def prefix(text):
    return int(hashlib.sha1((text or "").encode("utf8", "surrogatepass")).hexdigest()[:3], 16)


def texts_with(prefixes, n, make=lambda k: "text %d" % k):
    """n texts for each of these beginnings of their hash."""
    out, k = {p: [] for p in prefixes}, 0
    while any(len(x) < n for x in out.values()):
        t = make(k)
        k += 1
        p = prefix(t)
        if p in out and len(out[p]) < n:
            out[p].append(t)
    return [t for x in out.values() for t in x]


def write(path, data):
    with gzip.open(path, "wb", compresslevel=1) as f:
        f.write(data)


def lines_of(path):
    with gzip.open(path, "rb") as f:
        data = f.read()
    return data.decode("utf8").split("\n")


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)
