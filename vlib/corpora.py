"""Data sets of many shapes."""
from . import wimbd
from .wimbd import Data, Doc, rand_files, rand_tokens


def empty_files(rng):
    return [[], [Doc(["a", "b", "a"])], []]


def nothing(rng):
    return [[]]


def only_null(rng):
    return [[Doc(None), Doc(None)], [Doc(None)]]


def blank_text(rng):
    return [[Doc([]), Doc(["a"]), Doc([])], [Doc([], text=" \n\t "), Doc(["b", "b"])]]


def many_files(rng):
    v = rng.sample(wimbd.TOKENS, 5)
    return [[Doc(rand_tokens(rng, 0, 6, v)) for _ in range(rng.randint(0, 2))] for _ in range(rng.choice([33, 40, 70]))]


def one_long_file(rng):
    v = rng.sample(wimbd.TOKENS, 8)
    return [[Doc(rand_tokens(rng, 0, 5, v)) if rng.random() < 0.9 else Doc(None) for _ in range(60)]]


def repeated(rng):
    """Counts beyond 255 and 65535."""
    v = rng.sample(wimbd.TOKENS, 4)
    return [[Doc(rand_tokens(rng, 2, 5, v), mult=m) for m in rng.sample([1, 2, 100, 255, 256, 257, 300, 1000], 3)],
            [Doc(rand_tokens(rng, 2, 5, v), mult=rng.choice([1, 5, 70000]))]]


def ties(rng):
    v = rng.sample(wimbd.TOKENS, 9)
    return [[Doc(list(v))], [Doc(list(v)), Doc(list(reversed(v)))], [Doc(list(v))]][:rng.choice([1, 2, 3])]


def riser(rng):
    """An n-gram that is rare in every file but frequent overall, next to ones that are frequent in one file."""
    f = []
    for i in range(6):
        f.append([Doc(["x", "y"]), Doc(["w%d" % i] * (i + 3))])
    return f


def long_text(rng):
    v = rng.sample(wimbd.TOKENS, 3)
    pad = " " * rng.choice([2000, 8190, 8192, 70000, 150000])
    t = rand_tokens(rng, 3, 6, v)
    return [[Doc(t, text=pad.join(t)), Doc(t)], [Doc(list(t), text=" ".join(t) + pad)]]


def staircase(rng):
    """Distinct counts 1, 2, 3, ... so that every threshold and k cuts somewhere else."""
    v = rng.sample(wimbd.TOKENS, 8)
    docs = [Doc([v[i]] * 1, mult=i + 1) for i in range(8)] + [Doc([v[i], v[(i + 1) % 8]], mult=i + 1) for i in range(8)]
    rng.shuffle(docs)
    cut = rng.randint(0, len(docs))
    return [docs[:cut], docs[cut:]]


SHAPES = [empty_files, nothing, only_null, blank_text, many_files, one_long_file, repeated, ties, riser, long_text,
          staircase]


def standard(rng, base, n, shapes=SHAPES, **kw):
    """n data sets: every shape, then random ones."""
    out = []
    for s in shapes[:n]:
        out.append(Data(s(rng), rng, base))
    while len(out) < n:
        r = rng.random()
        if r < 0.25 and shapes:
            files = rng.choice(shapes)(rng)
        else:
            files = rand_files(rng, **kw)
        out.append(Data(files, rng, base, plain=rng.random() < 0.1))
    return out


def small(rng, base, **kw):
    """A small data set on which many schedules are tried."""
    kw.setdefault("nfiles", rng.choice([2, 3, 3, 4]))
    kw.setdefault("ndocs", (1, 3))
    kw.setdefault("toks", (1, 6))
    kw.setdefault("mult_p", 0)
    return Data(rand_files(rng, **kw), rng, base)


# ---- larger than any limit one would pick "to be safe": number of n-grams, lines, files, members, tokens, bytes

def wide_grams(rng, nfiles=2, per=7500, shared=1500):
    """Thousands of different n-grams in every file."""
    files = []
    for i in range(nfiles):
        toks = ["w%dx%d" % (i, j) for j in range(per)] + ["s%d" % j for j in range(shared)]
        rng.shuffle(toks)
        docs = []
        while toks:
            m = rng.choice([1, 7, 60, 700])
            docs.append(Doc(toks[:m]))
            toks = toks[m:]
        files.append(docs)
    return files


def many_lines(rng):
    v = rng.sample(wimbd.TOKENS, 6)
    return [[Doc(rand_tokens(rng, 1, 2, v)) for _ in range(n)] for n in (2600, 30, 4300)]


def hundreds_of_files(rng):
    v = rng.sample(wimbd.TOKENS, 6)
    return [[Doc(rand_tokens(rng, 0, 3, v))] for _ in range(330)]


def long_documents(rng):
    v = rng.sample(wimbd.TOKENS, 5)
    return [[Doc(rand_tokens(rng, n, n, v)) for n in (70000, 3)], [Doc(rand_tokens(rng, 2, 9, v)), Doc(rand_tokens(rng, 5000, 5000, v))]]


def long_lines(rng):
    v = rng.sample(wimbd.TOKENS, 3)
    t = rand_tokens(rng, 3, 6, v)
    return [[Doc(t, text=(" " * 900000).join(t)), Doc(t)],
            [Doc(t[:2]), Doc(list(t), text=" ".join(t) + " " * 3000000), Doc(t), Doc(t[1:], text=(" " * 700000).join(t[1:]))]]


def steps(rng):
    """Many documents of the same length per file, and files with longer and shorter ones."""
    v = rng.sample(wimbd.TOKENS, 5)
    lens = rng.choice([[5, 6, 3, 2], [2, 5, 7, 4], [6, 5, 2, 7]])
    return [[Doc(rand_tokens(rng, n, n, v)) for _ in range(1500)] for n in lens[:3]] + [[Doc(rand_tokens(rng, lens[3], lens[3], v))]]


def long_tokens(rng):
    """Tokens of thousands of bytes."""
    v = ["a" * 5000, "b" * 70000, "\u00e9" * 2100, "\u4e2d", "a" * 4999, "x" * 300, "y", "q7" * 150]
    return [[Doc(rand_tokens(rng, 1, 12, v)) for _ in range(6)] for _ in range(3)]


SCALE = [wide_grams, many_lines, hundreds_of_files, long_documents, long_lines, long_tokens, steps]


def scale(rng, base):
    return [(s.__name__, Data(s(rng), rng, base, members=300 if s is many_lines else None)) for s in SCALE]
