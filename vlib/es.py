"""Scenarios for wimbd.es: an index, a sequence of calls, and how the specification sees them."""
import json
import os
import subprocess

from . import py
from .core import pmap

WORDS = ["legal", "license", "terms", "of", "use", "the", "winter", "spring", "a1", "2023", "\u00e9tude", "x_y"]
SEPS = [" ", " ", " ", ", ", "\n", " - ", "  ", ". "]


def call_all(scratch, jobs):
    """Run the jobs in a few processes."""
    n = min(8, max(1, len(jobs) // 4))
    parts = [jobs[i::n] for i in range(n)]

    def go(part):
        p = subprocess.run(["python3-vt", os.path.join(py.STUBS, "drivers", "es_driver.py")], cwd=scratch, env=py.env(scratch),
                           input="".join(json.dumps(j) + "\n" for j in part).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=600)
        lines = p.stdout.decode().splitlines()
        if len(lines) != len(part):
            return [{"crash": p.stderr.decode()[-1500:]}] * len(part)
        return [json.loads(x) for x in lines]
    out = [None] * len(jobs)
    for i, rs in enumerate(pmap(go, parts)):
        out[i::n] = rs
    return out


def text_of(rng, ws):
    t = ""
    for i, w in enumerate(ws):
        w = WORDS[w - 1]
        w = rng.choice([w, w, w.upper(), w.capitalize()])
        t += (rng.choice(SEPS) if i else "") + w
    return t


class Index:
    def __init__(self, rng, name=None, n=None, vocab=None, sort="mixed"):
        self.rng = rng
        self.name = name or rng.choice(["c4", "pile", "test-index"])
        self.shards = rng.choice([1, 1, 2, 3])
        self.vocab = vocab or rng.choice([2, 4, len(WORDS)])
        self.sort = sort
        self.docs = []
        self.spec = []
        self.ids = {}
        for _ in range(rng.choice([0, 1, 5, 12, 25]) if n is None else n):
            self.docs.append(self.new())
        self.start = list(self.docs)
        self.words = [rng.randint(1, self.vocab) for _ in range(3)]

    def new(self):
        rng = self.rng
        ws = [rng.randint(1, self.vocab) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        f = [rng.choice([1, 1, 2]), rng.choice([1, 2, 3])]
        src = {"text": text_of(rng, ws), "subset": ["en", "fr"][f[0] - 1], "lang": ["x", "y", "z"][f[1] - 1]}
        if self.sort == "equal":
            src["date"] = 7
        elif self.sort == "distinct":
            src["date"] = rng.randrange(10 ** 6)
        elif self.sort == "mixed" and rng.random() < 0.8:
            src["date"] = rng.randint(1, 3)
        src["rank"] = rng.choice(["a", "b", "c"])
        i = "doc-%d" % len(self.ids)
        self.ids[i] = len(self.ids) + 1
        self.spec.append({"w": ws, "f": f})
        return [i, src]

    def phrase(self, kind="phrase", slop=0):
        rng = self.rng
        if kind == "terms":
            ws = [rng.randint(1, self.vocab) for _ in range(rng.choice([1, 2]))]
            pat = "|".join(rng.choice([str, str, str.upper, str.capitalize])(WORDS[w - 1]) for w in ws)
            return pat, {"kind": "terms", "w": ws, "slop": 0}
        r = rng.random()
        if r < 0.06:
            # no words: occurs nowhere
            return rng.choice(["", " ", "...", " - "]), {"kind": "phrase", "w": [], "slop": slop}
        if r < 0.5:
            ws = [rng.randint(1, self.vocab)]
        else:
            ws = [rng.randint(1, self.vocab) for _ in range(2 if slop else rng.choice([2, 3]))]
        return text_of(rng, ws), {"kind": "phrase", "w": ws, "slop": slop}

    def filter(self):
        """The caller's filter and what it means."""
        out, spec = [], []
        for k, (name, values) in enumerate((("subset", ["en", "fr"]), ("lang", ["x", "y", "z"]))):
            if self.rng.random() < 0.4:
                v = self.rng.randrange(len(values))
                out.append({name: values[v]})
                spec.append([k + 1, v + 1])
        return out, spec
