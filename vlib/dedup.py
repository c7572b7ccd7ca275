"""Shards of documents for the deduplication tools, and the observation of what they write."""
import gzip
import hashlib
import json
import os
import re
import shutil
import zlib

from . import py

TOOL = "text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py"
WORDS = ["the", "a", "\u00e9tude", "\u4e2d\u6587", "\U0001f600", "x" * 50, "1", ".", "\n", "\t", "\u2028"]


def texts(rng, n):
    """n different texts, some of which differ only a little."""
    out = {}
    base = " ".join(rng.choice(WORDS) for _ in range(4))
    special = ["", " ", "None", base, base + " ", " " + base, base.upper(), base + "\n", "null", "0", "\u00e9", "e\u0301",
               "\x00", "\r\n", "y" * 70000, "\u00a0", "\ud800", "\udfff" + base, base + "\ud83d"]
    rng.shuffle(special)
    while len(out) < n:
        t = special.pop() if special and rng.random() < 0.4 else " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 6)))
        out[t] = 1
    return list(out)


def md5(t):
    return hashlib.md5(t.encode("utf8", "surrogatepass")).hexdigest()


def dumps(d, ascii):
    """A JSON line. Lone surrogates cannot be in it except as escapes."""
    s = json.dumps(d, ensure_ascii=ascii)
    try:
        s.encode()
    except UnicodeEncodeError:
        s = json.dumps(d)
    return s


class Shards:
    """shards: lists of (text number or 0, source number or 0); written as files."""

    def __init__(self, rng, scratch, shards, words, tag="s", plain=None, sources=True):
        self.rng, self.shards, self.words = rng, shards, words
        self.paths, self.docs = [], []
        names = ["%s%02d" % (tag, i) for i in range(len(shards))]
        rng.shuffle(names)
        for s, shard in enumerate(shards):
            docs = []
            for i, (t, src) in enumerate(shard):
                d = {"id": "%s-%d-%d" % (tag, s, i), "text": words[t] if t else None}
                if src:
                    d["source"] = "src-%d" % src
                if rng.random() < 0.3:
                    d["metadata"] = {"url": "http://x/%d" % i, "n": [1, None, "\u00e9"]}
                if rng.random() < 0.3:
                    d = dict(sorted(d.items(), key=lambda kv: rng.random()))
                docs.append(d)
            ext = rng.choice([".jsonl.gz", ".json.gz", ".jsonl"]) if plain is None else (".jsonl" if plain else ".jsonl.gz")
            p = os.path.join(scratch, names[s] + ext)
            data = "".join(dumps(d, rng.random() < 0.5) + "\n" for d in docs).encode()
            if data and rng.random() < 0.1:
                data = data[:-1]
            with open(p, "wb") as f:
                f.write(gzip.compress(data) if ext.endswith(".gz") else data)
            self.paths.append(p)
            self.docs.append(docs)

    def case(self):
        return [[{"t": t, "src": s} for t, s in shard] for shard in self.shards]


def random_shards(rng, n_shards, n_texts, size, null_p=0.1, nosource=True):
    def doc():
        return (0 if rng.random() < null_p else rng.randint(1, n_texts), rng.randint(0 if nosource else 1, 3))
    return [[doc() for _ in range(rng.choice([0, 1, size, size]))] for _ in range(n_shards)]


def read_outputs(sh, outdir, attrs):
    """[[index of the document (0: no such document), marked]] for every shard."""
    out = []
    for s, p in enumerate(sh.paths):
        q = os.path.join(outdir, os.path.basename(p))
        ids = {d["id"]: i + 1 for i, d in enumerate(sh.docs[s])}
        rows = []
        try:
            with open(q, "rb") as f:
                raw = f.read()
            raw = gzip.decompress(raw) if q.endswith(".gz") and raw else raw
            for line in raw.decode().split("\n"):
                if not line:
                    continue
                d = json.loads(line)
                if not isinstance(d, dict):
                    rows.append([0, 0])
                    continue
                i = ids.get(d.get("id"), 0) if isinstance(d.get("id"), str) else 0
                mark = 0
                if attrs:
                    if i and d.get("source") != sh.docs[s][i - 1].get("source"):
                        i = 0
                    mark = 1 if d.get("contaminated") else 0
                    if not isinstance(d.get("contaminated"), bool):
                        i = 0
                elif i and d != sh.docs[s][i - 1]:
                    i = 0
                rows.append([i, mark])
        except (OSError, ValueError, EOFError, zlib.error):
            rows = [[0, 0]]
        out.append(rows)
    extra = set(os.listdir(outdir)) - {os.path.basename(p) for p in sh.paths}
    if extra:
        out.append([[0, 0]])
    return out


def documents_in(outdir, number):
    """The numbers of the documents in the files of a directory ([0, 0]: something else)."""
    out = []
    for name in sorted(os.listdir(outdir)):
        try:
            with open(os.path.join(outdir, name), "rb") as f:
                raw = f.read()
            raw = gzip.decompress(raw) if name.endswith(".gz") and raw else raw
            docs = [json.loads(x) for x in raw.decode().split("\n") if x]
            out += [number.get(d.get("id"), [0, 0]) for d in docs if d.get("contaminated") is not True]
        except (OSError, ValueError, EOFError, zlib.error, AttributeError, TypeError):
            out.append([0, 0])
    return out


def reported(o, sh):
    text = o.out.decode("utf8", "replace")
    perfile = []
    for p in sh.paths:
        m = re.findall(r"(?m)^(\d+) documents matched in " + re.escape(p) + "$", text)
        perfile.append(int(m[0]) if len(m) == 1 else -1)
    persource = []
    for n, s in re.findall(r"(?m)^(\d+) documents were matched from (.*)$", text):
        m = re.match(r"src-(\d+)$", s)
        persource.append([0 if s == "no_source" else int(m.group(1)) if m else -1, int(n)])
    m = re.findall(r"(?m)^A total of (\d+) documents were matched$", text)
    return perfile, persource, int(m[0]) if len(m) == 1 else -1


def case(sh, o, outdir, keep, attrs, block=(), other=None, blockfrom="list", rep=True):
    perfile, persource, total = reported(o, sh) if rep else ([], [], 0)
    return {"kind": "dedup", "shards": sh.case(), "block": sorted(block), "blockfrom": blockfrom,
            "other": other.case() if other else [], "keep": int(keep), "attrs": int(attrs),
            "out": read_outputs(sh, outdir, attrs), "reported": int(rep), "perfile": perfile, "persource": persource,
            "total": total}


def write_blocklist(rng, path, words, block, unknown=0):
    lines = [md5(words[t]) for t in block]
    lines += [md5("unknown %d" % i) for i in range(unknown or rng.choice([0, 0, 1, 5]))]
    if rng.random() < 0.3:
        lines.append("None")
    if lines and rng.random() < 0.3:
        lines += rng.sample(lines, rng.randint(1, len(lines)))
    rng.shuffle(lines)
    t = "\n".join(lines) + ("\n" if lines and rng.random() < 0.9 else "")
    with open(path, "w") as f:
        f.write(t)


def run_tool(rng, scratch, sh, blocklist, keep, attrs, procs=None, extra=None, timeout=60):
    out = os.path.join(scratch, "out")
    os.mkdir(out)
    args = [TOOL, "--shards"] + sh.paths + ["--blocklist", blocklist, "--outpath", out]
    if keep:
        args.append("--keep_first_occurrence")
    if attrs:
        args.append("--just_write_attributes")
    if procs:
        args += ["--num_processes", procs]
    return py.run(args, scratch, extra=extra, timeout=timeout), out


def fresh(c, name):
    p = os.path.join(c.scratch, name)
    shutil.rmtree(p, ignore_errors=True)
    os.mkdir(p)
    return p
