"""Examples of duplicates: every one that was asked for, with its text and count, most frequent first."""
import gzip
import json
import os
import random

from vlib import dedup, py
from vlib.core import pmap
from . import c22

HERE = "text_and_url_overlaps/helper_scripts/"
TEXTS = ["", "a", "A", "a ", " a", "None", "null", "a\nb", "a\n", "\u00e9", "e\u0301", "\u4e2d\u6587", "\U0001f600", "\x00", "x" * 5000, "a\r\nb", "\u2028", "\\n", "\"q\"", "{}", "\ud800", "x\udfff", "\udc00\ud800"]


def shards(rng, d, texts):
    """Documents in some gzip files of one or several members; returns the paths and the texts in reading order."""
    n = rng.choice([1, 1, 2, 3, 5])
    cuts = sorted(rng.randint(0, len(texts)) for _ in range(n - 1))
    paths = []
    for i, (a, b) in enumerate(zip([0] + cuts, cuts + [len(texts)])):
        lines = [dedup.dumps(dict([("text", t), ("id", str(a + j)), ("text2", "x")][::rng.choice([1, -1])]), rng.random() < 0.5)
                 for j, t in enumerate(texts[a:b])]
        blob = "".join(x + "\n" for x in lines)
        if blob and rng.random() < 0.3:
            blob = blob[:-1]
        p = os.path.join(d, "%02d.%s" % (i, rng.choice(["jsonl.gz", "gz"])))
        raw = blob.encode("utf8")
        m = rng.randint(0, len(raw))
        with open(p, "wb") as f:
            f.write(gzip.compress(raw[:m]) + gzip.compress(raw[m:]) if rng.random() < 0.3 else gzip.compress(raw))
        paths.append(p)
    return paths


def rows_of(path, num, texts_of, counted, key):
    try:
        with open(path, newline="\n") as f:
            rows = [json.loads(x) for x in f.read().split("\n")[:-1]]
    except (OSError, ValueError):
        return [[-1, -2]]
    out = []
    for r in rows:
        try:
            line = num[r[key]]
            if key == "hash" and r["text"] != texts_of[r["hash"]]:
                line = -1
            out.append([line, int(r["count"]) if counted else (-2 if "count" in r else -1)])
        except (KeyError, TypeError, ValueError):
            out.append([-1, -2])
    return out


def hashes(c, i):
    """A list of hashes, with or without counts, looked up in shards."""
    rng = random.Random("e-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "e%d" % i)
    many = rng.random() < 0.15
    pool = (["t%d" % j for j in range(rng.choice([60, 300]))] if many else rng.sample(TEXTS, rng.randint(1, len(TEXTS)))) + [None]
    texts = [rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 8, 20, 60]) if not many else 400)]
    if many:
        rng.shuffle(texts)
    paths = shards(rng, d, texts)
    of = {("None" if t is None else dedup.md5(t)): "None" if t is None else t for t in pool + TEXTS}
    ask = [h for h in of if rng.random() < rng.choice([0.2, 0.6, 1.0])]
    rng.shuffle(ask)
    num = {h: j + 1 for j, h in enumerate(ask)}
    counted = rng.random() < 0.6
    counts = [rng.choice([1, 2, 9, 10, 11, 99, 100, 101, 1000, 9999999, 10000000, 123456789, 2, 2]) for _ in ask]
    k = rng.choice([None, 0, 1, 2, 3, 5, 30, 1000])
    repeats = rng.random() < 0.3
    lst = os.path.join(d, "list.txt")
    # sort | uniq -c, or any other order
    order = sorted(range(len(ask)), key=lambda j: (-counts[j], ask[j])) if rng.random() < 0.5 else list(range(len(ask)))
    with open(lst, "w") as f:
        for j in order:
            f.write("%7d %s\n" % (counts[j], ask[j]) if counted else ask[j] + "\n")
    out = os.path.join(d, "out.jsonl")
    how = rng.random()
    if how < 0.3 and counted and k:
        # by the script of the analysis: only the first k lines are looked up
        head = order[:k]
        ask, counts = [ask[j] for j in head], [counts[j] for j in head]
        num = {h: j + 1 for j, h in enumerate(ask)}
        repeats = False
        link = os.path.join(d, "dir")
        os.mkdir(link)
        for p in paths:
            os.rename(p, os.path.join(link, os.path.basename(p) + ".z"))
        o = py.run([HERE + "run_get_examples.sh", os.path.join(link, "*.z"), out, "--count_hash_file", lst, k], d)
    else:
        a = [HERE + "get_examples.py", "--data_shards"] + paths + ["--outfile", out, "--count_hash_file" if counted else "--hash_file", lst]
        o = py.run(a + (["--k", k] if k is not None else []) + (["--with_repeats"] if repeats else []), d)
    docs = [num.get("None" if t is None else dedup.md5(t), 0) for t in texts]
    case = {"kind": "examples", "docs": docs, "wanted": list(range(1, len(ask) + 1)), "counts": counts if counted else [],
            "k": 30 if k is None else k, "repeats": repeats, "urls": False, "out": rows_of(out, num, of, counted, "hash")}
    if not ask and counted:
        case["counts"] = []
    info = {"documents": [t if t is None else t[:100] for t in texts], "asked": ask, "counts": counts if counted else None, "k": k,
            "with_repeats": repeats, "stderr": o.err.decode("utf8", "replace")[-1500:], "out": case["out"]}
    return "get_examples.py on %d documents in %d shards" % (len(texts), len(paths)), o, case, info


def urls(c, i):
    """Counted URLs become a list ordered by count."""
    rng = random.Random("u-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "u%d" % i)
    pool = rng.sample(c22.URLS + c22.SPACED + ["", " ", "cr\rcr", "\u2028"], rng.randint(0, 20))
    counts = [rng.choice([1, 2, 9, 10, 11, 99, 100, 101, 1000, 9999999, 10000000, 123456789, 2, 2]) for _ in pool]
    lst = os.path.join(d, "list.txt")
    with open(lst, "w", newline="\n") as f:
        for x, n in zip(pool, counts):
            f.write("%7d %s\n" % (n, x))
    out = os.path.join(d, "out.jsonl")
    if pool and rng.random() < 0.4:
        k = rng.choice([1, 3, 30])
        pool, counts = pool[:k], counts[:k]
        o = py.run([HERE + "run_get_examples.sh", "-", out, "--count_url_file", lst, k], d)
    else:
        o = py.run([HERE + "get_examples.py", "--outfile", out, "--count_url_file", lst], d)
    num = {x: j + 1 for j, x in enumerate(pool)}
    case = {"kind": "examples", "docs": [], "wanted": list(range(1, len(pool) + 1)), "counts": counts, "k": 30, "repeats": False, "urls": True,
            "out": rows_of(out, num, {}, True, "text")}
    return "get_examples.py on %d URLs" % len(pool), o, case, {"urls": pool, "counts": counts, "stderr": o.err.decode("utf8", "replace")[-1500:], "out": case["out"]}


def check(c):
    c.model("Examples", constants={"Docs": c.pick(3, 4)})
    c.model("Examples", constants={"Lines": 1, "Docs": c.pick(5, 6)})
    for v in ("noremove", "late", "hurry", "early", "text", "join"):
        c.model("Examples", None, "Right", constants={"Variant": '"%s"' % v, "Docs": 3})
    jobs = [(hashes, i) for i in range(c.pick(90, 1200))] + [(urls, i) for i in range(c.pick(30, 300))]
    n = 0
    for what, o, case, info in pmap(lambda j: j[0](c, j[1]), jobs):
        n += 1
        if o.rc or o.timed_out:
            c.violation("no examples are written (status %s; %s)" % (o.rc, what), info)
        else:
            c.judge(case, "the examples are not those that were asked for (%s)" % what, info)
    # the whole analysis: the most frequent lines of every data set
    for rs in pmap(lambda i: c22.analysis(c, 1000 + i, wide=True), range(c.pick(8, 100))):
        for r in rs:
            n += 1
            if r.failed:
                c.violation("the overlap analysis fails (%s; %s)" % (r.failed, r.what), r.info)
            elif r.case:
                for x in ("overlaps", "counts", "lists"):
                    r.case[x] = []
                c.judge(r.case, "the top examples are not the most frequent lines (%s)" % r.what, r.info)
    c.flush()
    c.cov["runs"] = n
    c.assumptions += ["the paths of the shards have no characters that are special to the shell", "GNU parallel is replaced by a stand-in",
                      "sort(1) in the C locale"]
