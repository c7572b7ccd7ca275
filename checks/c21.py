"""Decontamination marks exactly the documents whose texts are listed."""
import os
import random

from vlib import dedup, py
from vlib.core import pmap


def direct(c, i):
    rng = random.Random("d-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "d%d" % i)
    n_texts = rng.choice([1, 3, 8, 20])
    words = [None] + dedup.texts(rng, n_texts)
    attrs = rng.random() < 0.5
    shards = dedup.random_shards(rng, rng.choice([1, 2, 3, 6]), n_texts, rng.choice([3, 10, 40]), nosource=not attrs)
    sh = dedup.Shards(rng, d, shards, words)
    block = sorted(rng.sample(range(1, n_texts + 1), rng.randint(0, n_texts)))
    bl = os.path.join(d, "block.txt")
    dedup.write_blocklist(rng, bl, words, block)
    if rng.random() < 0.2:
        with open(bl + ".seen.dat", "wb") as f:
            f.write(b"\1" * 50)
    procs = rng.choice([None, 1, 2, 5])
    o, out = dedup.run_tool(rng, d, sh, bl, False, attrs, procs, timeout=120)
    return sh, o, dedup.case(sh, o, out, False, attrs, block), "blocklist of %d, %s processes" % (len(block), procs)


def pair(c, i):
    """decontaminate.py, in one go or in two steps."""
    rng = random.Random("p-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "p%d" % i)
    n_texts = rng.choice([2, 6, 15])
    words = [None] + dedup.texts(rng, n_texts)
    other = dedup.Shards(rng, d, dedup.random_shards(rng, rng.choice([1, 1, 2, 4]), n_texts, rng.choice([1, 4, 10])), words, tag="eval")
    sh = dedup.Shards(rng, d, dedup.random_shards(rng, rng.choice([1, 2, 4]), n_texts, rng.choice([2, 6, 15]), nosource=False), words, tag="train")
    out, tmp = os.path.join(d, "out"), os.path.join(d, "tmp")
    os.mkdir(out)
    os.mkdir(tmp)
    tool = "text_and_url_overlaps/decontaminate.py"
    how = rng.choice(["one", "one", "two", "rerun"])
    ex = {"PARALLEL_SEED": i}
    if how == "one":
        o = py.run([tool, "--in_files1"] + other.paths + ["--in_files2"] + sh.paths + ["--out_dir", out, "--tmp_dir", tmp], d, extra=ex, timeout=120)
    elif how == "two":
        o = py.run([tool, "--in_files1"] + other.paths + ["--out_dir", out, "--tmp_dir", tmp, "--build_blocklist_only"], d, extra=ex, timeout=120)
        if o.rc == 0:
            o = py.run([tool, "--in_files2"] + sh.paths + ["--out_dir", out, "--blocklist", os.path.join(tmp, "blocklist.txt")], d, extra=ex, timeout=120)
    else:
        # the directory has the list of an earlier run
        with open(os.path.join(tmp, "blocklist.txt"), "w") as f:
            f.write("".join(dedup.md5(w) + "\n" for w in words[1:]))
        o = py.run([tool, "--in_files1"] + other.paths + ["--in_files2"] + sh.paths + ["--out_dir", out, "--tmp_dir", tmp], d, extra=ex, timeout=120)
    return sh, o, dedup.case(sh, o, out, False, True, other=other, blockfrom="texts"), "decontaminate.py, %s" % how


def lists(c, i):
    """The block lists alone, for texts that occur up to hundreds of times."""
    rng = random.Random("l-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "l%d" % i)
    n_texts = rng.choice([3, 8, 25])
    words = [None] + dedup.texts(rng, n_texts)
    docs = [(t, 1) for t in range(1, n_texts + 1)
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 9, rng.randint(10, 19), rng.randint(20, 120), 100, 1000]))]
    docs += [(0, 1)] * rng.choice([0, 1, 2, 12])
    rng.shuffle(docs)
    n = rng.choice([1, 2, 5])
    sh = dedup.Shards(rng, d, [docs[k::n] for k in range(n)], words)
    repeated = rng.random() < 0.7
    o = py.run(["text_and_url_overlaps/" + ("deduplicate.py" if repeated else "decontaminate.py"), "--in_files" if repeated else "--in_files1"] +
               sh.paths + ["--out_dir", d, "--tmp_dir", d, "--build_blocklist_only"], d, extra={"PARALLEL_SEED": i}, timeout=120)
    number = {dedup.md5(w): t for t, w in enumerate(words) if t}
    try:
        with open(os.path.join(d, "duplicates_hashes.txt" if repeated else "blocklist.txt")) as f:
            # documents without text are listed as "None", which is no hash
            got = [number.get(l, 0) for l in f.read().split("\n")[:-1] if l != "None"]
    except OSError:
        got = [0]
    return sh, o, {"kind": "blocklist", "shards": sh.case(), "repeated": int(repeated), "list": got}, "block list of %d texts" % n_texts


def check(c):
    c.model("MCDedup", "Dedup", constants={"Keep": "FALSE", "Shards": "<- Four", "Procs": 3})
    c.model("MCDedup", "Dedup", "Complete", constants={"Keep": "FALSE", "Variant": '"null"'})
    jobs = [(direct, i) for i in range(c.pick(60, 1000))] + [(pair, i) for i in range(c.pick(30, 400))] + \
        [(lists, i) for i in range(c.pick(16, 200))]
    for sh, o, case, what in pmap(lambda j: j[0](c, j[1]), jobs):
        info = {"files": sh.docs if len(str(sh.docs)) < 20000 else "large", "what": what, "status": o.rc,
                "stderr": o.err.decode("utf8", "replace")[-1500:]}
        if o.rc != 0 or o.timed_out:
            c.violation("the decontamination fails with status %s (%s)" % (o.rc, what), info)
            continue
        c.judge(case, "the list has other texts than those that occur (more than once)" if case["kind"] == "blocklist" else
                "other documents than the listed ones are marked or dropped, or the numbers are wrong (%s)" % what, info)
    c.flush()
    c.cov["runs"] = len(jobs)
    c.assumptions += ["the shards of a run have different file names (their outputs are named after them)",
                      "GNU parallel, pv and smart_open are replaced by stand-ins"]
