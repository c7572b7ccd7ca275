"""Deduplication keeps exactly one copy of every listed text, for any interleaving of the processes."""
import gzip
import os
import random

from vlib import dedup, py, tlc
from vlib.core import pmap

# the data of the specification's configurations (MCDedup.tla)
TWO = [[(1, 1), (2, 1)], [(1, 2), (1, 1)]]
SMALL = [[(1, 1)], [(1, 2)]]
THREE = [[(1, 1), (0, 1), (3, 1)], [(2, 2), (1, 1)], [(2, 1), (1, 2)]]
FOUR = [[(1, 1), (2, 1), (1, 1)], [(2, 2), (1, 1)], [(2, 1), (1, 2)], [(1, 1), (2, 1)]]
SHARDS = {"Two": (TWO, [1]), "Small": (SMALL, [1]), "Three": (THREE, [1, 2]), "Four": (FOUR, [1, 2])}


def models(c):
    c.model("MCDedup", "Dedup")
    c.model("MCDedup", "Dedup", constants={"Shards": "<- Four", "Procs": c.pick(3, 4)})
    for v, e in (("nolock", "SoFar"), ("private", "SoFar"), ("early", "SoFar"), ("leak", "Deadlock"), ("null", "ExactlyOne"), ("same", "ExactlyOne"), ("inplace", "ExactlyOne")):
        c.model("MCDedup", "Dedup", e, constants={"Variant": '"%s"' % v})


def behaviours(c, rng):
    """Orders in which the shards' processes act: of the design with the lock and, more of them, of the one without
    it (what the code's lock has to prevent)."""
    def gen(a):
        name, variant = a
        block = "{%s}" % ", ".join(map(str, SHARDS[name][1]))
        consts = {"Shards": "<- " + name, "Variant": '"%s"' % variant, "Procs": len(SHARDS[name][0]), "Block": block}
        if name in ("Three", "Four"):
            r = tlc.run("MCDedup", "DedupGen", constants=consts, workers=1, timeout=120,
                        args=["-simulate", "num=%d" % c.pick(300, 3000), "-seed", str(c.seed), "-depth", "60"])
        else:
            r = tlc.run("MCDedup", "DedupGen", constants=consts, workers=2, timeout=120)
        hs = sorted({tuple(h) for h in r.prints("HIST")})
        if not hs:
            raise tlc.TlcError("no behaviours of MCDedup: " + r.out[-2000:])
        c.states += r.distinct
        return name, variant, hs
    out = []
    for name, variant, hs in pmap(gen, [(n, v) for n in SHARDS for v in ("nolock", "ok")]):
        r = random.Random("%s%s%d" % (name, variant, c.seed))
        n = {"Two": c.pick(14, 200), "Small": c.pick(12, 100), "Three": c.pick(6, 150), "Four": c.pick(6, 150)}[name]
        if variant == "ok":
            n //= 3
        out += [(name, variant, list(h)) for h in r.sample(hs, min(n, len(hs)))]
    c.cov["behaviours_of_the_specification"] = len(out)
    return out


def replay(c, i, beh):
    name, variant, hist = beh
    rng = random.Random("%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "r%d" % i)
    shards, block = SHARDS[name]
    words = [None] + dedup.texts(rng, 3)
    sh = dedup.Shards(rng, d, shards, words)
    bl = os.path.join(d, "block.txt")
    dedup.write_blocklist(rng, bl, words, block)
    number = {os.path.basename(p): s + 1 for s, p in enumerate(sh.paths)}
    ctl = py.Controller(d, hist, key=lambda m, state: number.get(m.get("file")), seed=rng.random(), expect=len(shards),
                        patience=0.06)
    attrs = rng.random() < 0.5
    try:
        o, out = dedup.run_tool(rng, d, sh, bl, True, attrs, len(shards), {"PVGATE": ctl.path, "PVGATE_SEEN": 1}, 120)
    finally:
        ctl.close()
    return sh, o, dedup.case(sh, o, out, True, attrs, block), "order %s (%s)" % (hist, variant), ctl.trace


def free(c, i):
    rng = random.Random("free-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "f%d" % i)
    n_texts = rng.choice([1, 2, 5, 12])
    words = [None] + dedup.texts(rng, n_texts)
    attrs = rng.random() < 0.5
    shards = dedup.random_shards(rng, rng.choice([1, 2, 4, 8]), n_texts, rng.choice([3, 10, 30]), nosource=not attrs)
    sh = dedup.Shards(rng, d, shards, words)
    block = sorted(rng.sample(range(1, n_texts + 1), rng.choice([0, 1, n_texts, n_texts]) if n_texts > 1 else rng.choice([0, 1, 1])))
    bl = os.path.join(d, "block.txt")
    dedup.write_blocklist(rng, bl, words, block)
    stale = rng.random() < 0.3
    if stale:
        # an earlier run has left its table behind
        with open(bl + ".seen.dat", "wb") as f:
            f.write(b"\1" * rng.choice([1, 5, 100]))
    procs = rng.choice([None, 1, 2, 3, len(shards), 16])
    jitter = rng.choice([None, 1, 3])
    o, out = dedup.run_tool(rng, d, sh, bl, True, attrs, procs, {"PVJITTER": jitter} if jitter else None, 120)
    return sh, o, dedup.case(sh, o, out, True, attrs, block), "%s processes%s%s" % (procs, ", delays" if jitter else "", ", table left behind" if stale else ""), None


def large(c, i):
    """More listed texts than any table or batch in the tool might hold."""
    rng = random.Random("large-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "l%d" % i)
    n = rng.choice([5000, 9000])
    words = [None] + ["text %d" % k for k in range(n)]
    docs = [(t, rng.randint(1, 3)) for t in range(1, n + 1)] + [(rng.randint(1, n), 1) for _ in range(n // 4)]
    rng.shuffle(docs)
    cuts = sorted(rng.randint(0, len(docs)) for _ in range(2))
    sh = dedup.Shards(rng, d, [docs[:cuts[0]], docs[cuts[0]:cuts[1]], docs[cuts[1]:]], words)
    block = sorted(rng.sample(range(1, n + 1), n - rng.randint(0, 300)))
    bl = os.path.join(d, "block.txt")
    dedup.write_blocklist(rng, bl, words, block, unknown=rng.choice([70000, 140000]))
    o, out = dedup.run_tool(rng, d, sh, bl, True, True, 3, None, 200)
    return sh, o, dedup.case(sh, o, out, True, True, block), "%d texts" % n, None


def end_to_end(c, i):
    rng = random.Random("e2e-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "e%d" % i)
    n_texts = rng.choice([2, 5, 12])
    words = [None] + dedup.texts(rng, n_texts)
    shards = dedup.random_shards(rng, rng.choice([1, 2, 4]), n_texts, rng.choice([2, 6, 15]), nosource=False)
    if rng.random() < 0.3:
        shards = [[(t, 1)] for t in range(1, n_texts + 1)]      # no duplicates at all
    elif rng.random() < 0.4:
        shards[0] += [(rng.randint(1, n_texts), 1)] * rng.randint(9, 130)
    sh = dedup.Shards(rng, d, shards, words)
    out, tmp = os.path.join(d, "out"), os.path.join(d, "tmp")
    os.mkdir(out)
    os.mkdir(tmp)
    a = ["text_and_url_overlaps/deduplicate.py", "--in_files"] + sh.paths + ["--out_dir", out]
    two = rng.random() < 0.35
    o = py.run(a + ["--tmp_dir", tmp] + ["--build_blocklist_only"] * two, d, extra={"PARALLEL_SEED": i}, timeout=120)
    if two and o.rc == 0:
        # the list of the first run is used by the second
        o = py.run(a + ["--blocklist", os.path.join(tmp, "duplicates_hashes.txt")], d, extra={"PARALLEL_SEED": i}, timeout=120)
    return sh, o, dedup.case(sh, o, out, True, True, blockfrom="repeated"), "deduplicate.py" + ", in two steps" * two, None


def clash(c, i):
    """Shards of different directories with the same name, or an output directory that holds shards."""
    rng = random.Random("clash-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "c%d" % i)
    n_texts = rng.choice([2, 5])
    words = [None] + dedup.texts(rng, n_texts)
    sh = dedup.Shards(rng, d, dedup.random_shards(rng, rng.choice([2, 3, 4]), n_texts, 4, nosource=False), words)
    kind = rng.choice(["same", "inplace", "link", "both"])
    out = os.path.join(d, "out")
    os.mkdir(out)
    paths, ext = [], os.path.basename(sh.paths[0]).split(".", 1)[1]
    for k, p in enumerate(sh.paths):
        name = os.path.basename(p)
        if kind in ("same", "both") and k < 2:
            # (compressed or not as the name says)
            with open(p, "rb") as f:
                raw = f.read()
            raw = gzip.decompress(raw) if p.endswith(".gz") else raw
            name = "part." + ext
            with open(p, "wb") as f:
                f.write(gzip.compress(raw) if ext.endswith(".gz") else raw)
        q = os.path.join(d, "in%d" % k if kind in ("same", "both") else "in", name)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        os.rename(p, q)
        paths.append(q)
    if kind in ("inplace", "both"):
        out = os.path.dirname(paths[-1]) + rng.choice(["", "/", "/../" + os.path.basename(os.path.dirname(paths[-1]))])
    elif kind == "link":
        os.rmdir(out)
        os.symlink(os.path.dirname(paths[0]), out)
    before = [open(p, "rb").read() for p in paths]
    block = sorted(rng.sample(range(1, n_texts + 1), rng.choice([1, n_texts])))
    procs = rng.choice([None, 1, 4])
    blockfrom = rng.choice(["list", "list", "repeated"])
    if blockfrom == "list":
        bl = os.path.join(d, "block.txt")
        dedup.write_blocklist(rng, bl, words, block)
        o = py.run([dedup.TOOL, "--shards"] + paths + ["--blocklist", bl, "--outpath", out, "--keep_first_occurrence"] +
                   (["--num_processes", procs] if procs else []), d, timeout=120)
    else:
        os.mkdir(os.path.join(d, "tmp"))
        o = py.run(["text_and_url_overlaps/deduplicate.py", "--in_files"] + paths + ["--out_dir", out, "--tmp_dir", os.path.join(d, "tmp")],
                   d, timeout=120)
    number = {doc["id"]: [s + 1, k + 1] for s, docs in enumerate(sh.docs) for k, doc in enumerate(docs)}
    kept = dedup.documents_in(out, number)
    case = {"kind": "clash", "shards": sh.case(), "block": block, "blockfrom": blockfrom, "failed": int(o.rc != 0), "kept": kept,
            "intact": int(all(os.path.exists(p) and open(p, "rb").read() == b for p, b in zip(paths, before)))}
    return sh, o, case, "%s, %s" % ({"same": "shards of different directories with the same name", "inplace": "the output directory holds the shards",
                                     "link": "the output directory is a link to that of the shards",
                                     "both": "the output directory holds one of several shards with the same name"}[kind], blockfrom), None


def check(c):
    models(c)
    behs = behaviours(c, c.rng)
    jobs = [(replay, i, b) for i, b in enumerate(behs)] + [(free, i, None) for i in range(c.pick(40, 600))] + \
           [(end_to_end, i, None) for i in range(c.pick(12, 150))] + [(large, i, None) for i in range(c.pick(1, 4))] + \
           [(clash, i, None) for i in range(c.pick(10, 100))]

    def go(j):
        f, i, b = j
        return f(c, i, b) if b is not None else f(c, i)
    for sh, o, case, what, trace in pmap(go, jobs):
        info = {"files": [[d for d in docs] for docs in sh.docs] if len(str(sh.docs)) < 20000 else "large", "what": what,
                "status": o.rc, "stderr": o.err.decode("utf8", "replace")[-1500:], "trace": trace}
        if case["kind"] == "clash" and not o.timed_out:
            c.judge(case, "documents are lost, or texts are kept more than once (%s)" % what, info)
            continue
        if o.rc != 0 or o.timed_out:
            c.violation("the deduplication %s (%s)" % ("does not end" if o.timed_out else "fails with status %s" % o.rc, what), info)
            continue
        c.judge(case, "not exactly one copy of every listed text is kept, or the numbers are wrong (%s)" % what, info)
    c.flush()
    c.cov["replayed_orders"] = len(behs)
    c.cov["free_runs"] = len(jobs) - len(behs)
    c.assumptions += ["GNU parallel, pv and smart_open are replaced by stand-ins"]
