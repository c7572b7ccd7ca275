"""Retrieving all hits yields every matching document exactly once."""
import random

from vlib import es


def scenario(rng, i, big=False):
    """big: more hits than one request can have"""
    if big:
        ix = es.Index(rng, sort=rng.choice(["equal", "mixed", "distinct"]), n=rng.choice([15001, 16000]), vocab=1, name="pile")
    else:
        ix = es.Index(rng, sort=rng.choice(["equal", "mixed", "mixed", "distinct"]), n=rng.choice([0, 1, 3, 8, 12, 30, 60]), vocab=rng.choice([1, 2, 4]))
    calls, specs = [], []
    shared, sf = ix.filter()
    for _ in range(1 if big else rng.choice([1, 2, 3])):
        regexp = rng.random() < 0.2
        slop = rng.choice([0, 0, 1]) if not regexp else 0
        ps = [ix.phrase("terms" if regexp else "phrase", slop) for _ in range(rng.choice([1, 1, 2, 3]))]
        phrases = [p for p, _ in ps]
        if len(ps) == 1 and rng.random() < 0.5:
            phrases = phrases[0]
        every = rng.random() < 0.8 or big
        all_ = rng.random() < 0.4
        size = rng.choice([1, 2, 3, 5, 10, 100]) if len(ix.docs) <= 30 else rng.choice([2, 7, 10, 1000])
        if big:
            # (nearly) all documents have the word
            ps, all_, slop, regexp = [("legal", {"kind": "phrase", "w": [1], "slop": 0})], rng.random() < 0.5, 0, False
            phrases = ["legal"]
            size = rng.choice([1000, 4000, 9999, 10000])
        n_docs = len(ix.docs)
        adds = []
        if every and rng.random() < 0.6:
            adds = [[ix.new() for _ in range(rng.choice([0, 1, 3]))] for _ in range(rng.randint(1, 5))]
            ix.docs += [d for a in adds for d in a]
        kw = {"index": ix.name, "phrases": phrases, "all_phrases": all_, "num_documents": size, "is_regexp": regexp,
              "slop": slop, "return_all_hits": every, "sort_field": rng.choice(["date", "date", "rank"])}
        use = rng.random() < 0.6 and not big
        if use:
            kw["subset_filter"] = {"shared": "filter"}
        calls.append({"op": "get_documents_containing_phrases", "kw": kw, "adds": adds})
        specs.append({"n": n_docs, "end": len(ix.docs), "phrases": [s for _, s in ps], "all": int(all_), "filter": sf if use else [],
                      "c4": int(ix.name == "c4"), "every": int(every), "limit": size})
    job = {"index": ix.name, "shards": ix.shards, "docs": ix.start, "others": [["doc-0", {"text": "legal terms of use"}]],
           "shared": {"filter": shared}, "calls": calls}
    return ix, job, specs


def check(c):
    c.model("EsPaging")
    c.model("EsPaging", constants={"N": c.pick(4, 5), "Size": 3, "Keys": "{1, 2, 3}"})
    c.model("EsPaging", constants={"Size": 1})
    c.model("EsPaging", constants={"Variant": '"short"'})
    for v, e in (("live", "All"), ("from", "Once"), ("ge", "Once"), ("value", "All"), ("oldid", "NoError"), ("full", "All")):
        c.model("EsPaging", None, e, constants={"Variant": '"%s"' % v})
    rng = random.Random("c23-%d" % c.seed)
    scens = [scenario(rng, i) for i in range(c.pick(300, 6000))]
    scens += [scenario(rng, -1, True) for _ in range(c.pick(2, 6))]
    pages = 0
    for (ix, job, specs), res in zip(scens, es.call_all(c.scratch, [j for _, j, _ in scens])):
        if isinstance(res, dict):
            c.violation("the calls fail", {"job": job, "result": res})
            continue
        for k, (s, r) in enumerate(zip(specs, res)):
            info = {"job": job, "call": k, "result": r}
            if r["error"]:
                c.violation("retrieving the hits fails", info)
                continue
            src = dict(ix.docs)
            out = [ix.ids.get(h[0], 0) if h[1] == src.get(h[0]) else 0 for h in r["result"]]
            pages += 1
            c.judge({"kind": "es-hits", "docs": ix.spec[:s["n"]], "added": ix.spec[s["n"]:s["end"]], "phrases": s["phrases"], "all": s["all"],
                     "filter": s["filter"], "c4": s["c4"], "every": s["every"], "limit": s["limit"], "out": out, "mutated": int(r["mutated"])},
                    "the hits are not every matching document exactly once", info)
    c.flush()
    c.cov["calls"] = pages
    c.assumptions += ["the Elasticsearch server is a stand-in with the documented semantics of queries, points in time and search_after"]
