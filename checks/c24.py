"""Counts are aligned with their phrases; filters restrict every query; arguments are not modified."""
import random

from vlib import es


INDICES = [".security", ".kibana_1", ".ds-x-000001", "search-test", "test-index-2", "metrics-endpoint.metadata_current_default",
           "pile-2", "search-test-2", "re_oscar", "a.b", "docs_v1.5_2023-11-02", "test-index-20"]


def scenario(rng, i):
    ix = es.Index(rng)
    shared, sf = ix.filter()
    calls, specs = [], []
    more = []
    for name in rng.sample(INDICES, rng.choice([0, 0, 1, 3, 6])):
        more.append([name, rng.sample(["text", "url", "date", "source"], rng.choice([0, 0, 2])),
                     [["d%d" % k, {f: "x" for f in rng.sample(["text", "id", "lang"], rng.choice([1, 2]))}] for k in range(rng.choice([0, 1, 3, 12]))]])
    others = [["doc-0", {"text": "legal terms of use", "subset": "en", "lang": "x"}]]
    if rng.random() < 0.1:
        # nothing to see
        more, ix.name = [m for m in more if m[0].startswith(".")], "search-test"
        others = None
    indices = [{"name": n, "dot": int(n.startswith(".")), "fields": f, "docs": [list(x) for _, x in docs]}
               for n, f, docs in [[ix.name, [], ix.start]] + ([["other", [], others]] if others else []) + more]
    big = i % 100 == 7          # more phrases than a batch has by default
    for _ in range(1 if big else rng.choice([1, 2, 3, 4])):
        use = rng.random() < 0.6
        kw = {"index": ix.name}
        if use:
            kw["subset_filter"] = {"shared": "filter"}
        spec = {"docs": None, "c4": int(ix.name == "c4"), "filter": sf if use else [], "phrases": [], "all": 0, "groups": [], "batches": [], "size": 0}
        r = rng.random()
        if r < 0.35 and not big:
            regexp = rng.random() < 0.25
            slop = 0 if regexp else rng.choice([0, 0, 1])
            ps = [ix.phrase("terms" if regexp else "phrase", slop) for _ in range(rng.choice([1, 1, 2, 3]))]
            phrases = [p for p, _ in ps]
            all_ = rng.random() < 0.5
            kw.update(phrases=phrases[0] if len(ps) == 1 and rng.random() < 0.5 else phrases, all_phrases=all_, is_regexp=regexp, slop=slop)
            spec.update(op="count", phrases=[s for _, s in ps], all=int(all_))
            calls.append({"op": "count_documents_containing_phrases", "kw": kw})
        elif r < 0.85 or big:
            n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 10, 20])
            if big:
                n = rng.choice([499, 500, 501, 600, 1000, 1001])
            all_ = rng.random() < 0.4
            size = rng.choice([1, 2, 3, 4, 5, 7, 10, 500])
            gs = [[ix.phrase() for _ in range(rng.choice([1, 2, 3]) if all_ else 1)] for _ in range(n)]
            if all_:
                phrases = [[p for p, _ in g] for g in gs]
            else:
                phrases = [g[0][0] for g in gs]
                if n == 1 and rng.random() < 0.4:
                    phrases = phrases[0]
            kw.update(phrases=phrases, batch_size=size, all_phrases=all_)
            if not isinstance(phrases, str) and rng.random() < 0.3:
                kw["phrases"] = {"iterable": rng.choice(["tuple", "generator"]), "items": phrases}
            if big or rng.random() < 0.3:
                del kw["batch_size"]
                size = 500
            spec.update(op="each", groups=[[s for _, s in g] for g in gs], size=size)
            calls.append({"op": "count_documents_for_each_phrase", "kw": kw})
        elif r < 0.92:
            props = rng.random() < 0.5
            spec.update(op="indices", indices=indices, props=int(props), filter=[])
            calls.append({"op": "get_indices", "kw": {"return_mapping": props}})
        else:
            # term statistics are of the whole index
            kw.pop("subset_filter", None)
            if ix.name == "c4":
                continue
            ws = sorted(rng.sample(range(1, len(es.WORDS) + 1), rng.choice([1, 2, 4])), key=lambda w: rng.random())
            kw["unigrams"] = [es.WORDS[w - 1] for w in ws]
            if len(ws) == 1 and rng.random() < 0.5:
                kw["unigrams"] = kw["unigrams"][0]
            spec.update(op="unigrams", groups=ws, filter=[])
            calls.append({"op": "count_total_occurrences_of_unigrams", "kw": kw})
        specs.append(spec)
    job = {"index": ix.name, "shards": ix.shards, "docs": ix.start, "others": others, "more": more,
           "shared": {"filter": shared}, "calls": calls}
    return ix, job, specs


def listing(out):
    """The result of get_indices: names, numbers of documents, fields."""
    try:
        return [[n, int(x["docs.count"]), list(x.get("properties", []))] for n, x in out.items()]
    except (AttributeError, KeyError, TypeError, ValueError):
        return [["?", -1, []]]


def check(c):
    c.model("EsBatches", constants={"MaxPhrases": c.pick(5, 8), "MaxSize": c.pick(3, 5), "Calls": c.pick(2, 3)})
    for v, e in (("toomany", "Small"), ("drop", "Aligned"), ("last", "Aligned"), ("order", "Aligned"), ("shared", "Aligned"), ("keep", "Aligned")):
        c.model("EsBatches", None, e, constants={"Variant": '"%s"' % v})
    rng = random.Random("c24-%d" % c.seed)
    scens = [scenario(rng, i) for i in range(c.pick(500, 8000))]
    n = 0
    for (ix, job, specs), res in zip(scens, es.call_all(c.scratch, [j for _, j, _ in scens])):
        if isinstance(res, dict):
            c.violation("the calls fail", {"job": job, "result": res})
            continue
        for k, (s, r) in enumerate(zip(specs, res)):
            info = {"job": job, "call": k, "result": r}
            if r["error"]:
                c.violation("counting fails", info)
                continue
            out = r["result"]
            n += 1
            if s["op"] == "count":
                out = [out]
            elif s["op"] == "indices":
                out = listing(out)
            elif s["op"] == "unigrams":
                words = [es.WORDS[w - 1] for w in s["groups"]]
                out = [out.get(w, -1) for w in words] if isinstance(out, dict) and set(out) == set(words) else [-1]
            c.judge(dict(s, kind="es-counts", docs=ix.spec, out=out if s["op"] == "indices" else [x if isinstance(x, int) else -1 for x in out],
                         batches=r["batches"] if s["op"] == "each" else [], mutated=int(r["mutated"])),
                    "a count does not agree with the documents of the index (%s)" % s["op"], info)
    c.flush()
    c.cov["calls"] = n
    c.assumptions += ["the Elasticsearch server is a stand-in with the documented semantics of queries, counts and term vectors",
                      "total occurrences of unigrams are of the whole index, as documented"]
