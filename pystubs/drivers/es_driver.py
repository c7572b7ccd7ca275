"""Performs calls of wimbd.es on an in-memory server. Reads jobs from stdin, writes what happened to stdout."""
import copy
import json
import sys
import traceback

from elasticsearch import Elasticsearch, Server
from wimbd import es as wes


def job(j):
    s = Server()
    s.create_index(j["index"], j["shards"])
    if j.get("others") is not None:
        s.create_index("other", 1)
    for i, d in j["docs"]:
        s.put(j["index"], i, d)
    for i, d in j.get("others") or []:
        s.put("other", i, d)
    for n, fields, docs in j.get("more", []):
        s.create_index(n, 1, fields)
        for i, d in docs:
            s.put(n, i, d)
    client = Elasticsearch(server=s)
    shared = j.get("shared", {})
    out = []
    for c in j["calls"]:
        kw = {k: shared[v["shared"]] if isinstance(v, dict) and "shared" in v else v for k, v in c["kw"].items()}
        p = kw.get("phrases")
        if isinstance(p, dict):
            kw["phrases"] = tuple(p["items"])
        before = copy.deepcopy(kw)
        if isinstance(p, dict) and p["iterable"] == "generator":
            before["phrases"] = kw["phrases"] = (x for x in p["items"])
        adds = [list(a) for a in c.get("adds", [])]
        s.log.clear()
        n = [0]

        def between(_, adds=adds, n=n):
            n[0] += 1
            if n[0] > 500:
                raise RuntimeError("no end")
            for i, d in (adds.pop(0) if adds else []):
                s.put(j["index"], i, d)
        s.between = [between]
        r = {"error": None, "result": None}
        try:
            f = getattr(wes, c["op"])
            x = f(es=client, **kw)
            if c["op"] == "get_documents_containing_phrases":
                got = []
                for h in x:
                    got.append([h["_id"], h["_source"] if "_source" in h else None, h.get("_index")])
                    if len(got) > 3000 + 3 * len(j["docs"]):
                        break
                x = got
            r["result"] = x
        except Exception:
            r["error"] = traceback.format_exc()[-1200:]
        r["mutated"] = kw != before
        r["batches"] = [x["n"] for x in s.log if x["request"] == "msearch"]
        r["left"] = sum(len(a) for a in adds)
        s.between = []
        for a in adds:
            for i, d in a:
                s.put(j["index"], i, d)
        out.append(r)
    return out


for line in sys.stdin:
    try:
        res = job(json.loads(line))
    except Exception:
        res = {"crash": traceback.format_exc()[-1500:]}
    sys.stdout.write(json.dumps(res) + "\n")
    sys.stdout.flush()
