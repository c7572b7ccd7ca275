"""The contamination report: the share of the examples of a benchmark that occur in a corpus."""
import json
import os
import random
import shutil

from vlib import es, py
from vlib.build import REPO
from vlib.core import pmap


def tree(c):
    """The package and its configuration file, as a user has them."""
    d = os.path.join(c.scratch, "tree")
    shutil.copytree(os.path.join(REPO, "wimbd"), os.path.join(d, "wimbd"), ignore=shutil.ignore_patterns("__pycache__"))
    return d


def scenario(c, i):
    rng = random.Random("c30-%d-%d" % (c.seed, i))
    d = os.path.join(c.scratch, "s%d" % i)
    os.makedirs(d)
    ix = es.Index(rng, n=rng.choice([0, 1, 3, 8, 25]))
    other = es.Index(rng, n=5)
    n = rng.choice([0, 1, 2, 3, 7, 20, 59, 60, 61, 62, 119, 120, 121, 150, 180])
    fields = rng.sample(["sentence1", "sentence2", "premise", "q_1"], rng.choice([1, 1, 2, 2, 3]))
    pool = [[ix.phrase() for _ in fields] for _ in range(rng.choice([2, 10, n]))]
    rows = []
    for _ in range(n):
        e = list(rng.choice(pool)) if rng.random() < 0.7 else [ix.phrase() for _ in fields]
        if rng.random() < 0.1:
            # a field without words is in no document
            e[rng.randrange(len(e))] = (rng.choice(["", " ", "...", "\n"]), {"kind": "phrase", "w": [], "slop": 0})
        if rng.random() < 0.25 and ix.spec:
            # a whole document, or the first and last half of one
            w = rng.choice(ix.spec)["w"]
            h = len(w) // 2
            ws = [w] if len(fields) == 1 else [w[:h], w[h:]] + [w[:1]] * (len(fields) - 2)
            e = [(es.text_of(rng, x), {"kind": "phrase", "w": list(x), "slop": 0}) for x in ws]
        rows.append(e)
    corpus, sub = rng.choice(["glue", "super_glue"]), rng.choice([None, "rte", "copa"])
    split = rng.choice(["train", "test", "validation"])
    decoy = lambda k: [ix.phrase()[0] for _ in range(k)]   # noqa: E731
    data = {s: {f: decoy(4) for f in ["sentence1", "sentence2", "premise", "q_1"]} for s in ("train", "test", "validation")}
    data[split] = {f: decoy(n) for f in ["sentence1", "sentence2", "premise", "q_1"]}
    data[split]["label"] = [rng.randint(0, 1) for _ in range(n)]
    for k, f in enumerate(fields):
        data[split][f] = [r[k][0] for r in rows]
    for s in (None, "rte", "copa"):
        x = data if s == sub else {sp: {f: decoy(3) for f in ("sentence1", "sentence2", "premise", "q_1")} for sp in ("train", "test", "validation")}
        with open(os.path.join(d, "%s--%s.json" % (corpus, s)), "w") as f:
            json.dump(x, f)
    state = os.path.join(d, "server.json")

    def put(docs, shards):
        return {"shards": shards, "docs": {k: [j, j % shards, v] for j, (k, v) in enumerate(docs)}, "seq": len(docs), "props": []}
    oname = rng.choice([x for x in ("c4", "pile", "other") if x != ix.name])
    with open(state, "w") as f:
        json.dump({"indices": {ix.name: put(ix.docs, ix.shards), oname: put(other.docs, 1)}}, f)
    root = os.path.join(d, "root")
    os.makedirs(root)
    shutil.copytree(os.path.join(c.tree, "wimbd"), os.path.join(root, "wimbd"))
    with open(os.path.join(root, "es_config.yml"), "w") as f:
        f.write("cloud_id: 'fake:%s'\napi_key: x\n" % state)
    args = ["--corpus", corpus, "--index", ix.name, "--split", split, "--fields", ",".join(fields)] + (["--sub_corpus", sub] if sub else [])
    o = py.run(["python", os.path.join(root, "wimbd/es/corpus_contamination.py")] + args, d, cwd=rng.choice([d, root]), timeout=120,
               extra={"PYTHONPATH": py.STUBS + ":" + root, "PV_DATASETS": d, "PV_WANDB": os.path.join(d, "wandb.json")})
    try:
        with open(os.path.join(d, "wandb.json")) as f:
            rec = json.load(f)["summary"]
    except (OSError, ValueError, KeyError):
        rec = {}
    shutil.rmtree(d)
    info = {"args": args, "rows": [[p for p, _ in r] for r in rows], "documents": ix.docs, "status": o.rc, "recorded": rec,
            "stdout": o.out.decode("utf8", "replace")[-500:], "stderr": o.err.decode("utf8", "replace")[-1500:]}
    last = o.out.decode("utf8", "replace").split()
    try:
        p = float(last[-1])
        part = round(p * n)
        if (part / n if n else 0) != p:
            part = -1
    except (ValueError, IndexError, OverflowError):
        part = -1
    ok = "percentage" not in rec or (part >= 0 and rec["percentage"] == (part / n if n else 0))
    num = lambda k, other: rec[k] if isinstance(rec.get(k), int) else (other if k not in rec else -1)   # noqa: E731
    case = {"kind": "contamination", "docs": ix.spec, "c4": int(ix.name == "c4"), "groups": [[s for _, s in r] for r in rows],
            "n": num("n", n), "count": num("count", part), "part": part if ok else -1}
    return case, info


def check(c):
    con = c.pick({}, {"MaxExamples": 5, "Texts": "{t1, t2, t3}", "Fields": 1})
    c.model("Contamination", constants=con)
    c.model("Contamination", constants=dict(con, Size=1))
    for v in ("hits", "apart", "either", "distinct", "short", "batchrate"):
        c.model("Contamination", None, "Exact", constants={"Variant": '"%s"' % v})
    c.tree = tree(c)
    for case, info in pmap(lambda i: scenario(c, i), range(c.pick(100, 1500))):
        if info["status"] != 0:
            c.violation("the report fails with status %s" % info["status"], info)
            continue
        c.judge(case, "the report of the contamination (%s of %d examples) is not what the index contains" % (case["part"], len(case["groups"])), info)
    c.flush()
    c.assumptions += ["the Elasticsearch server, the data set library and the experiment tracker are stand-ins",
                      "an example whose field has no words is not contaminated (a phrase query without terms matches nothing)"]
