"""Indexing creates every document once and changes none that exist."""
import gzip
import json
import os
import random
import shutil

from vlib import py
from vlib.core import pmap

TEXTS = ["a", "a b", "\u00e9t\u00e9 \u4e2d\u6587", " ", "\n", "x" * 60, "\U0001f600" * 7, "null", "0"]
EXTRA = {"url": "http://a.com", "date": "2020-01-01", "n": 5, "meta": {"a": [1, None]}, "lang": "\u00e9", "flag": False, "nothing": None}


class Index:
    """Files to be indexed, a server, and the runs of the tool."""

    def __init__(self, c, i):
        rng = self.rng = random.Random("ix-%d-%d" % (c.seed, i))
        self.d = os.path.join(c.scratch, "x%d" % i)
        os.makedirs(self.d)
        self.text_field = rng.choice(["text", "text", "content", "raw"])
        self.id_field = rng.choice(["", "", "docid", "id"])
        self.skip_fields = rng.sample(["url", "date", "n", "absent", "meta"], rng.choice([0, 0, 1, 2]))
        self.maxsize = rng.choice([1 << 20, 1 << 20, 3, 10])
        self.index = rng.choice(["corpus", "Corpus", "c4"])
        self.saves = rng.random() < 0.7
        self.bulk = rng.choice([1, 2, 3, 7, 500])
        self.nums, self.files, self.rows, self.names = {}, [], [], []
        self.first = {}                 # id -> the row it stands for
        n = rng.choice([1, 1, 2, 3])
        for f in range(n):
            name = rng.choice(["f%d.jsonl.gz", "dir/part-%d.json.gz", "\u00e9 %d.gz", "a-%d", "a-1-%d.json.gz",
                               "a/rather/long/path/of/the/data/set/with/part.%05d-of-00010.json.gz"]) % f
            os.makedirs(os.path.dirname(os.path.join(self.d, name)), exist_ok=True)
            docs, rows = [], []
            for k in range(rng.choice([0, 1, 3, 8, 8, 30])):
                t = rng.choice(TEXTS)
                if rng.random() < 0.25:
                    t = rng.choice([None, ""])
                row = {self.text_field: t}
                for x in rng.sample(list(EXTRA), rng.randint(0, 4)):
                    row[x] = EXTRA[x]
                # every document is different
                row["serial"] = "%d/%d" % (f, k)
                if self.text_field != "text" and rng.random() < 0.2:
                    row["text"] = "replaced by the text field"
                the = "%s-%d" % (name, k)
                if self.id_field:
                    the = rng.choice(["doc-%d-%d" % (f, k), "\u00e9%d.%d" % (f, k), "x" * 60 + "%d-%d" % (f, k)])
                    row[self.id_field] = the
                items = list(row.items())
                rng.shuffle(items)
                row = dict(items)
                docs.append({"id": self.num(the), "len": len(t or ""), "fields": [x for x in row if x != self.text_field], "broken": 0})
                rows.append(row)
                self.first.setdefault(the, row)
            broken = None
            if docs and rng.random() < 0.08:
                broken = rng.randrange(len(docs))
                docs[broken]["broken"] = 1
            with gzip.open(os.path.join(self.d, name), "wb") as g:
                for k, r in enumerate(rows):
                    line = json.dumps(r, ensure_ascii=rng.random() < 0.5)
                    if k == broken:
                        # not a document, or one without its text or its id
                        gone = rng.choice([self.text_field, self.id_field or self.text_field])
                        part = {x: v for x, v in r.items() if x != gone}
                        line = rng.choice(["{not json", line[:-1], "", "null", json.dumps(part), json.dumps(part)])
                    g.write((line + "\n").encode("utf8"))
            self.files.append(docs)
            self.rows.append(rows)
            self.names.append(name)
        self.state = os.path.join(self.d, "state.json")
        self.config = os.path.join(self.d, "es.yml")
        with open(self.config, "w") as f:
            f.write('cloud_id: "fake:%s"\napi_key: x\n' % self.state)
        self.initial()
        self.runs, self.err, self.shown = [], "", []

    def num(self, the):
        return self.nums.setdefault(the, len(self.nums) + 1)

    def initial(self):
        """Documents that are there before: others, and some with the ids of documents to come."""
        docs, self.before, rng = {}, [], self.rng
        if rng.random() < 0.4:
            ids = ["other-1", "other-2"] + [x for x in list(self.nums) if rng.random() < 0.2]
            for k, the in enumerate(ids):
                docs[the] = [k, 0, {"text": "old", "age": 1}]
        self.docs0 = docs
        with open(self.state, "w") as f:
            ix = {self.index.lower(): {"shards": 2, "docs": docs, "seq": len(docs), "props": []}} if docs or rng.random() < 0.3 else {}
            json.dump({"indices": ix, "faults": {}}, f)
        self.before = self.look()

    def look(self):
        with open(self.state) as f:
            s = json.load(f)
        out = []
        for the, (_, _, src) in sorted(s["indices"].get(self.index.lower(), {}).get("docs", {}).items()):
            if the in self.docs0:
                out.append([self.num(the), sorted(src), len(src.get("text") or ""), 2 if src == self.docs0[the][2] else 0])
                continue
            row = self.first.get(the)
            ok = 0
            if row is not None and isinstance(src.get("text"), str):
                ok = int((row[self.text_field] or "").startswith(src["text"]) and all(row.get(k) == v and k in row for k, v in src.items() if k != "text"))
            out.append([self.num(the), sorted(src), len(src.get("text") or ""), ok])
        return out

    def run(self, fault=True):
        rng = self.rng
        files = list(range(len(self.files)))
        if rng.random() < 0.3:
            files = rng.sample(files, rng.randint(1, len(files)))
        skip = 0
        if len(files) == 1 and rng.random() < 0.4:
            n = len([x for x in self.files[files[0]] if x["len"] or x["broken"]])
            skip = rng.choice([0, 1, n, n + 1, rng.randint(0, n)])
        faults, errors, faulty = {}, [], 0
        if fault:
            kind = rng.choice(["", "", "exit", "connection", "raise", "item", "create"])
            if kind in ("exit", "connection", "raise"):
                faults["bulk"] = {"at": rng.choice([1, 2, 3]), "do": kind, "status": rng.choice([429, 500, 503])}
                faulty = 1
            elif kind == "create":
                faults["indices.create"] = {"at": 1, "do": "exit"}
                faulty = 1
            elif kind == "item":
                ids = [x["id"] for f in files for x in self.files[f] if x["len"]]
                if ids:
                    errors = [rng.choice(ids)]
                    name = {v: k for k, v in self.nums.items()}[errors[0]]
                    faults["items"] = {name: rng.choice([400, 413, 429, 500, 503])}
        with open(self.state) as f:
            s = json.load(f)
        s["faults"] = faults
        with open(self.state, "w") as f:
            json.dump(s, f)
        with open(os.path.join(self.d, "list"), "w") as f:
            f.write("".join(self.names[k] + rng.choice(["\n", "\n", " \n"]) for k in files))
        a = ["indexing/index_json_files.py", "--index", self.index, "--filenames-path", "list", "--es-config", self.config, "--bulk-docs", self.bulk]
        if self.text_field != "text":
            a += ["--text-field", self.text_field]
        if self.id_field:
            a += ["--id-field", self.id_field]
        if self.skip_fields:
            a += ["--skip-fields", ",".join(self.skip_fields) + rng.choice(["", ","])]
        if self.maxsize < 1 << 20:
            a += ["--max-doc-size", self.maxsize]
        if skip or rng.random() < 0.3:
            a += ["--skip", skip]
        ids = os.path.join(self.d, "ids.h5")
        if os.path.exists(ids) and rng.random() < 0.5:
            os.remove(ids)
        if self.saves:
            a += ["--save-ids-file", ids]
        o = py.run(a, self.d, timeout=120)
        self.err = o.err.decode("utf8", "replace")[-1500:]
        saved, noids = [], 1
        if self.saves and os.path.exists(ids):
            noids = 0
            try:
                with open(ids) as f:
                    saved = [self.num(x) for x in json.load(f)["ids"][1]]
            except (ValueError, KeyError):
                noids = 1
            # an interruption before the file of the ids was made anew leaves the old one
            if o.rc != 0 and faulty and not saved:
                noids = 1
        self.runs.append({"files": [k + 1 for k in files], "skip": skip, "errors": errors, "faulty": faulty, "status": 0 if o.rc == 0 else 1,
                          "index": self.look(), "saves": int(self.saves), "ids": saved, "noids": noids})
        self.shown.append({"args": [str(x) for x in a], "faults": faults, "status": o.rc})
        return o.rc

    def case(self):
        return {"kind": "indexing", "files": self.files, "initial": self.before, "runs": self.runs,
                "opts": {"skipfields": self.skip_fields, "idfield": self.id_field, "maxsize": self.maxsize}}


def one(c, i):
    x = Index(c, i)
    for _ in range(x.rng.choice([0, 1, 1, 2])):
        x.run()
    x.run(False)
    if x.rng.random() < 0.4:
        x.run(False)
    acc = None
    last = x.runs[-1]
    if x.saves and last["status"] == 0 and last["ids"]:
        # every index has documents of the saved ids, but only one of them the right ones
        with open(x.state) as f:
            s = json.load(f)
        s["indices"]["laion2b-en-2"] = {"shards": 1, "docs": {}, "seq": 0, "props": []}
        s["faults"] = {}
        with open(x.state, "w") as f:
            json.dump(s, f)
        how = x.rng.choice(["many", "one"])
        req = {"config": x.config, "index": x.index.lower(), "dir": x.d, "n": x.rng.choice([1, 3, 10]), "how": how, "seed": i}
        o = py.run(["python", os.path.join(py.STUBS, "drivers/access_driver.py")], x.d, stdin=json.dumps(req).encode(), timeout=60)
        docs = s["indices"][x.index.lower()]["docs"]
        try:
            got = json.loads(o.out)
        except ValueError:
            got = None
        acc = ({"kind": "access", "n": req["n"], "ids": last["ids"], "out": None if got is None else
                [[x.num(g["_id"]), int(bool(g["found"]) and g["_id"] in docs and g["_source"] == docs[g["_id"]][2])] for g in got]},
               {"request": req, "got": got, "stderr": o.err.decode("utf8", "replace")[-800:]})
    shutil.rmtree(x.d, ignore_errors=True)
    return x, acc


def check(c):
    c.model("Indexing", "Indexing", constants={"MaxRuns": 3, "MaxCrashes": 2})
    if c.thorough:
        c.model("Indexing", "Indexing", constants={"Lines": 6, "Threads": 3, "MaxRuns": 3, "MaxCrashes": 2, "MaxErrors": 2})
    for v, e in (("put", "Kept"), ("fresh", "OwnIds"), ("skipids", "OwnIds"), ("ignore", "Complete"), ("conflict", "NoAlarm"), ("lastchunk", "Complete")):
        c.model("Indexing", "Indexing", e, constants={"Variant": '"%s"' % v})
    for x, acc in pmap(lambda i: one(c, i), range(c.pick(110, 2500))):
        info = {"runs": x.shown, "names": x.names, "rows": x.rows if sum(map(len, x.rows)) < 40 else "many", "stderr": x.err}
        c.judge(x.case(), "documents are missing, repeated or changed, or the saved ids or the status are wrong", info)
        if acc:
            if acc[0]["out"] is None:
                c.violation("random access fails", acc[1])
            else:
                c.judge(acc[0], "random access returns other documents than those of the index", acc[1])
    c.flush()
    c.assumptions += ["a server with the documented semantics of create operations, and h5py, are replaced by stand-ins; ids are distinct",
                      "the same file is always given by the same name"]
