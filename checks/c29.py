"""Preparing data sets: runs that are ended, interrupted or fail at any point, followed by complete ones."""
import gzip
import json
import os
import random
import re
import shutil
import urllib.parse
import zlib

from vlib import py
from vlib.build import REPO
from vlib.core import pmap

TEXTS = ["a", "a b\nc", "", "x" * 70, "\u00e9 \u2028 \U0001f600", "print('<<')", "{\"text\": 1}\t", "it\u00e2\u20ac\u2122s"]
LANGS = ["C", "C++", "C#", "Jupyter Notebook", "Python", "F#", "Ada", "q"]


def slug(x):
    return x.lower().replace(" ", "-").replace("#", "-sharp")


class Tool:
    """One script with its inputs; `once` runs it, `look` observes the results."""
    kind = "prepare"
    faults = ("PVKILL", "PVINT", "PVFAIL")

    def __init__(self, c, rng, d):
        self.c, self.rng, self.d = c, rng, d
        self.obs, self.log, self.err = [], [], ""
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, "preparation"), os.path.join(d, "preparation"), ignore=shutil.ignore_patterns("*.txt", "__pycache__"))
        self.setup()

    def once(self, fault=None, k=0):
        self.n = getattr(self, "n", 0) + 1
        points = os.path.join(self.d, "points%d" % self.n)
        extra = {"PVGATE_FS": self.d, "PVCOUNT": points, "HF_TOKEN": "token", "PV_WEB": os.path.join(self.d, "web.json"),
                 "PV_BUCKETS": os.path.join(self.d, "buckets"), "PARALLEL_SEED": self.n, "TMPDIR": self.d}
        if fault:
            extra[fault] = k
        hit = os.path.join(self.d, "line-hit")
        if os.path.exists(hit):
            os.unlink(hit)
        o = self.call(extra)
        self.points = os.path.getsize(points) if os.path.exists(points) else 0
        self.err = o.err.decode("utf8", "replace")[-1500:]
        faulty = int(os.path.exists(hit) if fault == "PVLINE" else fault is not None and self.points >= k)
        self.log.append([fault, k, o.rc])
        self.obs.append(dict(self.look(), status=0 if o.rc == 0 else 1, faulty=faulty))
        return faulty

    def command(self, cmd, extra, cwd=None):
        return py.run(cmd, self.d, cwd=cwd, timeout=120, extra=extra)

    def judge(self, what):
        self.c.judge(dict(self.want(), kind=self.kind, obs=self.obs),
                     "%s: results are lost, incomplete or changed after an interrupted run (%s)" % (self.name, what),
                     {"runs": self.log, "observed": self.obs, "stderr": self.err, "input": self.describe()})
        shutil.rmtree(self.d, ignore_errors=True)


def rows_of(data, number):
    try:
        text = gzip.decompress(data).decode("utf8")
        if text and not text.endswith("\n"):
            return [-1]
        return [number(json.loads(x)) for x in text.split("\n")[:-1]]
    except (OSError, EOFError, ValueError, zlib.error):
        return [-1]


class Stack(Tool):
    name = "preparation/stack/download"

    def setup(self):
        rng = self.rng
        self.items, self.rows, web = [], [], {}
        for s in rng.sample(LANGS, rng.choice([1, 2])):
            n = rng.choice([1, 2, 3])
            for i in range(n):
                rows = [{"hexsha": "%s-%d-%d" % (s, i, k), "content": rng.choice(TEXTS), "lang": s, "size": k, "licenses": ["mit"], "stars": rng.choice([None, 3])}
                        for k in range(rng.choice([0, 1, 4, 9]))]
                url = "https://huggingface.co/datasets/bigcode/the-stack/resolve/v1.2/data/%s/train-%05d-of-%05d.parquet" % (slug(s), i, n)
                self.items.append((slug(s), "train-%05d-of-%05d.jsonl.gz" % (i, n), url))
                self.rows.append(rows)
                web[url] = json.dumps({c: [r[c] for r in rows] for c in ("hexsha", "content", "lang", "size", "licenses", "stars")})
        with open(os.path.join(self.d, "web.json"), "w") as f:
            json.dump(web, f)
        with open(os.path.join(self.d, "list.txt"), "w") as f:
            f.write("".join(u + "\n" for _, _, u in self.items))
        self.how = rng.choice(["download.sh", "download_url.sh", "download_url.py"])
        self.out = os.path.join(self.d, rng.choice(["out", "new/out"]))
        if rng.random() < 0.2:
            # an empty file of a download that could not be started
            s, f, _ = self.items[0]
            os.makedirs(os.path.join(self.out, s))
            open(os.path.join(self.out, s, f), "w").close()

    def call(self, extra):
        cwd = os.path.join(self.d, "preparation/stack")
        if self.how == "download.sh":
            return self.command(["bash", os.path.join(cwd, "download.sh"), os.path.join(self.d, "list.txt"), self.out], extra, cwd)
        first, rc = None, 0
        for _, _, u in self.items:
            cmd = ["bash", os.path.join(cwd, "download_url.sh")] if self.how == "download_url.sh" else ["python", os.path.join(cwd, "download_url.py")]
            o = self.command(cmd + [u, self.out], extra, cwd)
            if o.rc != 0:
                return o
        return o

    def look(self):
        files = []
        for r, _, fs in os.walk(self.out):
            for f in sorted(fs):
                if not f.endswith(".jsonl.gz"):
                    continue
                where = os.path.relpath(os.path.join(r, f), self.out)
                i = next((k for k, (s, n, _) in enumerate(self.items) if os.path.join(s, n) == where), -1)
                with open(os.path.join(r, f), "rb") as g:
                    data = g.read()
                if not data:
                    continue          # downloaded again by the next run
                files.append([i + 1, rows_of(data, lambda x: self.number(i, x))])
        return {"files": sorted(files)}

    def number(self, i, x):
        for k, r in enumerate(self.rows[i]):
            if isinstance(x, dict) and x.get("id") == r["hexsha"]:
                want = {"id": r["hexsha"], "text": r["content"], "lang": r["lang"].lower().replace(" ", "-"), "source": "stack-v1.2",
                        "metadata": {"size": r["size"], "licenses": r["licenses"], "stars": r["stars"]}, "timestamp": "2023-03-16T00:00:00"}
                x = dict(x)
                x.pop("added", None)
                return k + 1 if x == want else 0
        return 0

    def want(self):
        return {"want": [list(range(1, len(r) + 1)) for r in self.rows]}

    def describe(self):
        return {"how": self.how, "items": self.items, "rows": [len(r) for r in self.rows]}


class Urls(Tool):
    name = "preparation/stack/get_urls.py"
    kind = "urls"
    faults = ("PVKILL", "PVINT", "PVINT", "PVFAIL")

    def setup(self):
        rng = self.rng
        self.langs = [(x, rng.choice([1, 1, 2, 3, 5, 12])) for x in rng.sample(LANGS, rng.choice([1, 2, 3, 5]))]
        self.version = rng.choice(["v1.1", "v1.2"])
        base = "https://huggingface.co/datasets/bigcode/the-stack/resolve/%s/" % self.version
        web = {base + "programming-languages.json": json.dumps({x: [".x"] for x, _ in self.langs})}
        for x, n in self.langs:
            for i in range(n):
                web[base + "data/%s/train-%05d-of-%05d.parquet" % (slug(x), i, n)] = "{}"
        self.base = base
        with open(os.path.join(self.d, "web.json"), "w") as f:
            json.dump(web, f)

    def call(self, extra):
        a = ["python", os.path.join(self.d, "preparation/stack/get_urls.py"), "--output-file", os.path.join(self.d, "urls.txt")]
        return self.command(a + (["--version", self.version] if self.version != "v1.1" or self.rng.random() < 0.3 else []), extra)

    def look(self):
        lines = []
        try:
            with open(os.path.join(self.d, "urls.txt")) as f:
                text = f.read()
        except OSError:
            text = ""
        names = [slug(x) for x, _ in self.langs]
        for u in text.split("\n")[:-1] + ([text.split("\n")[-1]] if text and not text.endswith("\n") else []):
            m = re.fullmatch(re.escape(self.base) + r"data/([^/]+)/train-(\d{5})-of-(\d{5})\.parquet", u)
            lines.append([names.index(m.group(1)) + 1 if m.group(1) in names else 0, int(m.group(2)) + 1, int(m.group(3))] if m else [0, 0, 0])
        return {"lines": lines}

    def want(self):
        return {"langs": [n for _, n in self.langs]}

    def describe(self):
        return {"langs": self.langs}


class Buckets(Tool):
    def put(self, url, data):
        b, _, name = url[len("gs://"):].partition("/")
        d = os.path.join(self.d, "buckets", urllib.parse.quote(b, safe=""))
        os.makedirs(d, exist_ok=True)
        if name:
            with open(os.path.join(d, urllib.parse.quote(name, safe="")), "wb") as f:
                f.write(data)

    def objects(self, url):
        b = url[len("gs://"):].partition("/")[0]
        d = os.path.join(self.d, "buckets", urllib.parse.quote(b, safe=""))
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f), "rb") as g:
                yield urllib.parse.unquote(f), g.read()

    def places(self):
        rng = self.rng
        self.inp = "gs://in" + rng.choice(["", "/", "/c4/multilingual/3.0.1", "/c4/"])
        self.outp = "gs://out" + rng.choice(["", "/", "/v1", "/pre/processed/"])
        self.put("gs://in/", b"")
        self.put("gs://out/", b"")
        self.inbase = self.inp.rstrip("/") + "/"
        self.outbase = self.outp.rstrip("/") + "/"

    def call(self, extra):
        return self.command(["python", os.path.join(self.d, self.script), self.inp, self.outp], extra)

    def look(self):
        files = []
        for name, data in self.objects(self.outp):
            full = "gs://out/" + name
            i = self.names.index(full[len(self.outbase):]) if full.startswith(self.outbase) and full[len(self.outbase):] in self.names else -1
            files.append([i + 1, rows_of(data, lambda x: self.number(i, x))])
        return {"files": files}

    def describe(self):
        return {"input": self.inp, "output": self.outp, "names": self.names}


class Mc4(Buckets):
    name = script = "preparation/mc4/mc4.py"

    def setup(self):
        rng = self.rng
        self.places()
        self.names, self.rows = [], []
        for lang in rng.sample(["en", "af", "zh", "und", "sr"], rng.choice([1, 2, 3])):
            for part in rng.sample(["", "-validation"], rng.choice([1, 2])):
                n = rng.choice([1, 2, 3])
                for k in range(n):
                    rows = [{"text": rng.choice(TEXTS), "timestamp": "2020-01-0%dT00:00:00Z" % rng.randint(1, 9), "url": "http://x.org/%d" % rng.randrange(10 ** 6)}
                            for _ in range(rng.choice([0, 1, 3, 6]))]
                    self.put(self.inbase + "c4-%s%s.tfrecord-%05d-of-%05d" % (lang, part, k, n), "".join(json.dumps(r) + "\n" for r in rows).encode())
                    out = "c4-%s%s.%05d" % (lang, part, k)
                    self.names.append(out + ".json.gz")
                    self.rows.append([{"source": "mc4", "id": "%s-%d" % (out, j), "text": r["text"].replace("\u00e2\u20ac\u2122", "'"), "timestamp": r["timestamp"],
                                       "metadata": {"url": r["url"]}, "lang": {lang: 1.0}} for j, r in enumerate(rows)])
        self.put(self.inbase + "dataset_info.json", b"{}")

    def number(self, i, x):
        if isinstance(x, dict) and i >= 0:
            x.pop("added", None)
            for j, r in enumerate(self.rows[i]):
                if x == r:
                    return j + 1
        return 0

    def want(self):
        return {"want": [list(range(1, len(r) + 1)) for r in self.rows]}


class Combine(Buckets):
    name = script = "preparation/mc4/combine_adjacent_files.py"

    def setup(self):
        rng = self.rng
        self.places()
        self.names, self.groups, rid = [], [], 0
        for prefix in rng.sample(["c4-en", "c4-af", "c4-en-validation", "c4-zh"], rng.choice([1, 2, 3])):
            first = rng.choice([0, 0, 9, 98])
            n = rng.choice([1, 3, 4, 5, 8, 9])
            files = []
            for k in range(first, first + n):
                rows = list(range(rid + 1, rid + 1 + rng.choice([0, 1, 2])))
                rid += len(rows)
                self.put(self.inbase + "%s.%05d.json.gz" % (prefix, k), gzip.compress("".join(json.dumps({"n": r}) + "\n" for r in rows).encode()))
                files.append((k, rows))
            for a in range(0, n, 4):
                part = files[a:a + 4]
                self.names.append(prefix + "." + "-".join("%05d" % k for k, _ in part) + ".json.gz")
                self.groups.append([r for _, rs in part for r in rs])
        self.put(self.inbase + "readme.txt", b"x")

    def number(self, i, x):
        return x["n"] if isinstance(x, dict) and isinstance(x.get("n"), int) else 0

    def want(self):
        return {"want": self.groups}


def history(c, i, cls, plan):
    """plan: faults of the runs before the complete one, as (kind, share of the points of a run)."""
    d = os.path.join(c.scratch, "%s-%d" % (cls.__name__, i))
    t = cls(c, random.Random("c29-%s-%d-%d" % (cls.__name__, c.seed, i)), d)
    for fault, k in plan:
        t.once(fault, k)
    if t.once():
        raise AssertionError
    if i % 3 == 0:
        t.once()
    return t, plan


def check(c):
    c.model("Prepare", constants={"N": c.pick(3, 4), "Workers": c.pick(2, 3), "MaxCrashes": c.pick(2, 3)})
    for v, e in (("direct", "FinalIsComplete"), ("always", "FinalIsComplete"), ("missing", "NothingLost"), ("tmpdone", "NothingLost"),
                 ("append", "FinalIsComplete"), ("early", "FinalIsComplete"), ("number", "NothingLost"), ("shared", "FinalIsComplete")):
        c.model("Prepare", None, e, constants={"Variant": '"%s"' % v})
    c.model("MCUrlList", "UrlList", constants={"Langs": "<- L4", "MaxStops": c.pick(3, 5)})
    for v, e in (("inplace", "OnlyComplete"), ("partial", "OnlyComplete"), ("again", "OnlyComplete"), ("onemore", "OnlyComplete"),
                 ("lines", "NothingLost"), ("first", "OnlyComplete")):
        c.model("MCUrlList", "UrlList", e, constants={"Variant": '"%s"' % v})
    rng = random.Random("c29-%d" % c.seed)
    jobs = []
    for cls, most in ((Stack, 40), (Urls, 40), (Mc4, 40), (Combine, 14)):
        ks = list(range(1, most + 1)) * c.pick(1, 12)
        plans = [[]] * c.pick(4, 40)
        plans += [[("PVKILL", k)] for k in ks] + [[(rng.choice(cls.faults), k)] for k in ks[::2]]
        plans += [[(rng.choice(cls.faults), rng.randint(1, most)) for _ in range(rng.choice([2, 3]))] for _ in range(c.pick(12, 200))]
        if cls is Urls:
            # interruptions between any two lines: an interrupted search keeps what it has found
            plans += [[("PVLINE", rng.randint(1, 220)) for _ in range(rng.choice([1, 1, 2]))] for _ in range(c.pick(40, 600))]
        jobs += [(cls, p) for p in plans]
    hit = 0
    for t, plan in pmap(lambda j: history(c, j[0], *j[1]), list(enumerate(jobs))):
        hit += sum(o["faulty"] for o in t.obs)
        t.judge(plan)
    c.cov["interrupted_runs"] = hit
    c.flush()
    c.assumptions += ["the web site, the storage service, tensorflow and pandas are stand-ins; an upload appears as a whole",
                      "interruptions are of the processes, not of the machine"]
