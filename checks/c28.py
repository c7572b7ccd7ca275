"""Interrupted downloads resume without loss or duplication."""
import gzip
import json
import os
import random
import re
import shutil
import subprocess
import time
import zlib

from vlib import py, tlc
from vlib.core import pmap

SIZES = {"OneSplit": [5], "TwoSplits": [3, 4], "Tiny": [3], "Larger": [7, 1], "WithEmpty": [0, 3]}
SPLITS = ["train", "test", "validation", "train_1", "a.b", "x y", "train0"]


class Download:
    """A data set, a directory and the runs in it."""

    def __init__(self, rng, d, sizes, batch, workers):
        self.rng, self.d, self.sizes, self.batch, self.workers = rng, d, sizes, batch, workers
        self.splits = rng.sample(SPLITS, len(sizes))
        self.field = rng.choice(["text", "text", "content"])
        self.rows = []
        for s, n in enumerate(sizes):
            self.rows.append([{"id": "%d-%d" % (s, i), self.field: rng.choice(["a\nb", "\u00e9 \u2028", "", "t" * 30, "\U0001f600"]), "x": [i, None]}
                              for i in range(n)])
        os.makedirs(d)
        self.data = os.path.join(d, "data.json")
        self.out = os.path.join(d, rng.choice(["out", "new/out", "o o"]))
        with open(self.data, "w") as f:
            json.dump([[s, r] for s, r in zip(self.splits, self.rows)], f)
        self.obs, self.log, self.err = [], [], ""
        self.exact = self.planned = 0          # runs that followed their behaviour

    def command(self):
        a = ["python", os.path.join(py.WIMBD, "indexing/huggingface.py"), "--dataset", self.data, "--output-dir", self.out,
             "--batch-size", str(self.batch), "--num-workers", str(self.workers)]
        return a + (["--text-field", self.field] if self.field != "text" or self.rng.random() < 0.3 else [])

    def look(self, status, faulty):
        files = []
        for f in sorted(os.listdir(self.out)) if os.path.isdir(self.out) else []:
            for s, name in enumerate(self.splits):
                m = re.fullmatch(re.escape(name) + r"_(\d+)\.jsonl\.gz", f)
                if not m:
                    continue
                nums = []
                try:
                    with gzip.open(os.path.join(self.out, f), "rb") as g:
                        text = g.read().decode("utf8")
                    for line in (text[:-1] if text.endswith("\n") else text).split("\n"):
                        nums.append(self.number(s, json.loads(line)))
                except (OSError, EOFError, ValueError, zlib.error):
                    nums.append(-1)
                files.append([s + 1, int(m.group(1)), nums])
        self.obs.append({"status": 0 if status == 0 else 1, "faulty": int(faulty), "files": files})

    def number(self, s, row):
        want = {r["id"]: (i, r) for i, r in enumerate(self.rows[s])}
        if not isinstance(row, dict) or row.get("id") not in want:
            return 0
        i, r = want[row["id"]]
        r = dict(r)
        r["text"] = r.pop(self.field)
        return i + 1 if r == row else 0

    def run(self, order=None, key=None, seed=0, kill=None, jitter=None):
        """order: acts of one run. kill: end the process after that time."""
        extra, ctl = {}, None
        if order is not None:
            ctl = py.Controller(self.d, order, key=key, seed=seed, patience=0.25)
            extra = {"PVGATE": ctl.path, "PVGATE_FS": self.d, "PVGATE_NOT": "mkdir"}
        elif jitter:
            extra = {"PVJITTER": jitter, "PVGATE_FS": self.d, "PVGATE_NOT": "mkdir"}
        p = subprocess.Popen(self.command(), cwd=self.d, env=py.env(self.d, **extra), stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, start_new_session=True)
        try:
            if kill is not None:
                time.sleep(kill)
                p.kill()
            _, err = p.communicate(timeout=90)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            rc = -1000
        if ctl:
            ctl.close()
            self.log.append([list(t) for t in ctl.trace])
        self.err = err.decode("utf8", "replace")[-1500:]
        return rc

    def case(self):
        return {"kind": "hf", "sizes": self.sizes, "b": self.batch, "obs": self.obs}

    def info(self, **kw):
        return dict({"sizes": self.sizes, "splits": self.splits, "batch": self.batch, "workers": self.workers, "runs": self.log,
                     "observed": self.obs, "stderr": self.err}, **kw)


def replay(c, i, beh):
    """One behaviour of the specification."""
    name, workers, hist = beh
    rng = random.Random("hf-%d-%d" % (c.seed, i))
    d = Download(rng, os.path.join(c.scratch, "h%d" % i), SIZES[name], 2, workers)

    def key(m, state):
        for s, n in enumerate(d.splits):
            x = re.match(re.escape(n) + r"_(\d+)\.", m.get("file") or "")
            if x:
                return "%d-%s-%s" % (s + 1, x.group(1), m["point"])
        return None
    for k, acts in enumerate(hist):
        order = [py.Act("%d-%d-%s" % (s, b, st), w) for s, b, st, w in acts]
        faulty = any(a.word != "go" for a in order)
        rc = d.run(order, key, seed=i)
        d.exact += [t[0] for t in d.log[-1]] == [a.key for a in order]
        d.planned += 1
        d.look(rc, faulty)
        if faulty and rc == 0 and len(hist) > 1 and k == len(hist) - 1:
            break
    if d.obs[-1]["faulty"]:
        d.look(d.run(), 0)
    shutil.rmtree(d.d, ignore_errors=True)
    return d, "order %s" % (hist,)


def free(c, i):
    """Larger data, processes killed at random times."""
    rng = random.Random("hff-%d-%d" % (c.seed, i))
    sizes = [rng.choice([0, 1, 7, 20, 40]) for _ in range(rng.choice([1, 1, 2, 3]))]
    d = Download(rng, os.path.join(c.scratch, "f%d" % i), sizes, rng.choice([1, 2, 3, 5, 20, 100]), rng.choice([1, 2, 5, 8]))
    for _ in range(rng.choice([0, 1, 2, 3])):
        rc = d.run(kill=rng.choice([0.05, 0.1, 0.15, 0.2, 0.3, 0.5]) + rng.random() * 0.2, jitter=rng.choice([3, 20, 60]))
        d.look(rc, rc != 0)
    d.look(d.run(), 0)
    if rng.random() < 0.3:
        d.look(d.run(), 0)
    shutil.rmtree(d.d, ignore_errors=True)
    return d, "killed at random times"


def behaviours(c):
    def gen(a):
        name, w = a
        r = tlc.run("MCHfResume", "HfResumeGen", constants={"Sizes": "<- " + name, "Workers": w, "MaxCrashes": c.pick(2, 3)}, workers=1,
                    timeout=300, args=["-simulate", "num=%d" % c.pick(400, 5000), "-seed", str(c.seed), "-depth", "90"])
        hs = {json.dumps(h): h for h in r.prints("HIST")}
        if not hs:
            raise tlc.TlcError("no behaviours of HfResume: " + r.out[-2000:])
        c.states += r.distinct
        # those with interruptions are of interest
        hs = [h for h in hs.values() if len(h) > 1 or random.Random(c.seed).random() < 0.1]
        rng = random.Random("%s-%d-%d" % (name, w, c.seed))
        return [(name, w, h) for h in rng.sample(hs, min(len(hs), c.pick(14, 250)))]
    out = []
    for x in pmap(gen, [("OneSplit", 2), ("OneSplit", 3), ("TwoSplits", 2), ("Larger", 3), ("WithEmpty", 1)]):
        out += x
    c.cov["behaviours_of_the_specification"] = len(out)
    return out


def check(c):
    c.model("MCHfResume", "HfResume", constants={"MaxCrashes": c.pick(2, 3), "MaxFails": c.pick(1, 2)})
    c.model("MCHfResume", "HfResume", constants={"Sizes": "<- TwoSplits", "Workers": c.pick(2, 3)})
    c.model("MCHfResume", "HfResume", constants={"Sizes": "<- WithEmpty"})
    if c.thorough:
        c.model("MCHfResume", "HfResume", constants={"Sizes": "<- Larger", "Workers": 3, "MaxCrashes": 2})
    for v, e in (("direct", "FinalIsComplete"), ("count", "NothingLost"), ("max", "NothingLost"), ("tmpdone", "NothingLost"),
                 ("append", "FinalIsComplete"), ("skip", "FinalIsComplete"), ("early", "FinalIsComplete"), ("nextsplit", "NothingLost")):
        c.model("MCHfResume", "HfResume", e, constants={"Variant": '"%s"' % v})
    beh = behaviours(c)
    jobs = [(replay, i, b) for i, b in enumerate(beh)] + [(free, i) for i in range(c.pick(40, 600))]
    exact = planned = 0
    for d, what in pmap(lambda j: j[0](c, *j[1:]), jobs, 12):
        c.judge(d.case(), "after an interruption examples are missing, repeated or changed, or a finished file is not complete (%s)" % what[:300],
                d.info(what=what))
        exact += d.exact
        planned += d.planned
    c.cov["runs_planned_by_behaviours"], c.cov["runs_that_followed_exactly"] = planned, exact
    c.flush()
    c.assumptions += ["datasets is replaced by a stand-in that streams the same examples in every run; interruptions are of the process, "
                      "not of the machine"]
