"""A seed makes results reproducible across runs."""
import os

from vlib import driver, wimbd
from vlib.core import pmap
from vlib.scen import Scen
from vlib.wimbd import Data, rand_files

SEEDS = [0, 1, 2, 42, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]


def models(c):
    for con in ({}, {"K": 1}, {"Files": "<- G3", "Thr": 1}, {"Files": "<- G2", "NumGrams": 4, "K": 1},
                {"Files": "<- G5", "K": 1},
                {"Mode": '"botk"', "W": 2}, {"Mode": '"botk"', "W": 2, "K": 1, "Files": "<- G4", "NumGrams": 2},
                {"Mode": '"unique"', "W": 2, "CellMax": 1},
                {"Mode": '"unique"', "W": 3, "CellMax": 3, "Files": "<- G4", "NumGrams": 2, "NumCells": 3}):
        c.model("MCRepro", "Repro", constants=con)
    c.model("MCRepro", "Repro", "Reproducible", constants={"Variant": '"strict"', "K": 1, "Files": "<- G5"})
    c.model("MCRepro", "Repro", "Reproducible", constants={"W": 2, "Files": "<- G4", "NumGrams": 2})
    if c.thorough:
        c.model("MCRepro", "Repro", constants={"Files": "<- G3", "NumCells": 3, "Thr": 1})
        c.model("MCRepro", "Repro", constants={"Mode": '"botk"', "W": 2, "Files": "<- G3"})
        c.model("MCRepro", "Repro", constants={"Mode": '"unique"', "W": 3, "Files": "<- G3"})


class Group:
    """One command, data set and set of options, run in many ways."""

    def __init__(self, c, cmd, seed=None):
        rng = c.rng
        self.data = Data(rand_files(rng, nfiles=rng.choice([1, 2, 3, 5, 8]), ndocs=(1, 6), toks=(1, 12),
                                    nvocab=rng.choice([4, 12, 25]), mult_p=0), rng, c.scratch)
        cells = rng.choice([1, 2, 3, 5, 7, 16, 40, 200, 4000] if seed is None else [60, 100] if cmd == "unique" else [7, 16])
        width = 1 if cmd == "unique" else 4
        self.cmd = cmd
        self.s = Scen(cmd, self.data, rng, workers=1, dir=False, size=cells * width + rng.choice([0, 0, width - 1]),
                      seed=rng.choice(SEEDS + [rng.randrange(2 ** 64)]) if seed is None else seed, u64=False, limit=None, flimit=rng.choice([None, None, 2]),
                      hashes=rng.choice([1, 2, 3, 5]), n=rng.choice([1, 1, 2, 3]), k=rng.choice([1, 2, 3, 5, 10, 100]),
                      thr=rng.choice([None, None, 0, 2] if cmd == "topk" else [None, None, 3, 50]))
        if seed is not None:
            self.jobs = [{}, {}, {}]
            return
        self.jobs = [{}, {}, {"quiet": not self.s.o["quiet"]}, {"cwd": True}, {"env": {"HOME": "/nonexistent", "LANG": "C", "TZ": "Asia/Tokyo"}}]
        for p in wimbd.policies(rng, c.pick(5, 12), ops=150):
            self.jobs.append({"policy": p, "chan": rng.choice([None, 1, 2])})
        if cmd == "unique":
            for w in (2, 3, 8, 40, None):
                self.jobs.append({"workers": w})
            for p in wimbd.policies(rng, c.pick(5, 12), ops=150):
                self.jobs.append({"policy": p, "workers": rng.choice([2, 3, 4])})

    def run(self, j):
        o = dict(self.s.o)
        try:
            for k in ("quiet", "workers"):
                if k in j:
                    self.s.o[k] = j[k]
            args = self.s.args()
        finally:
            self.s.o = o
        if j.get("cwd"):
            args = [os.path.relpath(a, self.data.dir) if a.startswith(self.data.dir) else a for a in args]
            return args, wimbd.run(args, cwd=self.data.dir)
        return args, self.s.run(j.get("policy"), j.get("chan"), env=j.get("env"), args=args)


def check(c):
    models(c)
    groups = [Group(c, cmd) for _ in range(c.pick(22, 300)) for cmd in ("topk", "botk", "unique")]
    groups += [Group(c, cmd, seed) for seed in SEEDS for cmd in ("topk", "botk", "unique")]
    todo = [(g, j) for g in groups for j in g.jobs]
    # interleave, so that runs of one group are far apart in time
    order = list(range(len(todo)))
    c.rng.shuffle(order)
    outs = [None] * len(todo)
    for i, r in zip(order, pmap(lambda i: run_group(*todo[i]), order)):
        outs[i] = r
    k = 0
    differ = 0
    for g in groups:
        rs = outs[k:k + len(g.jobs)]
        k += len(g.jobs)
        ids = {}
        case = {"kind": "repro", "status": [], "out": []}
        for _, o in rs:
            case["status"].append(99 if o.timed_out else o.rc)
            case["out"].append(ids.setdefault(o.out, len(ids) + 1))
        differ += len(ids) > 1
        c.judge(case, "%s --seed %s: runs with the same seed fail or differ" % (g.cmd, g.s.o["seed"]),
                {"runs": [{"args": a, "how": j, "result": o.show()} for (a, o), j in zip(rs, g.jobs)],
                 "files": g.data.dump()})
    c.flush()
    c.cov["groups"] = len(groups)
    c.cov["runs"] = len(todo)
    library(c)


def run_group(g, j):
    import copy
    h = copy.copy(g)
    h.s = copy.copy(g.s)
    h.s.o = dict(g.s.o)
    return h.run(j)


def library(c):
    """The same seed gives the same hash functions in every process that uses the library."""
    jobs = []
    for _ in range(c.pick(60, 600)):
        seed = c.rng.choice(SEEDS + [c.rng.randrange(2 ** 64)])
        toks = [["t%d" % c.rng.randrange(6) for _ in range(c.rng.choice([1, 2]))] for _ in range(8)]
        jobs.append({"op": "counter", "width": c.rng.choice([8, 32, 64]), "size": c.rng.choice([1, 2, 3, 5, 9]),
                     "hashes": c.rng.choice([1, 2, 3]), "seed": str(seed), "init": "0",
                     "ops": [["inc", t, c.rng.choice([1, 2])] for t in toks] + [["max", t, "0"] for t in toks] + [["nonzero", [], "0"]]})
    answers = [driver.call(jobs), driver.call(list(reversed(jobs)))[::-1]] + [
        sum(pmap(lambda j: driver.call([j]), jobs), [])]
    for i, j in enumerate(jobs):
        ids = {}
        case = {"kind": "repro", "status": [1 if "crash" in a[i] or isinstance(a[i], dict) else 0 for a in answers],
                "out": [ids.setdefault(str(a[i]), len(ids) + 1) for a in answers]}
        c.judge(case, "NgramCounter with seed %s counts differently in another process" % j["seed"],
                {"command": j, "answers": [a[i] for a in answers]})
    c.flush()
