"""N-gram counts are never reported too low."""
from vlib import corpora, wimbd
from vlib.scen import Scen
from . import common
from .c05 import histories


def models(c):
    for p in ("P1", "P2", "P3", "P6", "P4"):
        for cells in ("Own", "Shared") + (("Three",) if c.thorough else ()):
            c.model("MCCounter", "Counter", constants={"Prog": "<- " + p, "CellsOf": "<- " + cells, "MaxVal": 20,
                                                       "InitVal": 20 if p in ("P4", "P5") else 0})
    c.model("MCCounter", "Counter", "SomebodySeesTotal", constants={"Variant": '"earlymin"'})
    c.model("MCCounter", "Counter", True, constants={"Variant": '"split"'})


def jobs_for(c, n, runs, pre):
    a, b, d = ["a"], ["b", "c"], ["d"]
    jobs = []

    def add(threads, hashes, size, init=0, w=8):
        jobs.append({"op": "explore", "width": w, "size": size, "hashes": hashes, "seed": c.rng.randrange(2 ** 32),
                     "init": str(init), "threads": threads, "max_runs": runs, "preemptions": pre, "random": runs // 4,
                     "rseed": c.rng.randrange(2 ** 32), "stress": 300,
                     "final": [["max", g, "0"] for g in (a, b, d)]})
    for size in (65521, 1, 2, 3, 5):
        add([[["inc", a, 1]], [["inc", a, 1]]], 2, size)
        add([[["inc", a, 1], ["inc", a, 1]], [["inc", a, 1]]], 2, size)
        add([[["inc", a, 1]], [["inc", a, 1]], [["inc", a, 1]]], 2, size)
        add([[["inc", a, 1], ["inc", b, 1]], [["inc", b, 1], ["inc", a, 1]]], 3, size)
        add([[["dec", a, 1], ["dec", b, 1]], [["dec", a, 1]]], 2, size, init=255)
    for _ in range(n):
        inc = c.rng.random() < 0.7
        threads = [[["inc" if inc else "dec", c.rng.choice([a, a, b, d]), c.rng.choice([1, 1, 2])]
                    for _ in range(c.rng.choice([1, 2, 2, 3]))] for _ in range(c.rng.choice([2, 2, 3]))]
        add(threads, c.rng.choice([1, 2, 3, 5]), c.rng.choice([65521, 1, 2, 3, 4, 7, 16]), 0 if inc else 255,
            c.rng.choice([8, 16]) if inc else 8)
    return jobs


def low(c, n):
    """topk and botk with tables that are far too small."""
    scens = []
    for i, data in enumerate(corpora.standard(c.rng, c.scratch, n)):
        for cmd in ("topk", "botk"):
            scens.append(Scen(cmd, data, c.rng, size=c.rng.choice([8, 12, 16, 40, 100, 400, 1000, 4000]),
                              hashes=c.rng.choice([1, 1, 2, 3, 5, 16])))
    return scens


KINDS = {"topk": ["topk-low"], "botk": ["botk-low"]}


def check(c):
    models(c)
    js = jobs_for(c, c.pick(30, 400), c.pick(250, 4000), c.pick(2, 3))
    histories(c, [j for j in js if j["size"] > 1000], True, "concurrent counting without collisions")
    histories(c, [j for j in js if j["size"] < 1000], False, "concurrent counting with collisions")
    from vlib.core import pmap
    scens = low(c, c.pick(120, 2500))
    for s, o in zip(scens, pmap(lambda s: s.run(), scens)):
        s.judge(c, o, kinds=KINDS[s.cmd])
    c.flush()
    jobs = []
    for _ in range(c.pick(30, 300)):
        cmd = c.rng.choice(["topk", "topk", "botk"])
        s = common.some(c, cmd, limit=None, flimit=None, dir=False, workers=c.rng.choice([2, 3, 4]),
                        size=c.rng.choice([8, 16, 40, 100, 400]), hashes=c.rng.choice([1, 2, 3]),
                        quiet=c.rng.random() < 0.8, k=c.rng.choice([1, 2, 3, 20]))
        for p in wimbd.policies(c.rng, c.pick(10, 40), ops=c.rng.choice([150, 400])):
            jobs.append((s, p, c.rng.choice([None, 1])))
    if wimbd.sched_bin() is None:
        c.notes.append("this tree cannot be built for the controlled scheduler")
        return
    for (s, p, ch), o in zip(jobs, pmap(lambda j: j[0].run(j[1], j[2]), jobs)):
        s.judge(c, o, p, ch, kinds=KINDS[s.cmd])
    c.cov["scheduled_runs"] = len(jobs)
    c.flush()
