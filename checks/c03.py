"""Results do not depend on thread scheduling."""
from vlib import corpora, wimbd
from vlib.scen import Scen
from . import common


def models(c):
    for k in ("1", "2", "3"):
        c.model("MCPipeline", "Pipeline", constants={"Files": "<- F4", "K": k, "Thr": "0"})
    c.model("MCPipeline", "Pipeline", constants={"Files": "<- F1", "Rare": "TRUE", "Thr": "4"})
    c.model("MCSearchLoc", "SearchLoc", constants={"Limit": "3"})
    c.model("MCStatsMerge", "StatsMerge", constants={"Files": "<- G4"})
    for v in ("stopearly", "trysend"):
        c.model("MCPipeline", "Pipeline", "ExactResult", constants={"Files": "<- F4", "K": "3", "Thr": "0", "Variant": '"%s"' % v})
    c.model("MCSearchLoc", "SearchLoc", "LocationsExact", constants={"Variant": '"loadfirst"'})
    c.model("MCStatsMerge", "StatsMerge", "ListExact", constants={"Files": "<- G4", "Variant": '"popback"'})
    if c.thorough:
        c.model("MCPipeline", "Pipeline", constants={"Files": "<- F5", "W": "3", "K": "3", "Thr": "0"})
        c.model("MCPipeline", "Pipeline", constants={"Files": "<- F6", "W": "3", "K": "2", "Thr": "0", "Cap": "2"})
        c.model("MCStatsMerge", "StatsMerge", constants={"Files": "<- G4", "W": "3"})
        c.model("MCSearchLoc", "SearchLoc", constants={"W": "3"})


def check(c):
    models(c)
    jobs = []
    for cmd in common.CMDS:
        for i in range(c.pick(6, 60)):
            s = common.some(c, cmd, limit=None, flimit=None, dir=False, workers=c.rng.choice([2, 2, 3, 4, 8]),
                            quiet=c.rng.random() < 0.75)
            for p in wimbd.policies(c.rng, c.pick(10, 40), ops=c.rng.choice([150, 400])):
                jobs.append((s, p, c.rng.choice([None, None, 1, 2])))
    # stats merges what the workers found in several steps
    for i in range(c.pick(20, 150)):
        data = corpora.small(c.rng, c.scratch, nfiles=c.rng.choice([2, 3, 4]), toks=(0, 3), ndocs=(1, 4))
        s = Scen("stats", data, c.rng, limit=None, flimit=None, dir=False, workers=c.rng.choice([2, 3, 4]), quiet=c.rng.random() < 0.8)
        for p in wimbd.policies(c.rng, c.pick(10, 40), ops=c.rng.choice([60, 150])):
            jobs.append((s, p, None))
    common.run_scheduled(c, jobs)
    # systematically: run without preemption except for one switch, at every operation
    for cmd in common.CMDS:
        if cmd == "unique":  # its estimate is a long pass over the table
            s = common.some(c, cmd, limit=None, flimit=None, dir=False, workers=2, quiet=True, k=2)
            common.preempt_everywhere(c, [(s, None)], c.pick(40, 400))
            continue
        scens = []
        for i in range(c.pick(4, 20)):
            data = None
            if cmd == "stats":
                data = corpora.small(c.rng, c.scratch, nfiles=c.rng.choice([2, 3]), toks=(0, 3), ndocs=(1, 3))
            s = common.some(c, cmd, data, limit=None, flimit=None, dir=False, workers=2, quiet=True,
                            **({"k": c.rng.choice([1, 2, 3])} if cmd in ("topk", "botk") else {}))
            scens.append((s, c.rng.choice([None, 1])))
        common.preempt_everywhere(c, scens, c.pick(800, 20000))
    common.crowded(c, ["topk", "botk"])
    # and the same files with different numbers of workers, uncontrolled
    free = []
    for cmd in common.CMDS:
        s0 = common.some(c, cmd, limit=None, flimit=None, dir=False)
        for w in (1, 2, 3, 7, 32, 33, 64, None):
            for q in (True, False):
                o = dict(s0.o, workers=w, quiet=q)
                free.append(common.Scen(cmd, s0.data, None, **o))
    common.run_all(c, free, recheck=common.recheck_other_seeds(c))
