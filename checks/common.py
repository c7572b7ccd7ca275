"""Pieces shared by several checks."""
import json
import os

from vlib import corpora, wimbd
from vlib.core import pmap
from vlib.scen import Scen, searches_for, recheck_other_seeds
from vlib.searching import patterns_for, text_files
from vlib.wimbd import Data


def run_all(c, scens, kinds=None, recheck=None):
    """Run scenarios freely (uncontrolled schedule) and have the results judged."""
    for s, o in zip(scens, pmap(lambda s: s.run(), scens)):
        s.judge(c, o, kinds=kinds)
    c.cov["free_runs"] = c.cov.get("free_runs", 0) + len(scens)
    c.flush(recheck=recheck)


def run_scheduled(c, jobs, kinds=None):
    """jobs: (scenario, policy, channel capacity)."""
    if wimbd.sched_bin() is None:
        c.notes.append("this tree cannot be built for the controlled scheduler; schedules are not controlled")
    for (s, p, chan), o in zip(jobs, pmap(lambda j: j[0].run(j[1], j[2]), jobs)):
        s.judge(c, o, p, chan, kinds=kinds)
    c.cov["scheduled_runs"] = c.cov.get("scheduled_runs", 0) + len(jobs)
    c.flush()


def preempt_everywhere(c, scens, budget, kinds=None):
    """Run each scenario with the threads one after the other except for one switch, at every operation in turn
    (a sample of them beyond the budget): everything that one other thread can do in between any two operations of a thread."""
    if wimbd.sched_bin() is None:
        return
    plan = []
    for s, chan in scens:
        log = os.path.join(c.scratch, "ops%d" % len(plan))
        o = s.run("stay:1:", chan, env={"WSCHED_LOG": log})
        s.judge(c, o, "stay:1:", chan, kinds=kinds)
        try:
            ops = json.loads(open(log).read().splitlines()[-1])["ops"]
        except (OSError, ValueError, IndexError, KeyError):
            ops = 300
        ops = min(ops, 1500)
        plan.append([(s, "stay:%d:%d.%d" % (r, op, t), chan) for op in range(1, ops + 1) for t, r in ((1, 1), (1, 2), (2, 1))])
    share = max(1, budget // max(1, len(plan)))
    jobs = [j for js in plan for j in (js if len(js) <= share else c.rng.sample(js, share))]
    seen = set()
    n = 0
    for (s, p, chan), o in zip(jobs, pmap(lambda j: j[0].run(j[1], j[2]), jobs)):
        key = (id(s), o.rc, o.timed_out, o.out)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        s.judge(c, o, p, chan, kinds=kinds)
    c.cov["single_preemptions"] = c.cov.get("single_preemptions", 0) + len(jobs)
    c.cov["single_preemption_results"] = c.cov.get("single_preemption_results", 0) + n
    c.flush()


def crowded(c, cmds, kinds=None):
    """Thousands of results wait while nobody collects them, and the other way round."""
    data = Data(corpora.wide_grams(c.rng, 2, 1500, 300), c.rng, c.scratch)
    jobs = []
    for cmd in cmds:
        o = dict(limit=None, flimit=None, dir=False, workers=c.rng.choice([1, 2]), hashes=5, quiet=True, size=64 << 20, n=1)
        if cmd in ("topk", "botk"):
            o.update(k=c.rng.choice([1700, 5000]), thr=c.rng.choice([0, 1]) if cmd == "topk" else None)
        if cmd == "count":
            o["searches"] = searches_for(c.rng, data, 50)
        s = Scen(cmd, data, c.rng, **o)
        for p in ("workers:1", "main:1", "random:%d:0.02" % c.rng.randrange(10 ** 6)):
            jobs.append((s, p, c.rng.choice([None, None, 20])))
    run_scheduled(c, jobs, kinds=kinds)


def shown(c, cmd, n, kinds=None):
    """The same results as they are printed without --json."""
    scens = []
    for data in corpora.standard(c.rng, c.scratch, n) if cmd != "search" else [Data(text_files(c.rng), c.rng, c.scratch) for _ in range(n)]:
        if kinds and "stats-lists" in kinds and any(d.mult > 300 for f in data.files for d in f):
            continue
        scens.append(some(c, cmd, data, human=True))
    for s, o in zip(scens, pmap(lambda s: s.run(), scens)):
        s.judge(c, o, kinds=kinds)
    c.cov["printed_results"] = len(scens)
    c.flush(recheck=recheck_other_seeds(c))


def scale(c, cmd, kinds=None):
    """Inputs larger than any limit that would go unnoticed on small ones."""
    scens = []
    for shape, data in corpora.scale(c.rng, c.scratch):
        wide = shape == "wide_grams"
        for workers in (1, c.rng.choice([4, 8, None])):
            o = dict(limit=None, flimit=None, dir=c.rng.random() < 0.5, workers=workers, hashes=5, quiet=True,
                     size=64 << 20, n=1 if wide else c.rng.choice([1, 2]))
            if cmd in ("topk", "botk"):
                o.update(k=20000 if workers == 1 else 5000 if wide else c.rng.choice([1, 7]),
                         thr=None if cmd == "botk" else 0 if workers == 1 else c.rng.choice([None, 0]))
            if cmd == "count":
                o["searches"] = searches_for(c.rng, data, 150 if not wide else 20)
            if cmd == "stats" and wide and workers != 1:
                continue
            scens.append(Scen(cmd, data, c.rng, **o))
    if cmd != "search":
        data = Data(corpora.many_lines(c.rng), c.rng, c.scratch)
        o = {"searches": searches_for(c.rng, data, 20)} if cmd == "count" else {}
        for lim in (c.rng.choice([1000, 2599, 2601, 4000]), c.rng.choice([2000, 2500])):
            scens.append(Scen(cmd, data, c.rng, limit=lim, flimit=None, n=1, hashes=5, thr=None, **o))
    for s, o in zip(scens, pmap(lambda s: s.run(), scens)):
        s.judge(c, o, kinds=kinds)
    c.cov["large_inputs"] = len(scens)
    c.flush()


def extremes(c, cmd, n, kinds=None):
    """The largest values that options can have, which stand for "no limit" (and wider n-grams than there is text)."""
    big = [2 ** 31, 2 ** 32 - 1, 10 ** 12, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]
    names = {"topk": ["k", "k", "n"], "botk": ["k", "k", "n"], "unique": ["n"], "search": ["loclimit"]}.get(cmd, []) + ["limit", "flimit", "workers"]
    scens = []
    for i in range(n):
        x = names[i % len(names)]
        o = {x: c.rng.choice(big)}
        if x == "loclimit":
            o["locations"] = True
        scens.append(some(c, cmd, **o))
    for s, o in zip(scens, pmap(lambda s: s.run(), scens)):
        s.judge(c, o, kinds=kinds)
    c.cov["extreme_options"] = len(scens)
    c.flush()


def some(c, cmd, data=None, **o):
    """A random scenario for a subcommand on a small data set."""
    rng = c.rng
    if data is None:
        data = Data(text_files(rng, rng.choice([2, 3, 4])), rng, c.scratch) if cmd == "search" else corpora.small(rng, c.scratch)
    if cmd == "count":
        o.setdefault("searches", searches_for(rng, data))
    if cmd == "search":
        o.setdefault("patterns", patterns_for(rng, 2))
        o.setdefault("locations", rng.random() < 0.7)
        if o["locations"]:
            o.setdefault("loclimit", rng.choice([None, None, 1, 2, 3, 5]))
    if cmd in ("topk", "botk", "unique"):
        o.setdefault("hashes", rng.choice([3, 5]))
        o.setdefault("n", rng.choice([1, 2]))
    if cmd in ("topk", "botk"):
        o.setdefault("k", rng.choice([1, 2, 3, 5, 20]))
        o.setdefault("thr", rng.choice([None, 0, 1, 2] if cmd == "topk" else [None, 2, 3, 100]))
    return Scen(cmd, data, rng, **o)


CMDS = ["topk", "botk", "stats", "count", "search", "unique"]
