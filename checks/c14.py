"""Every run terminates."""
import os
import subprocess

from vlib import damage, wimbd
from vlib.core import pmap
from vlib.scen import Scen
from vlib.wimbd import Data, Doc, rand_files
from . import common
from .c12 import Bad, outcome
from .common import CMDS


def models(c):
    for con in ({"Files": "<- F1"}, {"Files": "<- F1", "W": 3}, {"Files": "<- F1", "Rare": "TRUE", "Thr": 4},
                {"Files": "<- F4", "K": 3, "Thr": 0}, {"Files": "<- F1", "Missing": "{2}"},
                {"Files": "<- F1", "Missing": "{1}"}, {"Files": "<- F3"}, {"Files": "<- F3", "Missing": "{3}"},
                {"Files": "<- F2", "W": 4}):
        c.model("MCPipeline", "PipelineLive", constants=con)
    c.model("MCPipeline", "PipelineLive", True, constants={"Files": "<- F4", "Thr": 0, "Variant": '"joinfirst"'})
    c.model("MCPipeline", "PipelineLive", True, constants={"Files": "<- F1", "Variant": '"nodrop"'})
    for con in ({}, {"Limit": "1"}, {"Limit": "0", "W": 3}):
        c.model("MCSearchLoc", "SearchLoc", constants=con)
    for con in ({}, {"Faults": "<- Thrice"}, {"Faults": "<- TwoEach", "Files": "<- G2"}):
        c.model("MCStatsMerge", "StatsMerge", constants=con)
    for con in ({}, {"MaxRetries": 2}, {"Passes": 2}):
        c.model("MCExecutor", "Executor", constants=con)
    if c.thorough:
        c.model("MCPipeline", "PipelineLive", constants={"Files": "<- F5", "W": 2, "Thr": 0})
        c.model("MCPipeline", "PipelineLive", constants={"Files": "<- F4", "W": 3, "Thr": 0, "Cap": 2})


def ended(c, what, s, o, policy=None, chan=None, more=None):
    if o.timed_out or o.rc in (98, 99):
        c.violation("%s does not terminate (%s)" % (s.cmd, what), dict(s.describe(policy, chan), result=o.show(), more=more))
        return False
    return True


def full_channel(c):
    """More results than the channel holds, uncontrolled."""
    n = 530000
    data = Data([[Doc(["w%d" % i for i in range(n)])]], c.rng, c.scratch, plain=True)
    outs = []
    for cmd in ("topk", "botk"):
        s = Scen(cmd, data, None, n=1, hashes=1, size=1 << 25, k=n, thr=0 if cmd == "topk" else None, quiet=True, workers=1)
        o = s.run(timeout=300)
        ended(c, "more results than the channel holds", s, o)
        recs = None if o.timed_out else o.records()
        if not o.timed_out and (recs is None or o.rc != 0):
            c.violation("%s fails on %d n-grams" % (cmd, n), s.describe())
        outs.append(len(recs or []))
    c.cov["full_channel_results"] = outs


def check(c):
    models(c)
    jobs = []
    for cmd in CMDS:
        # healthy and failing inputs, a channel that is always full, more workers than files
        for i in range(c.pick(10, 80)):
            bad = None
            if i % 2:
                bad = Bad(c, c.rng.choice(["line", "gz", "missing", "missing"]))
                s = bad.scen(c, cmd, limit=None, flimit=None)
            else:
                s = common.some(c, cmd, dir=False)
            s.o["workers"] = c.rng.choice([1, 2, 3, 4, 8])
            if cmd in ("topk", "botk"):
                s.o["thr"] = 0 if cmd == "topk" else None
                s.o["k"] = c.rng.choice([1, 3, 100])
            for p in wimbd.policies(c.rng, c.pick(8, 30), ops=c.rng.choice([100, 300])):
                jobs.append((bad, s, p, c.rng.choice([1, 1, 1, 2, None])))
    if wimbd.sched_bin() is None:
        c.notes.append("this tree cannot be built for the controlled scheduler")
        jobs = []
        full_channel(c)
    for (bad, s, p, ch), o in zip(jobs, pmap(lambda j: j[1].run(j[2], j[3]), jobs)):
        if ended(c, "schedule %s, channel capacity %s%s" % (p, ch, ", " + "; ".join(bad.what) if bad else ""), s, o, p, ch):
            if bad:
                outcome(c, bad, s, o, len(o.out) if o.rc else 0, p)
            else:
                s.judge(c, o, p, ch)
    c.cov["scheduled_runs"] = len(jobs)
    c.flush()
    # uncontrolled: extreme numbers of workers and files, tables of no size, output that cannot be written
    jobs = []
    for cmd in CMDS:
        for w in (1, 2, 33, 64, 200, None):
            jobs.append((common.some(c, cmd, workers=w, dir=False), {}))
        # many files, all of them healthy or one of them damaged
        data = Data([[Doc(["a", "b"][:c.rng.randint(0, 2)])] for _ in range(150)], c.rng, c.scratch)
        jobs.append((common.some(c, cmd, data, workers=c.rng.choice([1, 3, 8, None]), limit=None, flimit=None), {}))
        for how in ("line", "gz", "missing"):
            bad = Bad(c, how, "files")
            jobs.append((bad.scen(c, cmd, limit=None, flimit=None, workers=c.rng.choice([1, 3, 8, None])), {"env": bad.env}))
        if cmd == "topk":
            jobs.append((common.some(c, cmd, flimit=0, dir=False), {}))
        if cmd in ("topk", "botk", "unique"):
            for size in (1, 2, 3, 4, 8):
                jobs.append((common.some(c, cmd, size=size, dir=False, limit=None, flimit=None), {}))
        jobs.append((common.some(c, cmd, limit=0, dir=False), {}))
    for (s, kw), o in zip(jobs, pmap(lambda j: j[0].run(**j[1]), jobs)):
        ended(c, "uncontrolled", s, o)
    stuck = pmap(lambda cmd: full_disk(common.some(c, cmd, dir=False)), CMDS)
    for s, ok in stuck:
        if not ok:
            c.violation("%s does not terminate when its output cannot be written" % s.cmd, s.describe())
    c.accept(len(jobs) + len(stuck))
    c.cov["free_runs"] = len(jobs) + len(stuck)
    if c.thorough:
        full_channel(c)


def full_disk(s):
    with open("/dev/null", "rb") as i:
        r, w = os.pipe()
        os.close(r)
        p = subprocess.Popen([wimbd.real_bin()] + s.args(), stdin=i, stdout=w, stderr=subprocess.DEVNULL)
        os.close(w)
        try:
            p.wait(60)
            return s, True
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return s, False
