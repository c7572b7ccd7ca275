"""stats retries a failed file without counting anything twice."""
import itertools
import os
import zlib

from vlib import damage, wimbd, tlc
from vlib.core import pmap
from vlib.scen import Scen
from vlib.wimbd import Data, Doc, rand_files
from . import common


def models(c):
    c.model("MCExecutor", "Executor", constants={"MaxRetries": 2})
    c.model("MCExecutor", "Executor", constants={"MaxRetries": 2, "Lines": "<- L3", "Plans": "<- Plan3", "Missing": "<- NoneMissing"})
    c.model("MCExecutor", "Executor", "CompleteOnSuccess", constants={"MaxRetries": 2, "Variant": '"keep"'})
    c.model("MCStatsMerge", "StatsMerge", constants={"Faults": "<- Twice"})
    c.model("MCStatsMerge", "StatsMerge", constants={"Files": "<- G4", "Faults": "<- Twice"})
    c.model("MCStatsMerge", "StatsMerge", ["TotalsExact", "ListExact"], constants={"Faults": "<- Twice", "Variant": '"keep"'})
    if c.thorough:
        c.model("MCExecutor", "Executor", constants={"MaxRetries": 2, "W": 3, "Lines": "<- L3", "Plans": "<- Plan3"})
        c.model("MCStatsMerge", "StatsMerge", constants={"Files": "<- G4", "Faults": "<- Twice", "W": 3})


def flushed(docs):
    """A gzip file in which every line can be decoded as soon as its bytes have been read, and the offsets at which
    the lines end."""
    z = zlib.compressobj(6, zlib.DEFLATED, 31)
    out, ends = b"", []
    for d in docs:
        out += z.compress(d.line * d.mult) + z.flush(zlib.Z_FULL_FLUSH)
        ends.append(len(out))
    return out + z.flush(), ends


class Faulty:
    """A data set and, per file, what happens to the attempts at it: None or the number of lines after which the
    attempt fails (-1: it cannot even be opened)."""

    def __init__(self, c, files, plans):
        self.data = Data(files, c.rng, c.scratch, members=1)
        self.plans = plans
        rules = []
        for i, docs in enumerate(self.data.files):
            raw, ends = flushed(docs)
            with open(self.data.paths[i], "wb") as f:
                f.write(raw)
            name = os.path.basename(self.data.paths[i])
            plan = plans[i]
            for a, after in enumerate(plan):
                if after is None:
                    continue
                times = 1 if a < len(plan) - 1 else 999999
                if after < 0:
                    rules.append("%s,open,%d,%d,%d" % (name, a + 1, times, c.rng.choice([5, 13, 24])))
                else:
                    off = ends[after - 1] if 0 < after <= len(ends) else 0
                    if after > len(ends):
                        off = len(raw) - 1
                    rules.append("%s,read@%d,%d,%d,%d" % (name, off, a + 1, times, c.rng.choice([5, 116])))
        self.rules = rules

    def run(self, s, policy=None):
        log = os.path.join(self.data.dir, "log-%d-%d" % (id(s), abs(hash(policy))))
        env = damage.fault_env(self.rules or ["nothing,open,1,1,1"], log)
        o = s.run(policy, env=env)
        opens = [0] * len(self.data.paths)
        if os.path.exists(log):
            for line in open(log).read().splitlines():
                if line in self.data.paths:
                    opens[self.data.paths.index(line)] += 1
            os.remove(log)
        return o, opens


def judge(c, f, s, o, opens, policy=None, kinds=None):
    if o.timed_out:
        c.violation("%s does not end under I/O errors" % s.cmd, dict(s.describe(policy), rules=f.rules))
        return
    passes = 2 if s.cmd == "botk" else 1
    retries = 2 if s.cmd == "stats" else 0
    case = {"kind": "retries", "plan": [[0 if x is None else 1 for x in p] for p in f.plans], "passes": passes,
            "retries": retries, "status": 1 if o.rc else 0, "records": len(o.out) if o.rc else 0}
    info = dict(s.describe(policy), rules=f.rules, plans=f.plans, opens=opens, result=o.show())
    c.judge(case, "%s: wrong number of attempts or wrong outcome under I/O errors %s" % (s.cmd, f.rules), info)
    if o.rc == 0:
        s.judge(c, o, policy)


def small_files(c, n):
    return rand_files(c.rng, nfiles=n, ndocs=(1, 4), toks=(0, 5), mult_p=0)


def check(c):
    models(c)
    jobs = []
    # every plan of up to four attempts at the first file, failing at every line
    for n in (1, 2):
        for length in (1, 2, 3, 4):
            for shape in itertools.product([0, 1], repeat=length):
                if length > 1 and shape[-1] == shape[-2] and shape[-1] == 0:
                    continue
                files = small_files(c, n)
                plans = [[None if x == 0 else c.rng.randint(-1, len(files[i]) + 1) for x in shape] if i == 0 else []
                         for i in range(n)]
                f = Faulty(c, files, plans)
                for _ in range(c.pick(1, 3)):
                    jobs.append((f, Scen("stats", f.data, c.rng, limit=None, flimit=None, dir=False)))
    # failures of several files at once: attempts are per file
    for _ in range(c.pick(150, 2500)):
        n = c.rng.choice([2, 3, 4, 6])
        files = small_files(c, n)
        plans = []
        for i in range(n):
            k = c.rng.choice([0, 1, 2, 2, 2, 3])
            plans.append([c.rng.randint(-1, len(files[i]) + 1) for _ in range(k)] + ([None] if c.rng.random() < 0.93 or k < 3 else []))
        f = Faulty(c, files, plans)
        jobs.append((f, Scen("stats", f.data, c.rng, limit=None, flimit=None, dir=False)))
    # the other commands give up at once
    for cmd in ("topk", "botk", "count", "search", "unique"):
        for _ in range(c.pick(12, 100)):
            n = c.rng.choice([1, 2, 3])
            files = small_files(c, n)
            plans = [[] for _ in range(n)]
            i = c.rng.randrange(n)
            plans[i] = c.rng.choice([[1], [1, None], [None, 1, None], [-1, None], [None, -1], [None, None, 1]])
            f = Faulty(c, files, plans)
            s = common.some(c, cmd, data=f.data, limit=None, flimit=None, dir=False)
            jobs.append((f, s))
    for (f, s), (o, opens) in zip(jobs, pmap(lambda j: j[0].run(j[1]), jobs)):
        judge(c, f, s, o, opens)
    c.cov["fault_runs"] = len(jobs)
    c.flush()
    if wimbd.sched_bin() is None:
        c.notes.append("this tree cannot be built for the controlled scheduler")
        return
    jobs = []
    for _ in range(c.pick(20, 200)):
        n = c.rng.choice([2, 3])
        files = small_files(c, n)
        plans = [[c.rng.randint(-1, len(files[i])) for _ in range(c.rng.choice([0, 1, 2, 2]))] + [None] for i in range(n)]
        f = Faulty(c, files, plans)
        s = Scen("stats", f.data, c.rng, limit=None, flimit=None, dir=False, workers=c.rng.choice([2, 3]))
        for p in wimbd.policies(c.rng, c.pick(10, 30), ops=150):
            jobs.append((f, s, p))
    for (f, s, p), (o, opens) in zip(jobs, pmap(lambda j: j[0].run(j[1], j[2]), jobs)):
        judge(c, f, s, o, opens, p)
    c.cov["scheduled_runs"] = len(jobs)
    c.flush()
