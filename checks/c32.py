"""What a run says about itself is true."""
import re

from vlib import corpora, damage, wimbd
from vlib.core import pmap
from vlib.scen import Scen
from vlib.wimbd import Data, Doc, rand_files
from . import c12, c13, common
from .common import CMDS

ANSI = re.compile(r"\x1b\[[0-9;]*[A-Za-z]")
LINES = re.compile(r"([0-9][0-9,]*) JSON lines?\b")
RECOVERED = re.compile(r"([0-9][0-9,]*) recoverable error")
LINE = re.compile(r"\bline ([0-9][0-9,]*) (?:in|of)\b")


def num(s):
    return wimbd.clip(int(s.replace(",", "")))


def said(o, paths):
    """What stderr says: the files that the final error names, its line number, the numbers of lines and of errors."""
    text = ANSI.sub("", o.err.decode("utf8", "replace"))
    errors = re.split(r"(?m)^(?=(?:ERROR|WARN|INFO)\b)", text)
    errors = [x for x in errors if x.startswith("ERROR")]
    # the worker threads report every failed attempt, also after the main thread has given up
    final = ([x for x in errors if "rror processing" not in x] or errors or [""])[-1]
    named = sorted({i for i, p in enumerate(paths) if p in final})
    line = LINE.search(final)
    recovered = RECOVERED.findall(text)
    return {"named": [i + 1 for i in named], "line": num(line.group(1)) if line else -1,
            "lines": [num(x) for x in LINES.findall(text)], "recovered": sum(num(x) for x in recovered)}


def utf8(line):
    try:
        line.decode()
        return True
    except UnicodeDecodeError:
        return False


def judge(c, data, marks, plan, s, o, policy, what, env=None):
    if o.timed_out:
        c.violation("%s does not end" % s.cmd, s.describe(policy))
        return
    files = []
    for m, docs in zip(marks, data.files):
        files.append(dict(m, json=[i for i in m["bad"] if utf8(docs[i - 1].line)]))
    case = dict({"kind": "says", "files": files, "plan": plan, "listing": [i + 1 for i in s.listing()],
                 "flimit": -1 if s.o.get("flimit") is None else s.o["flimit"],
                 "limit": -1 if s.o.get("limit") is None else s.o["limit"],
                 "retries": 2 if s.cmd == "stats" else 0, "status": 1 if o.rc else 0}, **said(o, data.paths))
    c.judge(case, "%s: the messages do not fit what happened (%s)" % (s.cmd, "; ".join(what) or "nothing wrong with the files"),
            dict(s.describe(policy), damage=what, env=env, said=said(o, data.paths), result=o.show()))


def damaged(c, jobs):
    """jobs: (c12.Bad, scenario, policy)"""
    for (bad, s, p), o in zip(jobs, pmap(lambda j: j[1].run(j[2], env=j[0].env), jobs)):
        marks = [dict(m) for m in bad.marks]
        for i in bad.pass2:
            if s.cmd == "botk":
                marks[i]["tail"] = "bad"
            elif s.o.get("listing"):
                marks[i]["tail"] = "doubt"
        judge(c, bad.data, marks, [], s, o, p, bad.what, bad.env.get("WFAULT"))
    c.flush()


def retried(c, jobs):
    """jobs: (c13.Faulty, scenario, policy)"""
    for (f, s, p), (o, opens) in zip(jobs, pmap(lambda j: j[0].run(j[1], j[2]), jobs)):
        marks = [{"open": "ok", "lines": len(d), "bad": [], "doubt": [], "tail": "ok"} for d in f.data.files]
        plan = [[0 if x is None else 1 for x in q] for q in f.plans]
        judge(c, f.data, marks, plan, s, o, p, f.rules)
    c.flush()


def plans(c, n, files):
    """At least one file fails only for a while; often another one for good."""
    out = [[c.rng.randint(-1, len(files[i])) for _ in range(c.rng.choice([0, 1, 2, 2]))] + [None] for i in range(n)]
    if c.rng.random() < 0.7:
        i = c.rng.randrange(n)
        out[i] = [c.rng.randint(-1, len(files[i]))] * 3
    return out


def models(c):
    for con in ({}, {"Passes": 2}, {"MaxRetries": 2}, {"MaxRetries": 2, "Lines": "<- L3", "Plans": "<- Plan3", "Missing": "<- NoneMissing"}):
        c.model("MCExecutor", "Executor", constants=con)
    for v, e in (("lasterror", "BlamesTheRight"), ("trylock", "BlamesTheRight"), ("allattempts", "LinesTrue")):
        c.model("MCExecutor", "Executor", e, constants={"MaxRetries": 2, "Variant": '"%s"' % v})
    if c.thorough:
        c.model("MCExecutor", "Executor", constants={"MaxRetries": 2, "W": 3, "Lines": "<- L3", "Plans": "<- Plan3"})
        c.model("MCExecutor", "Executor", constants={"MaxRetries": 1, "W": 3, "Passes": 2, "Lines": "<- L3", "Plans": "<- Plan3"})


def fine(c):
    """Nothing is wrong with the files: the number of lines is that of the selected ones."""
    jobs = []
    sets = corpora.standard(c.rng, c.scratch, c.pick(60, 800))
    for data in sets:
        cmd = c.rng.choice(CMDS)
        o = {}
        if c.rng.random() < 0.3:
            o = {"listing": [c.rng.randrange(len(data.paths)) for _ in range(len(data.paths) + 1)], "dir": False}
        if c.rng.random() < 0.5:
            o.update(limit=c.rng.choice([0, 1, 2, 3, 7, 1000000]), flimit=c.rng.choice([None, 1, 2, 100]))
        jobs.append((data, common.some(c, cmd, data, **o), None))
    # thousands of lines are written with separators
    data = Data([[Doc(["a"], mult=m)] for m in (999, 1, 1000, 3)] + [[Doc(["b"], mult=1000000)]], c.rng, c.scratch)
    for cmd in CMDS:
        jobs.append((data, common.some(c, cmd, data, flimit=c.rng.choice([1, 2, 3, 4]), limit=None, dir=False), None))
    jobs.append((data, common.some(c, "stats", data, flimit=None, limit=c.rng.choice([None, 999999]), dir=False), None))
    for i in range(c.pick(6, 60)):
        data = corpora.small(c.rng, c.scratch, nfiles=c.rng.choice([2, 3, 5]), ndocs=(1, 4))
        s = common.some(c, c.rng.choice(CMDS), data, workers=c.rng.choice([2, 3, 4]))
        jobs += [(data, s, p) for p in wimbd.policies(c.rng, c.pick(6, 20), ops=200)]
    for (data, s, p), o in zip(jobs, pmap(lambda j: j[1].run(j[2]), jobs)):
        marks = [{"open": "ok", "lines": sum(d.mult for d in f), "bad": [], "doubt": [], "tail": "ok"} for f in data.files]
        judge(c, data, marks, [], s, o, p, [])
    c.cov["runs_without_damage"] = len(jobs)
    c.flush()


def check(c):
    models(c)
    fine(c)
    jobs = []
    for cmd in CMDS:
        for how in ("line", "line", "line", "gz", "io", "missing"):
            for _ in range(c.pick(5, 80)):
                bad = c12.Bad(c, how if c.rng.random() < 0.7 else None)
                o = {"limit": None, "flimit": None} if c.rng.random() < 0.7 else {}
                if c.rng.random() < 0.15 and len(bad.data.paths) > 1:
                    o["listing"] = [c.rng.randrange(len(bad.data.paths)) for _ in range(len(bad.data.paths))]
                jobs.append((bad, bad.scen(c, cmd, **o), None))
        for shape in ("files", "lines"):
            for _ in range(c.pick(2, 10)):
                bad = c12.Bad(c, "line", shape)
                jobs.append((bad, bad.scen(c, cmd, limit=None, flimit=None, workers=c.rng.choice([1, 2, 4, None])), None))
    damaged(c, jobs)
    c.cov["damaged_runs"] = len(jobs)
    jobs = []
    for _ in range(c.pick(80, 1000)):
        n = c.rng.choice([1, 2, 3, 4])
        files = c13.small_files(c, n)
        f = c13.Faulty(c, files, plans(c, n, files))
        jobs.append((f, Scen("stats", f.data, c.rng, limit=None, flimit=None, dir=False), None))
    retried(c, jobs)
    c.cov["retried_runs"] = len(jobs)
    if wimbd.sched_bin() is None:
        c.notes.append("this tree cannot be built for the controlled scheduler")
        return
    jobs, sched = [], []
    for _ in range(c.pick(20, 200)):
        n = c.rng.choice([2, 2, 3])
        files = c13.small_files(c, n)
        f = c13.Faulty(c, files, plans(c, n, files))
        s = Scen("stats", f.data, c.rng, limit=None, flimit=None, dir=False, workers=c.rng.choice([2, 3]))
        jobs += [(f, s, p) for p in wimbd.policies(c.rng, c.pick(14, 40), ops=120)]
    retried(c, jobs)
    for cmd in CMDS:
        for _ in range(c.pick(2, 20)):
            bad = c12.Bad(c, c.rng.choice(["line", "gz"]))
            s = bad.scen(c, cmd, limit=None, flimit=None, workers=c.rng.choice([2, 3, 4]))
            sched += [(bad, s, p) for p in wimbd.policies(c.rng, c.pick(6, 20), ops=200)]
    damaged(c, sched)
    c.cov["scheduled_runs"] = len(jobs) + len(sched)
