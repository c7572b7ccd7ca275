"""A failed input never yields a result."""
import gzip
import os
import zlib

from vlib import damage, wimbd, corpora
from vlib.core import pmap
from vlib.scen import Scen
from vlib.wimbd import Data, Doc, gz_bytes, rand_files
from . import common
from .common import CMDS


def unterminated(rng, docs, p=0.5):
    """The last line of a file does not have to be terminated."""
    if docs and docs[-1].line is not None and docs[-1].line.strip() and rng.random() < p:
        docs[-1].line = docs[-1].line.rstrip(b"\r\n")
        return 1
    return 0


class Bad:
    """A data set with one or two damaged files."""

    def __init__(self, c, how=None, shape=None):
        rng = c.rng
        if shape == "files":
            files = rand_files(rng, nfiles=rng.choice([35, 66, 130]), ndocs=(1, 2), toks=(1, 4), mult_p=0)
        else:
            files = rand_files(rng, nfiles=rng.choice([1, 2, 3, 3, 5]), ndocs=(1, 5), toks=(1, 6), mult_p=0)
        self.env, self.what, self.judge = {}, [], True
        self.marks = [{"open": "ok", "lines": 0, "bad": [], "doubt": [], "tail": "ok"} for _ in files]
        self.pass2 = set()
        todo = []
        if shape == "lines":
            # a file with many lines
            more = [d for f in rand_files(rng, nfiles=3, ndocs=(300, 900), toks=(0, 3), mult_p=0) for d in f]
            files[rng.randrange(len(files))] += more
        for _ in range(rng.choice([1, 1, 1, 2]) if shape is None else 1):
            i = rng.randrange(len(files))
            if shape == "lines":
                i = max(range(len(files)), key=lambda j: len(files[j]))
            elif shape == "files" and rng.random() < 0.5:
                i = rng.choice([0, len(files) - 1])
            kind = how or rng.choice(["line", "line", "line", "gz", "gz", "io", "missing"])
            todo.append((i, kind))
        for i, kind in todo:
            if kind == "line":
                line, verdict = damage.line_damage(rng)
                pos = rng.choice([0, len(files[i]), rng.randint(0, len(files[i]))] if shape != "lines" else [len(files[i]), rng.randint(len(files[i]) // 2, len(files[i]))])
                files[i].insert(pos, Doc(None, line=line))
                self.what.append("file %d line %d is %r" % (i + 1, pos + 1, line[:60]))
        for i, docs in enumerate(files):
            for j, d in enumerate(docs):
                if d.line in damage.BAD_LINES or d.line in damage.BAD_UTF8:
                    self.marks[i]["bad"].append(j + 1)
                elif d.line in damage.DOUBT_LINES:
                    self.marks[i]["doubt"].append(j + 1)
                    self.judge = False
            self.what += ["the last line of file %d has no terminator" % (i + 1)] * unterminated(rng, docs)
        self.data = Data(files, rng, c.scratch, plain=False, members=1)
        for i, docs in enumerate(self.data.files):
            self.marks[i]["lines"] = len(docs)
        rules = []
        for i, kind in todo:
            p = self.data.paths[i]
            if kind == "gz" and self.marks[i]["tail"] == "ok" and self.marks[i]["open"] == "ok":
                name = rng.choice(sorted(damage.GZ))
                f, verdict = damage.GZ[name]
                raw = open(p, "rb").read()
                with open(p, "wb") as out:
                    # a plain header, so that positions are known
                    out.write(f(rng, gz_bytes(gzip.decompress(raw))))
                if verdict != "ok":
                    self.marks[i]["tail"] = verdict
                self.what.append("file %d: %s" % (i + 1, name))
            elif kind == "io" and self.marks[i]["open"] == "ok":
                name = rng.choice(sorted(damage.IO))
                rules.append(damage.io_rule(rng, name, p))
                v = damage.IO[name][1]
                if v == "pass2":
                    self.pass2.add(i)
                elif v != "ok":
                    k, val = v.split(":")
                    self.marks[i][k] = val
                self.what.append("file %d: %s (%s)" % (i + 1, name, rules[-1]))
            elif kind == "missing":
                os.remove(p) if os.path.lexists(p) and not os.path.isdir(p) else None
                if rng.random() < 0.3 and not os.path.lexists(p):
                    os.symlink(p + ".gone", p)
                self.marks[i]["open"] = "missing"
                self.what.append("file %d does not exist" % (i + 1))
        if rules:
            self.env = damage.fault_env(rules)

    def scen(self, c, cmd, **o):
        o.setdefault("dir", False)
        return common.some(c, cmd, data=self.data, **o)


def run_one(job):
    bad, s, policy, outmode = job
    if s.cmd == "unique":
        outmode = None            # has no output file
    extra, outfile = [], None
    if outmode:
        outfile = os.path.join(bad.data.dir, "out-%d.jsonl" % abs(hash((id(s), policy))))
        old = b""
        if outmode == "force":
            old = b'{"old": 1}\n' * 20
            with open(outfile, "wb") as f:
                f.write(old)
            extra = ["-o", outfile, "--force"]
        else:
            extra = ["-o", outfile]
    o = s.run(policy, env=bad.env, extra=extra)
    n = len(o.out)
    if outfile and os.path.exists(outfile):
        content = open(outfile, "rb").read()
        os.remove(outfile)
        if content not in (b"", old):
            n += len(content)
    return o, n


def outcome(c, bad, s, o, n, policy):
    marks = [dict(m) for m in bad.marks]
    for i in bad.pass2:
        if s.cmd == "botk":
            marks[i]["tail"] = "bad"
        elif s.o.get("listing"):
            marks[i]["tail"] = "doubt"
    if o.timed_out:
        c.violation("%s does not end although %s" % (s.cmd, "; ".join(bad.what)), s.describe(policy))
        return
    case = {"kind": "outcome", "files": marks, "listing": [i + 1 for i in s.listing()],
            "flimit": -1 if s.o.get("flimit") is None else s.o["flimit"],
            "limit": -1 if s.o.get("limit") is None else s.o["limit"],
            "status": 1 if o.rc != 0 else 0, "records": n if o.rc != 0 else 0}
    info = dict(s.describe(policy), damage=bad.what, env=bad.env.get("WFAULT"), result=o.show())
    c.judge(case, "%s %s although %s" % (s.cmd, "fails or leaves a result behind" if o.rc else "succeeds", "; ".join(bad.what)), info)
    if o.rc == 0 and bad.judge:
        s.judge(c, o, policy, kinds=["stats"] if s.cmd == "stats" and s.o.get("listing") else None)


def models(c):
    for con in ({}, {"Passes": 2}, {"Lines": "<- L3", "Plans": "<- Plan3", "Missing": "<- NoneMissing", "Passes": 2}):
        c.model("MCExecutor", "Executor", constants=con)
    for v in ("ignoreerror", "ignorepanic", "skipmissing", "noearly"):
        c.model("MCExecutor", "Executor", "NoResultOnFailure", constants={"Variant": '"%s"' % v})
    c.model("MCPipeline", "Pipeline", constants={"Missing": "{2}"})
    if c.thorough:
        c.model("MCExecutor", "Executor", constants={"W": 3, "Lines": "<- L3", "Plans": "<- Plan3"})


def check(c):
    models(c)
    jobs = []
    per = c.pick(16, 200)
    for cmd in CMDS:
        for how in ("line", "line", "gz", "gz", "io", "missing"):
            for _ in range(per):
                bad = Bad(c, how if c.rng.random() < 0.8 else None)
                o = {}
                if c.rng.random() < 0.15 and len(bad.data.paths) > 1:
                    o["listing"] = [c.rng.randrange(len(bad.data.paths)) for _ in range(len(bad.data.paths))]
                if c.rng.random() < 0.6:
                    o["limit"] = None
                    o["flimit"] = None
                jobs.append((bad, bad.scen(c, cmd, **o), None, c.rng.choice([None, None, "new", "force"])))
    # one damaged place in a lot of data
    for cmd in CMDS:
        for shape in ("files", "lines"):
            for how in ("line", "gz", "missing", "io")[:c.pick(3, 4)]:
                for _ in range(c.pick(1, 8)):
                    bad = Bad(c, how, shape)
                    jobs.append((bad, bad.scen(c, cmd, limit=None, flimit=None, workers=c.rng.choice([1, 2, 4, 8, None])), None, c.rng.choice([None, "new"])))
    # every kind of damage at least once for every command
    for cmd in CMDS:
        for name in list(damage.GZ) + list(damage.IO):
            jobs.append((one(c, name), None, None, None))
            b = jobs.pop()[0]
            jobs.append((b, b.scen(c, cmd, limit=None, flimit=None), None, c.rng.choice([None, "new", "force"])))
    every = damage.BAD_LINES + damage.BAD_UTF8
    for line in every if c.thorough else c.rng.sample(every, len(every)):
        b = with_line(c, line)
        cmds = CMDS if c.thorough else [c.rng.choice(CMDS)]
        for cmd in cmds:
            jobs.append((b, b.scen(c, cmd, limit=None, flimit=None), None, None))
    for j, (o, n) in zip(jobs, pmap(run_one, jobs)):
        outcome(c, j[0], j[1], o, n, j[2])
    c.cov["damaged_runs"] = len(jobs)
    c.flush()
    # a data set that ends in the middle of a line, at every place
    jobs = []
    for line in damage.CUT_LINES:
        for k in range(1, len(line)):
            for cmd in CMDS if c.thorough else c.rng.sample(CMDS, 2):
                b = with_line(c, line[:k], end=True)
                jobs.append((b, b.scen(c, cmd, limit=None, flimit=None), None, c.rng.choice([None, None, "new", "force"])))
    for j, (o, n) in zip(jobs, pmap(run_one, jobs)):
        outcome(c, j[0], j[1], o, n, j[2])
    c.cov["cut_lines"] = len(jobs)
    c.flush()
    # schedules: who notices first
    if wimbd.sched_bin() is None:
        c.notes.append("this tree cannot be built for the controlled scheduler")
        return
    jobs = []
    for cmd in CMDS:
        for _ in range(c.pick(6, 60)):
            bad = Bad(c, c.rng.choice(["line", "gz", "missing"]))
            s = bad.scen(c, cmd, limit=None, flimit=None, workers=c.rng.choice([2, 3, 4]))
            for p in wimbd.policies(c.rng, c.pick(8, 30), ops=200):
                jobs.append((bad, s, p, None))
    for j, (o, n) in zip(jobs, pmap(run_one, jobs)):
        outcome(c, j[0], j[1], o, n, j[2])
    c.cov["scheduled_runs"] = len(jobs)
    c.flush()


def one(c, name):
    """A data set with exactly the named damage."""
    rng = c.rng
    b = Bad.__new__(Bad)
    files = rand_files(rng, nfiles=rng.choice([1, 2, 3]), ndocs=(2, 4), toks=(1, 6), mult_p=0)
    b.env, b.what, b.judge, b.pass2 = {}, [name], True, set()
    b.data = Data(files, rng, c.scratch, members=1)
    b.marks = [{"open": "ok", "lines": len(d), "bad": [], "doubt": [], "tail": "ok"} for d in b.data.files]
    i = rng.randrange(len(files))
    p = b.data.paths[i]
    if name in damage.GZ:
        f, verdict = damage.GZ[name]
        raw = open(p, "rb").read()
        with open(p, "wb") as out:
            out.write(f(rng, gz_bytes(gzip.decompress(raw))))
        b.marks[i]["tail"] = verdict
    else:
        rule = damage.io_rule(rng, name, p)
        b.env = damage.fault_env([rule])
        v = damage.IO[name][1]
        if v == "pass2":
            b.pass2.add(i)
        elif v != "ok":
            k, val = v.split(":")
            b.marks[i][k] = val
    return b


def with_line(c, line, end=False):
    rng = c.rng
    b = Bad.__new__(Bad)
    files = rand_files(rng, nfiles=rng.choice([1, 2]), ndocs=(1, 3), toks=(1, 6), mult_p=0)
    i = rng.randrange(len(files))
    pos = len(files[i]) if end else rng.choice([len(files[i]), rng.randint(0, len(files[i]))])
    files[i].insert(pos, Doc(None, line=line))
    unterminated(rng, files[i], 0.3)
    b.env, b.what, b.judge, b.pass2 = {}, ["line %d of file %d is %r" % (pos + 1, i + 1, line[:60])], True, set()
    b.data = Data(files, rng, c.scratch)
    b.marks = [{"open": "ok", "lines": len(d), "bad": [], "doubt": [], "tail": "ok"} for d in b.data.files]
    b.marks[i]["bad"] = [pos + 1]
    return b
