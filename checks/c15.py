"""Output files are complete and existing ones are protected."""
import os
import shutil
import tempfile

from vlib import damage, tlc, wimbd
from vlib.core import pmap
from vlib.scen import Scen
from vlib.wimbd import Data, Doc
from . import common

NAMES = {
    "file": ["out.jsonl", "out.v1.jsonl", "r\u00e9s ult.json", "out.gz", "a.b"],
    "nested": ["a/b/out.jsonl", "new dir/out.json", "x/../y/out.jsonl", "p/q/r/s/t.out"],
    "noext": ["res", "new/res", ".hidden", "res dir"],
    "dir": ["d", "some dir"],
    "dirx": ["d.x", "v1.0", "d.jsonl"],
}
OLD = [b"", b'{"old": 1}\n' * 40, b"no newline at the end", b'{"old": 1}\n' * 3, b"\xff\x00binary\n", b"\n" * 2000]


def datasets(c):
    """Three data sets of different sizes, so that a later result may be longer or shorter than an earlier one."""
    rng = c.rng
    big = [[Doc(["w%d" % rng.randrange(30) for _ in range(40)]) for _ in range(3)] for _ in range(2)]
    small = [[Doc(["a", "b", "c", "a"])]]
    mid = [[Doc(["w%d" % rng.randrange(6) for _ in range(9)])], [Doc(["w1", "w2", "w3"]), Doc(None)]]
    sets = [Data(x, rng, c.scratch, members=1) for x in (big, small, mid)]
    bad = Data([[Doc(["a", "b"]), Doc(None, line=b"{not json\n")], [Doc(["c"])]], rng, c.scratch, members=1)
    return sets, bad


class Replay:
    """One behaviour of the specification, performed with the real commands."""

    def __init__(self, c, beh, sets, bad):
        rng = c.rng
        self.beh = beh
        self.names = {t: rng.choice(n) for t, n in NAMES.items()}
        self.relative = rng.random() < 0.3
        base = {"n": 1, "k": rng.choice([3, 30]), "hashes": 3, "limit": None, "seed": rng.choice([None, 0])}
        other = dict(base)
        what = rng.choice(["n", "k", "hashes", "limit", "seed"])
        other[what] = {"n": 2, "k": base["k"] + 1, "hashes": 4, "limit": 100, "seed": 7}[what]
        self.opts = {1: base, 2: other}
        self.old = rng.choice(OLD)
        self.old_name = {}
        self.runs = []
        for i, r in enumerate(beh["runs"]):
            cmd = rng.choice(["topk", "botk"] if r["cmd"] == "gram" else ["count", "search", "stats"])
            data = sets[i] if r["input"] == "ok" else bad
            o = dict(flimit=None, dir=False, size=1 << 20, u64=False, locations=False,
                     thr=0 if cmd == "topk" else None)
            o.update(self.opts[r["o"]] if r["cmd"] == "gram" else {"limit": None})
            s = common.some(c, cmd, data=data, **o)
            self.runs.append((r, s, rng.random() < 0.6, rng.choice(["-f", "--force"]), rng.choice(["-o", "--out"])))
        self.problem = None
        self.cases = []

    def describe(self):
        return {"behaviour": self.beh, "names": self.names, "old content": self.old.decode("latin1")[:60],
                "options": self.opts, "relative": self.relative,
                "commands": [self.args(x) for x in self.runs]}

    def target(self, t):
        return self.names[t] if self.relative else os.path.join(self.root, self.names[t])

    def args(self, x):
        r, s, js, force, out = x
        a = s.args([out, self.target(r["target"])] + ([force] if r["force"] else []))
        if not js:
            a.remove("--json")
        return a

    def tree(self):
        t = {}
        for d, ds, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                t[os.path.relpath(p, self.root)] = open(p, "rb").read()
        return t

    def play(self, c):
        self.root = tempfile.mkdtemp(dir=c.scratch)
        try:
            self.problem = self._play(c)
        finally:
            self.shown = self.describe()
            shutil.rmtree(self.root)
        return self

    def prepare(self, c):
        for t in ("dir", "dirx"):
            os.makedirs(self.target2(t))
        # the names of generated files: run the same options in a directory of their own
        self.gen = {}
        need = {p[1] for p in self.beh["old"] if p[1]} | {r["path"][1] for r in self.beh["runs"] if r["path"][1]}
        for o in need:
            d = tempfile.mkdtemp(dir=c.scratch)
            s = Scen("topk", c.sets[1], None, n=1, size=1 << 20, quiet=True, **{k: v for k, v in self.opts[o].items() if k != "n"})
            s.o["n"] = self.opts[o]["n"]
            r = s.run(extra=["-o", d])
            fs = os.listdir(d)
            shutil.rmtree(d)
            if r.rc != 0 or len(fs) != 1:
                return "topk -o DIRECTORY exits with %s and leaves %s there" % (r.rc, fs)
            self.gen[o] = fs[0]
        if len(set(self.gen.values())) != len(self.gen):
            return "runs with different options %s use the same file %s in a directory" % (self.opts, self.gen)
        for t, o in self.beh["old"]:
            p = self.path(t, o)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(self.old)

    def target2(self, t):
        return os.path.join(self.root, self.names[t])

    def path(self, t, o):
        return self.target2(t) if not o else os.path.join(self.target2(t), self.gen[o])

    def _play(self, c):
        p = self.prepare(c)
        if p:
            return p
        for i, x in enumerate(self.runs):
            r, s, js, _, _ = x
            before = self.tree()
            o = s.run(args=self.args(x))if not self.relative else wimbd.run(self.args(x), cwd=self.root)
            after = self.tree()
            what = "run %d (%s -o %s%s)" % (i + 1, s.cmd, r["target"], " --force" if r["force"] else "")
            if o.timed_out:
                return what + " does not end"
            if (o.rc == 0) != (r["status"] == "ok"):
                return what + " exits with %s where the specification says %s: %s" % (o.rc, r["status"], o.err[-300:])
            here = None
            if r["path"][0] != "none":
                here = os.path.relpath(os.path.realpath(self.path(*r["path"])), os.path.realpath(self.root))
            for f in set(before) | set(after):
                if f != here and before.get(f) != after.get(f):
                    return what + " changes %s" % f
            if r["status"] == "ok":
                if here not in after:
                    return what + " succeeds but does not write %s" % here
                recs = wimbd.parse_lines(after[here])
                if recs is None:
                    return what + " does not leave one JSON object per line: %r" % after[here][:300]
                if js and o.records() != recs:
                    return what + " writes other records than it prints"
                cs = s.cases_of(recs)
                if isinstance(cs, str):
                    return what + ": " + cs
                self.cases += cs
            else:
                if here in before and not r["force"] and before[here] != after.get(here):
                    return what + " fails and changes the existing %s" % here
                if here in after and after[here] not in (b"", before.get(here)):
                    return what + " fails and leaves %r" % after[here][:100]


def weight(b):
    """Prefer behaviours in which runs meet the same file."""
    a, z = b["runs"][0], b["runs"][-1]
    w = 1
    if a["path"] == z["path"]:
        w += 4 + 4 * (a["status"] == "ok") + 4 * z["force"]
    if list(z["path"]) in b["old"] or list(a["path"]) in b["old"]:
        w += 3
    return w


def writing(c):
    """Room for only some of the bytes of the results; writes that are accepted in pieces or interrupted."""
    jobs = []
    for cmd in ("topk", "botk", "count", "search", "stats"):
        for data in (c.sets[0], c.sets[1], Data([[Doc(["w%dx%d" % (i, j) for j in range(60)]) for i in range(4)]], c.rng, c.scratch, members=1)):
            o = dict(limit=None, flimit=None, dir=False, size=1 << 20, u64=False, human=False, hashes=5, n=1, k=1000)
            if cmd == "count":
                o["searches"] = [("w%dx%d" % (i, j), ["w%dx%d" % (i, j)]) for i in range(5) for j in range(60)] if data is not c.sets[1] else [("a", ["a"])]
            if cmd in ("topk", "botk"):
                o["thr"] = 0 if cmd == "topk" else None
            if cmd == "search":
                o.update(locations=True, loclimit=None)
            s = common.some(c, cmd, data=data, **o)
            whole = s.run()
            size = len(whole.out)
            if whole.rc != 0 or not size:
                c.violation("%s exits with %s and prints nothing" % (cmd, whole.rc), dict(s.describe(), result=whole.show()))
                return
            rooms = {0, 1, size - 1, size, size + 1, size // 2} | {c.rng.randrange(size) for _ in range(c.pick(3, 30))}
            rooms |= {x for x in (8191, 8192, 8193, 1024) if x < size}
            for room in rooms:
                for target in ("out", "STDOUT"):
                    rules = ["%s,write@%d,1,99,%d" % (target, room, c.rng.choice([28, 122, 5, 27]))]
                    if c.rng.random() < 0.4:
                        rules.append("%s,wshort,1,99,%d" % (target, c.rng.choice([1, 3, 100, 4096])))
                    if c.rng.random() < 0.4:
                        rules.append("%s,wintr,1,99,0" % target)
                    jobs.append((s, size, room, target, rules))

    def go(j):
        s, size, room, target, rules = j
        d = tempfile.mkdtemp(dir=c.scratch)
        p = os.path.join(d, "out.jsonl")
        rules = [r.replace("out,", "out.jsonl,") if target == "out" else r for r in rules]
        o = s.run(env=damage.fault_env(rules), extra=["-o", p] if target == "out" else [])
        got = (open(p, "rb").read() if os.path.exists(p) else b"") if target == "out" else o.out
        shutil.rmtree(d)
        return o, got
    for (s, size, room, target, rules), (o, got) in zip(jobs, pmap(go, jobs)):
        recs = wimbd.parse_lines(got)
        rep = dict(s.describe(), room=room, of=size, target=target, rules=rules, result=o.show(), written=got.decode("utf8", "replace")[:2000])
        c.judge({"kind": "written", "status": -1 if o.rc is None else o.rc, "size": size, "room": room, "kept": len(got),
                 "same": int(recs is not None)},
                "%s: a run whose results cannot all be written succeeds, or one whose results can be fails (%s)" % (s.cmd, target), rep)
        if o.rc == 0 and recs is not None:
            cs = s.cases_of(recs)
            for case in [] if isinstance(cs, str) else cs:
                c.judge(case, "%s: what has been written is not the result" % s.cmd, rep)
    c.flush()
    c.cov["write_faults"] = len(jobs)


def check(c):
    for room in (0, 5, 6, 9):
        c.model("MCWriting", "Writing", constants={"Room": str(room)})
    c.model("MCWriting", "Writing", "Complete", constants={"Variant": '"once"'})
    c.model("MCWriting", "Writing", "Complete", constants={"Variant": '"lazy"', "Room": "5"})
    c.model("MCWriting", "Writing", "Complete", constants={"Variant": '"interrupt"'})
    c.model("MCOutFile", "OutFile")
    for v, e in (("nocheck", "Protected"), ("notruncate", "Exact"), ("early", "NoPartial")):
        c.model("MCOutFile", "OutFile", e, constants={"Variant": '"%s"' % v, "Targets": "<- FewTargets"})
    if c.thorough:
        c.model("MCOutFile", "OutFile", constants={"MaxRuns": 3, "Targets": "<- FewTargets"})
    r = tlc.check("MCOutFile", "OutFileGen")
    c.states += r.distinct
    c.transitions += r.generated
    beh = r.prints("HIST")
    if c.thorough:
        r = tlc.check("MCOutFile", "OutFileGen", constants={"MaxRuns": 3, "Targets": '{"file", "noext"}'})
        beh += c.rng.sample(r.prints("HIST"), 4000)
    beh.sort(key=str)
    chosen = c.rng.choices(beh, [weight(b) for b in beh], k=c.pick(900, 14000))
    sets, bad = datasets(c)
    c.sets = sets
    writing(c)
    plays = [Replay(c, b, sets, bad) for b in chosen]
    n = 0
    for p in pmap(lambda p: p.play(c), plays):
        if p.problem:
            n += c.violation(p.problem, p.shown)
            if n >= 5:
                break
        else:
            for case in p.cases:
                c.judge(case, "the output file does not contain the records of the run", p.shown)
    c.flush()
    c.accept(len(plays), {"behaviour of the specification, replayed": plays[0].beh})
    c.cov["behaviours"] = len(beh)
    c.cov["behaviours_replayed"] = len(plays)
