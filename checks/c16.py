"""Exactly the selected files and lines are processed."""
import os
import pty
import subprocess
import tempfile
import threading

from vlib import wimbd
from vlib.core import pmap
from vlib.wimbd import gz_bytes
from .common import CMDS

YES = ["a.json.gz", "a.jsonl.gz", "b.json.x.gz", ".json.gz", "c.json.gz.gz", "d.json-2020.gz", "a[1].json.gz", "e*.json.gz",
       "\u00e9.json.gz", "two words.json.gz", "x.json.json.gz", ".hidden.jsonl.gz", "-n.json.gz", "A.JSON.json.gz", "?.json.gz"]
NO = ["a.json.gz.tmp", "json.gz", "a.json", "a.gz", "a.JSON.gz", "a.jso.n.gz", "a.json.gz~", "a.jsongz", "x.json.gzip",
      "a.json.zst", "a.gz.json", "a.json.GZ", "README"]
TOPS = ["d", "a[b]", "x*", "q?", "[!c]", "{y}", "\u00e9t\u00e9", "with space", "b\\s", "[", "**", "-dash", ".h", "d.json.gz", "1",
        "[a-z]", "a]b", "x.json"]
SUBS = ["sub", "s*", ".hid", "x.jsonl", "deep", "[0]", "z.json.gz"]


def token(f, l):
    return "q%dx%dq" % (f, l)


class Tree:
    def __init__(self, c, many=False):
        rng = c.rng
        self.root = tempfile.mkdtemp(dir=c.scratch)
        self.away = tempfile.mkdtemp(dir=c.scratch)
        self.entries, self.args_pool = [], []
        dirs = [[t] for t in rng.sample(TOPS, rng.choice([1, 2, 2, 3]))]
        for d in list(dirs):
            for s in rng.sample(SUBS, rng.choice([0, 0, 1, 2])):
                dirs.append(d + [s])
                if rng.random() < 0.4:
                    dirs.append(d + [s, rng.choice(SUBS)])
        uniq = []
        for d in dirs:
            if d not in uniq:
                uniq.append(d)
        dirs = uniq
        self.dirs = dirs
        for d in dirs:
            os.makedirs(os.path.join(self.root, *d), exist_ok=True)
            self.add(d[:-1], d[-1], 1, 0)
        empty = {tuple(d) for d in dirs if rng.random() < 0.12}
        if many:
            for i in range(40):
                self.file(rng, dirs[0], "m%02d.json.gz" % i, 1)
        else:
            for d in dirs + [[]]:
                if tuple(d) in empty:
                    continue
                for name in rng.sample(YES, rng.choice([0, 1, 1, 2])) + rng.sample(NO, rng.choice([0, 0, 1])):
                    if d + [name] not in dirs:
                        self.file(rng, d, name, rng.choice([0, 1, 1, 2, 3, 5]))
        self.files = [i for i, e in enumerate(self.entries) if not e["isdir"]]

    def add(self, d, name, isdir, lines):
        self.entries.append({"dir": d, "name": name, "isdir": isdir, "lines": lines})

    def file(self, rng, d, name, lines):
        self.add(d, name, 0, lines)
        i = len(self.entries)
        body = b"".join(b'{"text": "%s"}\n' % token(i, l + 1).encode() for l in range(lines))
        p = os.path.join(self.root, *d, name)
        if rng.random() < 0.12:
            # a link to data that lies somewhere else
            where = p
            p = os.path.join(self.away, str(len(self.entries)))
            os.symlink(p, where)
        with open(p, "wb") as f:
            f.write(gz_bytes(body, rng, rng.choice([1, 1, 2])))

    def path(self, i):
        e = self.entries[i]
        return os.path.join(self.root, *e["dir"], e["name"])


class Run:
    def __init__(self, c, tree, cmd, many=False):
        rng = c.rng
        self.tree, self.cmd, self.rng = tree, cmd, rng
        self.args, self.words = [], []
        self.cwd = None
        rel = rng.random() < 0.3
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            if rng.random() < 0.7 or not tree.files:
                d = rng.choice(tree.dirs if rng.random() < 0.6 else tree.dirs[:2])
                w = os.path.join(tree.root, *d)
                if rel:
                    w = "./" + os.path.join(*d)
                    if not d[0].startswith("-") and rng.random() < 0.6:
                        w = w[2:]
                if rng.random() < 0.15:
                    w += rng.choice(["/", "/.", "//"])
                elif rng.random() < 0.1:
                    w = os.path.join(tree.root, "link-%d" % rng.randrange(10 ** 9))
                    os.symlink(os.path.join(tree.root, *d), w)
                self.args.append({"isdir": 1, "dir": d, "file": 0})
            else:
                i = rng.choice(tree.files)
                w = tree.path(i)
                if rel:
                    w = "./" + os.path.relpath(w, tree.root)
                self.args.append({"isdir": 0, "dir": [], "file": i + 1})
            self.words.append(w)
        if rel:
            self.cwd = tree.root
        self.flimit = rng.choice([None, None, None, 1, 2, 3, 10] + ([0] if cmd not in ("count", "search") else []))
        self.limit = rng.choice([None, None, 0, 1, 2, 3, 100, 2 ** 64 - 1])
        if many:
            self.args, self.words = [{"isdir": 1, "dir": tree.dirs[0], "file": 0}], [os.path.join(tree.root, *tree.dirs[0])]
            self.cwd, self.flimit = None, None
        self.display = rng.choice(["quiet", "pipe", "pty"])
        self.workers = rng.choice([None, 1, 2, 4, 33, 64]) if not many else rng.choice([1, 8, 33, 64])
        a = [cmd] + self.words + ["--json"]
        if self.display == "quiet":
            a.append("-q")
        if self.workers:
            a += ["-j", self.workers]
        if self.flimit is not None:
            a += ["--file-limit", self.flimit]
        if self.limit is not None:
            a += ["--limit" if rng.random() < 0.5 else "-l", self.limit]
        lines = [(f, l) for f, e in enumerate(tree.entries) for l in range(e["lines"])]
        if cmd in ("topk", "botk", "unique"):
            a += ["-n", 1, "--size", "16MiB", "-h", 5]
        if cmd in ("topk", "botk"):
            a += ["-k", 100000]
        if cmd == "topk":
            a += ["--threshold", 0]
        if cmd in ("count", "search"):
            for f, l in lines:
                a += ["-s" if cmd == "count" else "-p", token(f + 1, l + 1)]
            if not lines:
                a += ["-s" if cmd == "count" else "-p", "none"]
        if cmd == "search" and rng.random() < 0.4:
            a.append("--with-locations")
        self.argv = [str(x) for x in a]

    def go(self):
        if self.display != "pty":
            return wimbd.run(self.argv, cwd=self.cwd)
        m, s = pty.openpty()
        err = []

        def drain():
            while True:
                try:
                    b = os.read(m, 65536)
                except OSError:
                    return
                if not b:
                    return
                err.append(b)
        p = subprocess.Popen([wimbd.real_bin()] + self.argv, cwd=self.cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=s, env=dict(os.environ, TERM="xterm"))
        os.close(s)
        t = threading.Thread(target=drain)
        t.start()
        try:
            o, _ = p.communicate(timeout=60)
            r = wimbd.Out(p.returncode, o, b"".join(err))
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            r = wimbd.Out(None, o, b"".join(err), True)
        t.join(5)
        os.close(m)
        return r

    def obs(self, o):
        """What was processed, as far as the output tells."""
        if o.rc != 0:
            return {"kind": "total", "total": 0} if not o.out else None
        recs = o.records()
        if recs is None:
            return None
        times = [[0] * e["lines"] for e in self.tree.entries]
        names = {token(f + 1, l + 1): (f, l) for f, e in enumerate(self.tree.entries) for l in range(e["lines"])}
        try:
            if self.cmd in ("topk", "botk", "count", "search"):
                for r in recs:
                    key = r["pattern"] if self.cmd == "search" else r["string"]
                    if key == "none" and r["count"] == 0:
                        continue
                    f, l = names[key]
                    times[f][l] = wimbd.clip(r["count"])
                return {"kind": "times", "times": times}
            if self.cmd == "unique":
                return {"kind": "distinct", "distinct": wimbd.clip(recs[0]["unique_count"])}
            r = recs[0]
            t = r["total_documents"]
            if r["total_tokens"] != t:
                t = -1
            full = len(self.args) == 1
            if full and t > 0:
                real = {os.path.realpath(self.tree.path(i)): i for i in self.tree.files}
                for d in r["max_token_documents"]:
                    p = d["path"] if not self.cwd else os.path.join(self.cwd, d["path"])
                    times[real[os.path.realpath(p)]][d["line"] - 1] += 1
                return {"kind": "times", "times": times}
            return {"kind": "total", "total": t}
        except (KeyError, IndexError, TypeError):
            return None

    def case(self, o):
        ob = self.obs(o)
        if ob is None:
            return None
        L = self.limit
        return {"kind": "selection", "status": 1 if o.rc else 0, "obs": ob,
                "flimit": -1 if self.flimit is None else self.flimit,
                "limit": -1 if L is None else min(L, 10 ** 6),
                "tree": [{"dir": [codes(x) for x in e["dir"]], "name": codes(e["name"]), "isdir": e["isdir"], "lines": e["lines"]}
                         for e in self.tree.entries],
                "args": [dict(a, dir=[codes(x) for x in a["dir"]]) for a in self.args]}

    def describe(self, o):
        return {"argv": self.argv, "cwd": self.cwd, "display": self.display, "tree": self.tree.entries, "result": o.show()}


def codes(s):
    return [ord(x) for x in s]


def models(c):
    c.model("MCSelection", "Selection")
    for v in ("anyorder", "emptyok", "offbyone", "sharedlimit"):
        c.model("MCSelection", "Selection", "Selected", constants={"Variant": '"%s"' % v})
    c.model("MCSelection", "Selection", "Selected", constants={"Variant": '"dedup"'})
    if c.thorough:
        c.model("MCSelection", "Selection", constants={"MaxArgs": 3})


def check(c):
    models(c)
    runs = []
    for i in range(c.pick(60, 800)):
        many = i % 20 == 19
        t = Tree(c, many)
        for cmd in CMDS:
            for _ in range(1 if many else 2):
                runs.append(Run(c, t, cmd, many))
    for r, o in zip(runs, pmap(lambda r: r.go(), runs)):
        if o.timed_out:
            c.violation("%s does not end" % r.cmd, r.describe(o))
            continue
        case = r.case(o)
        if case is None:
            if c.violation("%s prints records for other lines than those of its input" % r.cmd, r.describe(o)) and len(c.violations) > 5:
                break
            continue
        c.judge(case, "%s exits with %s and processes other lines than those selected by %s" %
                (r.cmd, o.rc, " ".join(r.argv)), r.describe(o))

    def again(case, what, replay):
        # hash collisions do not repeat with other hash functions
        return case["obs"]["kind"] == "distinct" and case["status"] == 0 and retry(replay)

    def retry(replay):
        for seed in (11, 12, 13):
            o = wimbd.run(replay["argv"] + ["--seed", str(seed)], cwd=replay["cwd"])
            if o.rc == 0 and o.records() != wimbd.parse_lines(replay["result"]["stdout"].encode()):
                return True
        return False
    c.flush(recheck=again)
    c.cov["runs"] = len(runs)
