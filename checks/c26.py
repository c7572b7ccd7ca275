"""Splitting a data set neither loses nor duplicates documents."""
import gzip
import json
import os
import random
import shutil
import subprocess
import zlib

from vlib import dedup, py, split
from vlib.core import pmap

DIRS = ["d", "with space", "[ab]", "x*y", "a?", "\u00e9t\u00e9", "v1.jsonl", "c4.gz.parts", "x.jsonl.gz", "-dash", "a.b", "{1}", "!q", "$HOME"]
NAMES = ["a", "b_0", "c.d", "x y", "[z]", "\u4e2d", "00000-of-00001", "q.json", "star*", "it's", "_1", "en.noblocklist", "gz", "jsonl"]


def cut(c, i):
    """file_split.py"""
    rng = random.Random("cut-%d-%d" % (c.seed, i))
    d = os.path.join(c.scratch, "cut%d" % i, rng.choice(DIRS))
    os.makedirs(d)
    n = rng.choice([1, 2, 3, 4, 5, 7, 12])
    files = {}
    for name in rng.sample(NAMES, rng.choice([1, 1, 2, 4])):
        m = rng.choice([0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 3 * n + 2, rng.randint(0, 60)])
        lines = [json.dumps({"text": rng.choice(["x", "\u00e9\u2028y", "\u0085", "a\rb", "", "z" * 5000]), "i": k}, ensure_ascii=rng.random() < 0.3)
                 for k in range(m)]
        if rng.random() < 0.3 and m > 2:
            lines[rng.randrange(m)] = ""
        data = "".join(x + "\n" for x in lines)
        if lines and lines[-1] and rng.random() < 0.4:
            data = data[:-1]
        split.write(os.path.join(d, name + ".jsonl.gz"), data.encode("utf8"))
        files[name] = (lines, data)
    # files that are none of its business
    split.write(os.path.join(d, "other.json.gz"), b"{}\n")
    args = ["utils/file_split.py", "--in_folder", d]
    if n != 5 or rng.random() < 0.5:
        args += ["--n", n]
    if d.rsplit("/", 1)[1].startswith("-"):
        args[1:3] = ["--in_folder=" + d]
    o = py.run(args, os.path.dirname(d), timeout=120)
    info = {"dir": d, "n": n, "files": {k: v[1][:2000] for k, v in files.items()}, "stderr": o.err.decode("utf8", "replace")[-1500:]}
    if o.rc != 0:
        c.violation("file_split.py fails with status %s" % o.rc, info)
        return
    for name, (lines, data) in files.items():
        parts, pos = [], 0
        texts = []
        for k in range(n):
            p = os.path.join(d, "%s_%d.json.gz" % (name, k))
            try:
                with gzip.open(p, "rb") as f:
                    texts.append(f.read().decode("utf8"))
            except (OSError, EOFError, ValueError, zlib.error):
                texts.append(None)
        # number the lines of the parts by their content
        num = {}
        for k, x in enumerate(lines):
            num.setdefault(x, []).append(k + 1)
        for t in texts:
            part = []
            if t is None:
                parts.append([0])
                continue
            for x in (t[:-1] if t.endswith("\n") else t).split("\n") if t else []:
                q = num.get(x, [0])
                part.append(q.pop(0) if len(q) > 1 else q[0])
            parts.append(part)
        case = {"kind": "file-split", "n": n, "lines": len(lines), "parts": parts}
        c.judge(case, "the parts of a file are not the file (n=%d, %d lines)" % (n, len(lines)), dict(info, file=name))
    # nothing else is written
    extra = sorted(set(os.listdir(d)) - {"other.json.gz"} - {x + ".jsonl.gz" for x in files} - {"%s_%d.json.gz" % (x, k) for x in files for k in range(n)})
    if extra:
        c.violation("file_split.py writes other files than the parts: %s" % extra, info)
    for name, (lines, data) in files.items():
        with gzip.open(os.path.join(d, name + ".jsonl.gz"), "rb") as f:
            if f.read().decode("utf8") != data:
                c.violation("file_split.py changes its input", info)
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)


TEXTS = None


def parts(c, i):
    """split_files.py, several at once"""
    rng = random.Random("parts-%d-%d" % (c.seed, i))
    d = os.path.join(c.scratch, "parts%d" % i)
    sub = rng.choice(["", rng.choice(DIRS)])
    src = os.path.join(d, "in", sub)
    os.makedirs(src)
    pool = rng.sample(TEXTS, 16)
    files, paths, where = [], [], []
    names = rng.sample([x for x in NAMES if x not in ("gz", "jsonl")], rng.choice([1, 2, 3]))
    for name in names:
        docs = []
        for k in range(rng.choice([0, 1, 5, 20])):
            t = rng.choice(pool)
            row = {"text": t, "n": k, "meta": {"a": [1, None, 2.5], "\u00e9": "\u2028"}}
            if t == "" and rng.random() < 0.5:
                row["text"] = None
            docs.append(row)
        files.append(docs)
        fn = name + rng.choice([".jsonl.gz", ".jsonl.gz", ".gz"])
        split.write(os.path.join(src, fn), "".join(dedup.dumps(x, rng.random() < 0.5) + "\n" for x in docs).encode("utf8"))
        paths.append(os.path.join("in", sub, fn) if sub else os.path.join("in", fn))
        where.append(os.path.join("in", sub, name) if sub else os.path.join("in", name))
    out = rng.choice(["out", "out dir", "o.gz.d", "o.jsonl"])
    os.makedirs(os.path.join(d, out))
    info = {"files": files, "paths": paths, "out": out}
    cmds = []
    for p in paths:
        inf = p if rng.random() < 0.8 else os.path.join(".", p)
        cmds.append(["python", os.path.join(py.WIMBD, "utils/split_files.py"), "--in_file", inf, "--out_prefix", os.path.join(d, out) if rng.random() < 0.5 else out])
    gated = len(paths) > 1 and i % 2 == 0
    extra, ctl = {}, None
    if gated:
        # all of them find that there is no directory before any of them makes it
        ctl = py.Controller(d, [], key=lambda m, s: m.get("file"), seed=i, patience=0.05, expect=len(cmds))
        extra = {"PVGATE": ctl.path, "PVGATE_FS": os.path.join(d, out)}
    procs = [subprocess.Popen(x, cwd=d, env=py.env(d, **extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
             for x in cmds]
    err, rc = b"", 0
    for p in procs:
        try:
            _, e = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            _, e = p.communicate()
        err += e
        rc = rc or p.returncode
    if ctl:
        ctl.close()
    info["stderr"] = err.decode("utf8", "replace")[-1500:]
    if rc != 0:
        c.violation("split_files.py fails with status %s (%d at once)" % (rc, len(paths)), info)
        return
    num, ids, case = {}, {}, {"kind": "split-parts", "files": [], "out": []}
    for docs in files:
        case["files"].append([{"t": num.setdefault(x["text"] or "", len(num) + 1), "h": split.prefix(x["text"])} for x in docs])
    for docs, w in zip(files, where):
        got = []
        for part in ("train", "valid", "test"):
            try:
                with gzip.open(os.path.join(d, out, w + ".%s.jsonl.gz" % part), "rb") as f:
                    rows = [json.loads(x) for x in f.read().decode("utf8").split("\n")[:-1]]
            except (OSError, EOFError, ValueError, zlib.error) as e:
                info["unreadable"] = repr(e)
                rows = [{"n": -1}]
            for r in rows:
                the = r.pop("id", None) if isinstance(r, dict) else None
                k = r.get("n", -1) if isinstance(r, dict) else -1
                ok = 0 <= k < len(docs) and split.same(r, docs[k])
                got.append([part, k + 1, ids.setdefault(the, len(ids) + 1) if the is not None else 0, int(ok)])
        case["out"].append(got)
    c.judge(case, "split_files.py: documents are lost, repeated, changed or in the wrong part", info)
    shutil.rmtree(d, ignore_errors=True)


def check(c):
    global TEXTS
    c.model("Split", "Split", constants={"MaxLines": c.pick(9, 30), "MaxN": c.pick(5, 12), "Tools": 3})
    for v, e in (("losttail", "Right"), ("overlap", "Right"), ("shared", "Right"), ("race", "NoneFails")):
        c.model("Split", "Split", e, constants={"Variant": '"%s"' % v})
    TEXTS = ["", " ", "\u00e9\u4e2d", "x" * 70000, "a\nb", "\x00", '"', "null", "\ud800", "a\udfff\udfffb", "\udc00\ud800"]
    edges = (0, 1, 4090, 4091, 4092, 4093, 4094, 4095, 0xeff, 0xfef)
    TEXTS += split.texts_with(edges, 2)
    # long ones, ones with white space at their ends, and not only ASCII
    TEXTS += split.texts_with(edges[4:8], 1, lambda k: "long %d " % k + "word " * 3000)
    TEXTS += split.texts_with(edges[4:8], 1, lambda k: " \n%d\t\n " % k)
    TEXTS += split.texts_with(edges[4:8], 1, lambda k: "\u00e9\U0001f600\u4e2d%d" % k)
    pmap(lambda j: j[0](c, j[1]), [(cut, i) for i in range(c.pick(60, 1500))] + [(parts, i) for i in range(c.pick(40, 800))])
    c.flush()
    c.assumptions += ["the files are UTF-8 and lines end with a newline", "names begin with no dot and contain "
                      ".jsonl and .gz only at their ends; tqdm is replaced by a stand-in"]
