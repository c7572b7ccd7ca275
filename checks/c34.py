"""A run of the Python tools that cannot do all of its work ends with a failure, and no other run does."""
import glob
import gzip
import json
import os
import random
import shlex
import shutil

from vlib import dedup, mapreduce as mr, py
from vlib.build import REPO
from vlib.core import pmap

HERE = "text_and_url_overlaps/"
# which field a document must have, by analysis (None: none)
NEEDS = {"url": "url", "scheme": "url", "ext": "url", "tokens": "text", "alive": "url", "lengths": "text", "language": "text",
         "pii": "text", "dates": None, "sample": None, "unique-lengths": "text", "profanity": "text"}


def damage(rng, path, field, jq=False):
    """Makes a file unreadable; returns what was done."""
    gz = path.endswith(".gz") or open(path, "rb").read(2) == b"\x1f\x8b"
    raw = open(path, "rb").read()
    data = gzip.decompress(raw) if gz else raw
    pack = gzip.compress if gz else lambda x: x
    lines = data.split(b"\n")
    if lines and lines[-1] == b"":
        lines.pop()
    kinds = ["missing", "junk", "junk", "cut-line"]
    if gz:
        kinds += ["truncated", "truncated", "crc", "second", "plain"]
    if not jq:
        kinds.append("utf8")
        if field:
            kinds += ["no-field", "no-field"]
    kind = rng.choice(kinds)
    at = rng.choice([0, len(lines), rng.randint(0, len(lines))])
    if kind == "missing":
        os.remove(path)
        return kind
    if kind in ("junk", "cut-line", "utf8", "no-field"):
        other = {k: "x" for k in ("id", "source", "text", "url") if k != field}
        line = {"junk": rng.choice([b"nonsense", b'{"text": "a", "url": "b"} x', b'{"text": "a" "url": "b"}', b"{'text': 'a'}"]),
                "cut-line": b'{"text": "a", "url": "http://a.com',
                "utf8": b'{"id": "1", "source": "s", "text": "\xff\xfe", "url": "http://a.com/\xff"}',
                "no-field": json.dumps(other).encode()}[kind]
        if jq and kind == "cut-line":
            at = max(1, at) if lines else 0
        lines.insert(at, line)
        with open(path, "wb") as f:
            f.write(pack(b"\n".join(lines) + b"\n"))
        return "%s: line %d of %d" % (kind, at + 1, len(lines))
    if kind == "truncated":
        n = rng.choice([1, 4, 8, 9, len(raw) // 2, len(raw) - 11])
        new = raw[:len(raw) - max(1, min(n, len(raw) - 5))]
    elif kind == "crc":
        new = raw[:-8] + bytes([raw[-8] ^ rng.choice([1, 128])]) + raw[-7:]
    elif kind == "second":
        more = gzip.compress(b'{"id": "9", "source": "s", "text": "more", "url": "http://more.com/"}\n' * rng.choice([1, 300]))
        new = raw + more[:len(more) - rng.choice([1, 8, 12])]
    else:
        new = data or b"plain text\n"
    with open(path, "wb") as f:
        f.write(new)
    return kind


def tools(rng, d, without):
    """The stand-ins, of which one fails (and says that it was asked)."""
    if not without:
        return {}
    b = os.path.join(d, "bin")
    shutil.copytree(os.path.join(py.STUBS, "bin"), b, symlinks=True)
    os.remove(os.path.join(b, without))
    with open(os.path.join(b, without), "w") as f:
        f.write("#!/bin/sh\n: > %s/asked-%s\nexit 127\n" % (shlex.quote(d), without))
    os.chmod(os.path.join(b, without), 0o755)
    return {"PATH": b + ":" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin")}


class Case:
    def __init__(self, what):
        self.asked = None
        self.what, self.steps, self.info, self.o = what, [], {}, None

    def files(self, rng, paths, field, p, jq=False):
        """A step that reads these files."""
        bad = []
        step = [1] * len(paths)
        if paths and rng.random() < p:
            for i in rng.sample(range(len(paths)), min(len(paths), rng.choice([1, 1, 2]))):
                bad.append((os.path.basename(paths[i]), damage(rng, paths[i], field, jq)))
                step[i] = 0
        self.steps.append(step)
        if bad:
            self.info.setdefault("damaged", []).extend(bad)

    def tool(self, d, name):
        """A step that fails if it uses this tool."""
        self.asked = (len(self.steps), os.path.join(d, "asked-%s" % name)) if name else None
        self.one(not name, "%s fails" % name)

    def settle(self):
        if self.asked and not os.path.exists(self.asked[1]):
            self.steps[self.asked[0]] = [1]       # it got by without that tool

    def one(self, ok, what):
        self.steps.append([int(ok)])
        if not ok:
            self.info.setdefault("failing", []).append(what)


def texts(rng, d, tag="s", need_one=True):
    n = rng.choice([1, 3, 8])
    words = [None] + dedup.texts(rng, n)
    shards = dedup.random_shards(rng, rng.choice([1, 2, 3, 4]), n, rng.choice([2, 6, 15]), nosource=False)
    if not any(shards) and need_one:
        shards[0] = [(1, 1)]
    return dedup.Shards(rng, d, shards, words, tag=tag)


def deduplicate(c, i):
    rng = random.Random("dd-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "dd%d" % i)
    k = Case("deduplicate.py")
    sh = texts(rng, d)
    out, tmp = os.path.join(d, "out"), os.path.join(d, "tmp")
    os.mkdir(out)
    os.mkdir(tmp)
    why = rng.choice(["files", "files", "files", "tool", "tmp", "fine", "fine"])
    k.files(rng, sh.paths, "text", 1 if why == "files" else 0)
    without = rng.choice(["parallel", "pv"]) if why == "tool" else None
    k.tool(d, without)
    if why == "tmp":
        tmp += "-other"
    k.one(why != "tmp", "no directory for the list")
    a = [HERE + "deduplicate.py", "--in_files"] + sh.paths + ["--out_dir", out, "--tmp_dir", tmp]
    if rng.random() < 0.2:
        a.append("--build_blocklist_only")
        k.what += ", list only"
    k.o = py.run(a, d, extra=dict(tools(rng, d, without), PARALLEL_SEED=i), timeout=120)
    return k


def decontaminate(c, i):
    rng = random.Random("dc-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "dc%d" % i)
    k = Case("decontaminate.py")
    one, two = texts(rng, d, "eval"), texts(rng, d, "train")
    out, tmp = os.path.join(d, "out"), os.path.join(d, "tmp")
    os.mkdir(out)
    os.mkdir(tmp)
    why = rng.choice(["first", "first", "second", "second", "tool", "tmp", "fine", "fine"])
    k.files(rng, one.paths, "text", 1 if why == "first" else 0)
    k.files(rng, two.paths, "text", 1 if why == "second" else 0)
    k.tool(d, "parallel" if why == "tool" else None)
    if why == "tmp":
        tmp += "-other"
    k.one(why != "tmp", "no directory for the list")
    k.o = py.run([HERE + "decontaminate.py", "--in_files1"] + one.paths + ["--in_files2"] + two.paths + ["--out_dir", out, "--tmp_dir", tmp], d,
                 extra=dict(tools(rng, d, "parallel" if why == "tool" else None), PARALLEL_SEED=i), timeout=120)
    return k


def listed(c, i):
    """A list that is there already."""
    rng = random.Random("li-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "li%d" % i)
    k = Case("with --blocklist")
    sh = texts(rng, d)
    out, bl = os.path.join(d, "out"), os.path.join(d, "list.txt")
    os.mkdir(out)
    with open(bl, "w") as f:
        f.write("".join(dedup.md5(w) + "\n" for w in sh.words[1:]))
    why = rng.choice(["files", "files", "list", "out", "fine"])
    k.files(rng, sh.paths, "text", 1 if why == "files" else 0)
    if why == "list":
        os.remove(bl)
    k.one(why != "list", "no list")
    if why == "out":
        # the place of one of the outputs is taken
        os.mkdir(os.path.join(out, os.path.basename(rng.choice(sh.paths))))
    k.one(why != "out", "an output cannot be written")
    tool = rng.choice([["deduplicate.py", "--in_files"], ["decontaminate.py", "--in_files2"]])
    k.what = "%s %s" % (tool[0], k.what)
    k.o = py.run([HERE + tool[0], tool[1]] + sh.paths + ["--out_dir", out, "--blocklist", bl], d, timeout=120)
    return k


def overlaps(c, i):
    """run_analysis.sh"""
    rng = random.Random("ov-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "ov%d" % i)
    mode = rng.choice(["text", "url"])
    k = Case("run_analysis.sh, %s" % mode)
    sets, paths = {}, []
    for n in sorted(rng.sample(["c4", "oscar-2", "pile", "x.y", "laion"], rng.choice([2, 2, 3]))):
        dd = os.path.join(d, "data-" + n)
        os.mkdir(dd)
        for j in range(rng.choice([1, 2, 3])):
            docs = [{"text": "text %d" % rng.randint(0, 9), "url": "http://a.com/%d" % rng.randint(0, 9), "id": "%d" % q}
                    for q in range(rng.choice([1, 4, 12]))]
            p = os.path.join(dd, "%d.jsonl.gz" % j)
            with open(p, "wb") as f:
                f.write(gzip.compress("".join(json.dumps(x) + "\n" for x in docs).encode()))
            paths.append(p)
        sets[n] = os.path.join(dd, "*.jsonl.gz")
    why = rng.choice(["files", "files", "files", "room", "tool", "fine"])
    if why == "files":
        # a file of a pattern that is gone does not belong to the data set
        some = [p for p in paths if rng.random() < 0.5] or paths[:1]
        for p in some[:2]:
            how = "missing"
            while how == "missing":
                if not os.path.exists(p):
                    break
                keep = open(p, "rb").read()
                how = damage(rng, p, "text", mode == "url")
                if how == "missing":
                    with open(p, "wb") as f:
                        f.write(keep)
            k.info.setdefault("damaged", []).append((os.path.relpath(p, d), how))
        k.steps.append([0 if p in some[:2] else 1 for p in paths])
    else:
        k.steps.append([1] * len(paths))
    out = os.path.join(d, "out")
    if why == "room":
        # the place of one of the lists is taken
        base = os.path.join(out, mode + "_overlaps")
        names = sorted(sets)
        place = rng.choice(["sorted_uniq_counts/%s.txt" % names[0], "sorted_uniq/%s.txt" % names[-1], "sorted_uniq/%s_and_%s.txt" % (names[0], names[1]),
                            "duplicate_counts.json", "overlap_numbers.txt", "sorted_sorted_uniq_counts/%s.txt" % names[1],
                            "top_examples/%s.jsonl" % names[0]])
        # a directory there that is not empty
        os.makedirs(os.path.join(base, place, "x"))
        k.info["taken"] = place
    k.one(why != "room", "a list cannot be written")
    k.tool(d, "parallel" if why == "tool" else None)
    with open(os.path.join(d, "sets.json"), "w") as f:
        json.dump(sets, f)
    k.o = py.run([HERE + "run_analysis.sh", os.path.join(d, "sets.json"), out, mode], d,
                 extra=dict(tools(rng, d, "parallel" if why == "tool" else None), PARALLEL_SEED=i), timeout=200)
    return k


def analysis(c, i):
    """run.sh of the analyses."""
    name = sorted(NEEDS)[i % len(NEEDS)]
    rng = random.Random("an-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "an%d" % i)
    folder, gen = mr.ANALYSES[name][:2]
    script = folder + ("/run_uniq.sh" if name == "unique-lengths" else "/run.sh")
    k = Case(script)
    g = mr.Gen(rng)
    paths = []
    for s in range(rng.choice([1, 2, 4])):
        p = os.path.join(d, "part%d.json.gz" % s)
        mr.write(p, [gen(g)[0] for _ in range(rng.choice([0, 1, 6]))], False)
        paths.append(p)
    why = rng.choice(["files", "files", "tool", "fine"])
    k.files(rng, paths, NEEDS[name], 1 if why == "files" else 0)
    k.tool(d, "parallel" if why == "tool" else None)
    k.o = py.run([script] + (["c4"] if name == "unique-lengths" else []) + paths, d, cwd=REPO,
                 extra=dict(tools(rng, d, "parallel" if why == "tool" else None), PARALLEL_SEED=i), timeout=200)
    return k


def single(c, i):
    """Tools that are one process."""
    rng = random.Random("si-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "si%d" % i)
    what = rng.choice(["file_split", "split_files", "examples", "hashes", "counts"])
    k = Case(what)
    docs = [{"text": "t%d" % q, "n": q} for q in range(rng.choice([1, 5, 20]))]
    p = os.path.join(d, "in", "a.jsonl.gz")
    os.mkdir(os.path.dirname(p))
    with open(p, "wb") as f:
        f.write(gzip.compress("".join(json.dumps(x) + "\n" for x in docs).encode()))
    fine = rng.random() < 0.4
    if what == "file_split":
        # it looks at lines only
        raw = open(p, "rb").read()
        if not fine:
            with open(p, "wb") as f:
                f.write(raw[:-rng.choice([1, 8, 9, len(raw) // 2])])
        k.steps.append([int(fine)])
        a = ["utils/file_split.py", "--in_folder", os.path.dirname(p)]
    elif what == "split_files":
        k.files(rng, [p], "text", 0 if fine else 1)
        a = ["utils/split_files.py", "--in_file", "in/a.jsonl.gz", "--out_prefix", "out"]
    elif what == "hashes":
        k.files(rng, [p], "text", 0 if fine else 1)
        a = [HERE + "helper_scripts/get_text_hashes.py", "--in_file", p]
    elif what == "examples":
        # all are looked for, so that all of the file is read
        k.files(rng, [p], "text", 0 if fine else 1)
        with open(os.path.join(d, "h"), "w") as f:
            f.write("".join("%7d %s\n" % (2, dedup.md5(x)) for x in [y["text"] for y in docs] + ["not there"]))
        a = [HERE + "helper_scripts/get_examples.py", "--data_shards", p, "--count_hash_file", os.path.join(d, "h"), "--k", 1000,
             "--outfile", os.path.join(d, "out")]
    else:
        q = os.path.join(d, "x.txt")
        if fine or rng.random() < 0.5:
            with open(q, "w") as f:
                f.write("      2 a\n" + ("" if fine else "no number\n"))
        k.steps.append([int(fine)])
        a = [HERE + "helper_scripts/get_duplicate_counts.py", "--datasets", "x", "--sorted_uniq_count_dir", d, "--out_file", os.path.join(d, "o.json")]
    k.o = py.run(a, d, cwd=d, timeout=120)
    return k


def check(c):
    c.model("ToolRun", constants={"Files": c.pick(2, 3)})
    for v in ("lastonly", "ignore", "inner", "catch", "skipline", "anyone"):
        c.model("ToolRun", None, "Truthful", constants={"Variant": '"%s"' % v})
    jobs = [(f, i) for f, n in ((deduplicate, (24, 300)), (decontaminate, (24, 300)), (listed, (12, 150)), (overlaps, (20, 250)),
                                (analysis, (48, 600)), (single, (30, 300))) for i in range(c.pick(*n))]
    done = {}

    def job(j):
        k = j[0](c, j[1])
        if k.o.timed_out:
            # multiprocessing.Pool.terminate() can get stuck on a very busy machine
            k = j[0](c, j[1])
        return k

    for k in pmap(job, jobs):
        k.settle()
        fails = any(0 in s for s in k.steps)
        done[k.what] = done.get(k.what, 0) + 1
        info = dict(k.info, steps=k.steps, status=k.o.rc, stderr=k.o.err.decode("utf8", "replace")[-1500:])
        if k.o.timed_out:
            c.violation("%s does not end" % k.what, info)
            continue
        c.judge({"kind": "pipeline", "steps": k.steps, "rc": int(k.o.rc != 0)},
                "%s %s" % (k.what, "reports success although not all of its data could be processed (%s)" % json.dumps(k.info)[:300]
                           if fails else "fails without a reason"), info)
    c.flush()
    c.cov["runs"] = done
    c.assumptions += ["GNU parallel (whose status counts the jobs that failed) and pv are replaced by stand-ins",
                      "what is written before a failure is noticed may stay"]
