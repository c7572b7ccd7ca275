"""Overlap lists are the intersections of their data sets; counts and examples agree with the data."""
import gzip
import itertools
import json
import os
import random

from vlib import dedup, py
from vlib.core import pmap

HERE = "text_and_url_overlaps/helper_scripts/"
URLS = ["http://a.com/", "http://a.com", "https://a.com/", "a", "A", "aa", "a-b", "a_b", "\u00e9", "\u4e2d", "z", "http://a.com/?q=1&r=2",
        "http://a.com/#x", "null", "1", "10", "2", "~", "!x", "%20", "*", "$HOME", "\U0001f600", "x" * 300, "None", "a.b", "a,b", "'q'"]
SPACED = [" lead", "in the middle", "trail ", "  two", "tab\there", "9 9", "car\rriage"]


def rank(lines):
    """Numbers in the order of sort(1)."""
    return {x: i + 1 for i, x in enumerate(sorted(set(lines), key=lambda s: s.encode()))}


def uniq_c(lines):
    return "".join("%7d %s\n" % (lines.count(x), x) for x in sorted(set(lines), key=lambda s: s.encode()))


def read(path):
    with open(path, "rb") as f:
        return f.read().decode().split("\n")[:-1]


def names_for(rng, n):
    pool = ["c4", "the_pile", "oscar-2", "S2ORC", "x.y", "laion", "a", "b1", "zz", "Re", "m"]
    return rng.sample(pool, n)


class Result:
    def __init__(self, what):
        self.what, self.case, self.info, self.failed = what, None, {}, None


def number(num, x):
    return num.get(x, 0)


def observe(base, names, data, num, overlaps=True, counts=None, lists=None, examples=None, sizes=None):
    """What the files in the directories say about the data sets."""
    case = {"kind": "overlap", "data": [[num[x] for x in d] for d in data], "overlaps": [], "counts": [], "lists": [], "examples": [], "sizes": []}
    n = len(names)
    if overlaps:
        for r in range(2, n + 1):
            for m in itertools.combinations(range(n), r):
                try:
                    l = [number(num, x) for x in read(os.path.join(base, "sorted_uniq", "_and_".join(names[i] for i in m) + ".txt"))]
                except OSError:
                    l = [-1]
                case["overlaps"].append({"m": [i + 1 for i in m], "l": l})
        for i in range(n):
            # the list of a single data set
            case["overlaps"].append({"m": [i + 1], "l": [number(num, x) for x in read(os.path.join(base, "sorted_uniq", names[i] + ".txt"))]})
    if counts:
        try:
            with open(counts) as f:
                got = json.load(f)
        except (OSError, ValueError):
            got = {}
        for i in range(n):
            g = got.get(names[i], {})
            case["counts"].append([i + 1] + [g.get(k, -1) for k in ("total", "uniq_total", "duplicates", "uniq_duplicates")])
    if sizes:
        of = {"_and_".join(names[i] for i in m) + ".txt": [i + 1 for i in m] for r in range(1, n + 1) for m in itertools.combinations(range(n), r)}
        for x in read(sizes):
            k, _, p = x.strip().partition(" ")
            if os.path.basename(p) in of:
                case["sizes"].append({"m": of[os.path.basename(p)], "n": int(k) if k.isdigit() else -1})
        if not case["sizes"]:
            case["sizes"].append({"m": [1], "n": -1})
    if lists:
        for i in range(n):
            rows = []
            for x in read(os.path.join(lists, names[i] + ".txt")):
                c, _, k = x.lstrip(" \t").partition(" ")
                rows.append([int(c) if c.isdigit() else -1, number(num, k)])
            case["lists"].append([i + 1, rows])
    if examples:
        for i in range(n):
            try:
                rows = [json.loads(x) for x in read(os.path.join(examples, names[i] + ".jsonl"))]
            except (OSError, ValueError):
                rows = [{}]
            out = []
            for r in rows:
                key = r.get("hash", r.get("text"))
                if "hash" in r and r["hash"] != "None" and dedup.md5(r.get("text") or "") != r["hash"]:
                    key = ""
                if "hash" in r and r["hash"] == "None" and r.get("text") not in ("None", None):
                    key = ""
                try:
                    out.append([number(num, key), int(r.get("count", -1))])
                except ValueError:
                    out.append([0, -1])
            case["examples"].append([i + 1, 30, out])
    return case


def contents(rng, n, pool, size):
    """n data sets with much in common; some are empty, equal or disjoint."""
    common = rng.sample(pool, min(len(pool), rng.choice([0, 1, 4])))
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.12:
            out.append([])
        elif r < 0.2 and out:
            out.append(list(out[-1]))
        else:
            own = rng.sample(pool, rng.randint(0, min(len(pool), size)))
            d = own + common
            d += [rng.choice(d) for _ in range(rng.choice([0, 3, 12]))] if d else []
            out.append(d)
    return out


def direct(c, i):
    """The helper scripts one by one on lists that are there already."""
    rng = random.Random("d-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "d%d" % i)
    n = rng.choice([2, 2, 3, 3, 4])
    names = names_for(rng, n)
    for x in ("sorted_uniq", "counts"):
        os.mkdir(os.path.join(d, x))
    if rng.random() < 0.5:
        # results of an earlier run
        for r in range(2, n + 1):
            for m in itertools.combinations(names, r):
                if rng.random() < 0.8:
                    with open(os.path.join(d, "sorted_uniq", "_and_".join(m) + ".txt"), "w") as f:
                        f.write("".join(x + "\n" for x in sorted(rng.sample(URLS, rng.randint(0, 5)))))
    results = []
    for run in range(rng.choice([1, 1, 2])):
        pool = URLS + (SPACED if rng.random() < 0.4 else [])
        data = contents(rng, n, pool, rng.choice([2, 6, 25]))
        if run and rng.random() < 0.5:
            data = results[-1].data[:]
            data[rng.randrange(n)] = []
        num = rank(URLS + SPACED)
        for k, x in zip(names, data):
            with open(os.path.join(d, "counts", k + ".txt"), "w", newline="\n") as f:
                f.write(uniq_c(x))
            o = py.run(["%sremove_count.sh" % HERE, os.path.join(d, "counts", k + ".txt")], d)
            with open(os.path.join(d, "sorted_uniq", k + ".txt"), "wb") as f:
                f.write(o.out)
        res = Result("run_combinations.py and get_duplicate_counts.py, %d data sets, run %d" % (n, run + 1))
        res.data = data
        slash = rng.choice(["", "/"])
        where = rng.choice([d, "/", os.path.join(d, "counts")])
        o = py.run([HERE + "run_combinations.py", "--datasets"] + names + ["--sorted_uniq_dir", os.path.join(d, "sorted_uniq") + slash], d, cwd=where)
        o2 = py.run([HERE + "get_duplicate_counts.py", "--datasets"] + names + ["--sorted_uniq_count_dir", os.path.join(d, "counts") + slash,
                     "--out_file", os.path.join(d, "dup.json")], d, cwd=where)
        if o.rc or o2.rc:
            res.failed = "status %s and %s" % (o.rc, o2.rc)
        res.case = observe(d, names, data, num, counts=os.path.join(d, "dup.json"))
        res.info = {"names": names, "data": data, "stderr": (o.err + o2.err).decode("utf8", "replace")[-1500:]}
        results.append(res)
    return results


PARTS = ["a", "b", "c4", "x-y", "and"]


def ambiguous(c, i):
    """Names of data sets that contain the conjunction, so that two lists may be the same file."""
    rng = random.Random("n-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "n%d" % i)
    os.mkdir(os.path.join(d, "sorted_uniq"))
    ps = rng.sample(PARTS, rng.choice([2, 2, 3]))
    n = rng.choice([2, 3, 3, 4])
    pool = [m for k in (1, 2, 3) for m in itertools.permutations(ps, k)] + [(x, x) for x in ps]
    split = rng.sample(pool, n)
    if rng.random() < 0.3:
        split = [tuple(ps[:1]), tuple(ps[1:2]), tuple(ps[:2])] + split[3:]
        split = list(dict.fromkeys(split))
        rng.shuffle(split)
    n = len(split)
    names = ["_and_".join(x) for x in split]
    data = [sorted(set(x), key=lambda s: s.encode()) for x in contents(rng, n, URLS, rng.choice([2, 6]))]
    num = rank(URLS)
    for k, x in zip(names, data):
        with open(os.path.join(d, "sorted_uniq", k + ".txt"), "w", newline="\n") as f:
            f.write("".join(y + "\n" for y in x))
    o = py.run([HERE + "run_combinations.py", "--datasets"] + names + ["--sorted_uniq_dir", os.path.join(d, "sorted_uniq")], d)
    intact = all(read(os.path.join(d, "sorted_uniq", k + ".txt")) == x for k, x in zip(names, data))
    res = Result("run_combinations.py, data sets %s" % names)
    res.case = observe(d, names, data, num)
    res.case.update({"kind": "overlap-names", "names": [[ps.index(y) + 1 for y in x] for x in split], "failed": int(o.rc != 0), "intact": int(intact)})
    res.info = {"names": names, "data": data, "status": o.rc, "stderr": o.err.decode("utf8", "replace")[-1500:]}
    return [res]


def analysis(c, i, wide=False):
    """run_analysis.sh from the documents to the examples."""
    rng = random.Random("a-%d-%d" % (c.seed, i))
    d = dedup.fresh(c, "a%d" % i)
    mode = rng.choice(["text", "url"])
    n = rng.choice([2, 2, 3])
    names = sorted(names_for(rng, n))
    results = []
    out = os.path.join(d, "out")
    for run in range(rng.choice([1, 2])):
        pool = dedup.texts(rng, 30) if mode == "text" else URLS + ["", "of some words", "http://a.com/b c"]
        if wide:
            # more lines than there are examples, with counts of one to three digits
            pool = pool + ["http://n.com/%d" % j for j in range(rng.choice([5, 40]))]
        data, paths = [], {}
        for k, x in zip(names, contents(rng, n, pool, rng.choice([3, 12, 28]) if not wide else 60)):
            if wide and x:
                x = x + [rng.choice(x[:12]) for _ in range(rng.choice([20, 150]))] + [x[0]] * rng.choice([0, 120])
            loc = rng.choice(["url", "metadata"])
            if mode == "text":
                x = [t if rng.random() < 0.93 else None for t in x] + rng.choice([[], ["same"] * 12])
            elif not x:
                x = ["http://a.com/"]
            rng.shuffle(x)
            files = rng.choice([1, 2, 3])
            dd = os.path.join(d, "data%d-%s" % (run, k))
            os.mkdir(dd)
            shards = [[] for _ in range(files)]
            for j, t in enumerate(x):
                shards[0 if j == 0 else rng.randrange(files)].append(t)
            for j, s in enumerate(shards):
                docs = []
                for t in s:
                    if mode == "text":
                        docs.append({"id": "1", "text": t, "metadata": {"url": "u"}})
                    else:
                        v = None if t == "null" else t
                        docs.append({"text": "x", "url": v} if loc == "url" else {"text": "x", "metadata": {"url": v}})
                if mode == "url" and docs and j == 0:
                    # the first document shows where the URLs are
                    k0 = next((q for q, t in enumerate(s) if t != "null"), None)
                    if k0 is None:
                        docs[0] = {"text": "x", "url": "a"} if loc == "url" else {"text": "x", "metadata": {"url": "a"}}
                        x[x.index(s[0])] = "a"
                        s[0] = "a"
                    else:
                        docs[0], docs[k0] = docs[k0], docs[0]
                with open(os.path.join(dd, "%d.jsonl.gz" % j), "wb") as f:
                    f.write(gzip.compress("".join(json.dumps(y) + "\n" for y in docs).encode()))
            data.append(["None" if t is None else dedup.md5(t) for t in x] if mode == "text" else x)
            paths[k] = os.path.join(dd, "*.jsonl.gz")
        with open(os.path.join(d, "sets.json"), "w") as f:
            json.dump(paths, f)
        o = py.run(["text_and_url_overlaps/run_analysis.sh", os.path.join(d, "sets.json"), out, mode], d,
                   extra={"PARALLEL_SEED": "%d" % i}, timeout=200)
        res = Result("run_analysis.sh, %s, %d data sets, run %d" % (mode, n, run + 1))
        num = rank([t for x in data for t in x])
        base = os.path.join(out, mode + "_overlaps")
        if o.rc:
            res.failed = "status %s" % o.rc
        try:
            res.case = observe(base, names, data, num, counts=os.path.join(base, "duplicate_counts.json"),
                               lists=os.path.join(base, "sorted_uniq_counts"), examples=os.path.join(base, "top_examples"),
                               sizes=os.path.join(base, "overlap_numbers.txt"))
        except OSError as e:
            res.failed = res.failed or str(e)
        res.info = {"names": names, "data": data if len(str(data)) < 20000 else "large", "stderr": o.err.decode("utf8", "replace")[-1500:]}
        results.append(res)
    return results


def check(c):
    c.model("Overlap")
    c.model("Overlap", constants={"K": 1, "N": 4})
    if c.thorough:
        c.model("Overlap", constants={"K": 3, "N": 3, "Runs": 1})
    c.model("OverlapNames")
    for v in ("unchecked", "singles", "late"):
        c.model("OverlapNames", None, "Lists" if v == "singles" else "Intact", constants={"Variant": '"%s"' % v})
    for v in ("keepstale", "reuse", "large", "alldups", "append", "addsizes"):
        c.model("Overlap", None, "SizesRight" if v == "addsizes" else "Right", constants={"Variant": '"%s"' % v})
    jobs = [(direct, i) for i in range(c.pick(28, 400))] + [(analysis, i) for i in range(c.pick(14, 200))]
    jobs += [(ambiguous, i) for i in range(c.pick(20, 300))]
    n = 0
    for rs in pmap(lambda j: j[0](c, j[1]), jobs):
        for r in rs:
            n += 1
            if r.failed:
                c.violation("the overlap analysis fails (%s; %s)" % (r.failed, r.what), r.info)
            elif r.case:
                c.judge(r.case, "a list, count or example does not agree with the data sets (%s)" % r.what, r.info)
    c.flush()
    c.cov["runs"] = n
    c.assumptions += ["the names of the data sets and directories have no characters that are special to the shell",
                      "the first document of the first shard shows where the URLs are", "GNU parallel and pv are replaced by stand-ins"]
