"""The results of the map/reduce analyses are the sums over the documents, however these are sharded."""
import json
import os
import random
import re
import shutil

from vlib import mapreduce as mr, py
from vlib.build import REPO
from vlib.core import pmap


def split(rng, docs, n):
    """Shards of the documents: arbitrary, some of them empty."""
    cuts = sorted(rng.randint(0, len(docs)) for _ in range(n - 1))
    return [docs[a:b] for a, b in zip([0] + cuts, cuts + [len(docs)])]


def parse(name, out, means):
    lines = out.decode("utf8").split("\n")
    assert lines[-1] == ""
    lines = lines[:-1]
    if means:
        return [[k, *mr.fraction(v)] for k, v in json.loads(lines[0]).items()]
    rows = [list(mr.ANALYSES[name][3](json.loads(x))) for x in lines]
    if name == "ext":
        # JPG may be counted as such or as jpg
        spelled, rest = {}, []
        for k, n in rows:
            if k in spelled.setdefault(k.lower(), {}):
                rest.append([k.lower(), n])
            spelled[k.lower()].setdefault(k, n)
        rows = [[k, sum(v.values())] for k, v in spelled.items()] + rest
    return rows


def one(c, job):
    name, i = job
    rng = random.Random("c25-%s-%d-%d" % (name, c.seed, i))
    folder, gen, opts, _ = mr.ANALYSES[name]
    d = os.path.join(c.scratch, "%s-%d" % (name, i))
    os.makedirs(d)
    g = mr.Gen(rng)
    bs = rng.choice([1, 2, 3, 5, 10])
    n = rng.choice([0, 1, bs, 2 * bs, 3 * bs + 1, 12, 25])
    docs = [gen(g) for _ in range(n)]
    shards = split(rng, docs, rng.choice([1, 1, 2, 3, 6]))
    plain = name == "domain"
    paths = []
    for s, shard in enumerate(shards):
        p = os.path.join(d, rng.choice(["part%d", "p %d", "\u00e9%d"]) % s + (".jsonl" if plain else ".json.gz"))
        mr.write(p, [r for r, _ in shard], plain)
        paths.append(p)
    spec_opts = {"toks": [], "chars": []}
    extra = {"PARALLEL_SEED": i}
    how = "run.sh"
    margs, script = [], "map_count.py"
    fraction = None
    if name == "unique-lengths":
        script = "map_unique_lengths.py"
        ds = rng.choice(list(mr.LENGTHS))
        spec_opts, margs = mr.LENGTHS[ds], ["--dataset", ds]
        how = rng.choice(["run.sh", "steps"])
        if docs:
            special(rng, g, spec_opts, docs, shards, paths, d)
    elif name == "taxonomy":
        how, margs = "steps", ["--model", "taxonomy"]
    elif name == "sample":
        fraction = rng.choice([0, 1, 1, 0.5])
        how, margs = "steps", ["--sample_fraction", fraction]
    elif opts or rng.random() < 0.5:
        how = rng.choice(["run.sh", "steps"])
        if name == "profanity" and how == "steps":
            margs = rng.choice([["--model", "model"], ["--per_sentence"], []])
    if "bs" in opts:
        margs += ["--bs", bs]
    damaged = how == "run.sh" and not plain and rng.random() < 0.08
    if damaged:
        p = rng.choice(paths)
        with open(p, "r+b") as f:
            f.truncate(max(1, os.path.getsize(p) - rng.randint(1, 8)))
    info = {"analysis": name, "how": how, "options": margs, "shards": [[r for r, _ in s] for s in shards] if n < 30 else "many"}
    if how == "run.sh":
        o = py.run([folder + "/run.sh"] + paths if name != "unique-lengths" else [folder + "/run_uniq.sh", ds] + paths,
                   d, cwd=REPO, extra=extra, timeout=240)
        raw = o.out
        if name == "unique-lengths" and raw.startswith(ds.encode() + b"\n"):
            raw = raw[len(ds) + 1:]     # it says what it works on
    else:
        outs, rc, err = [], 0, b""
        for p in paths:
            o = py.run([folder + "/" + script, "--in_file", p] + margs, d, cwd=REPO, timeout=240)
            outs.append(o.out)
            rc, err = rc or o.rc, err + o.err
        rng.shuffle(outs)
        if rng.random() < 0.5:
            # lines of different shards between each other
            lines = [x for t in outs for x in re.findall(rb"[^\n]*\n|[^\n]+", t)]
            rng.shuffle(lines)
            outs = lines
        o = py.run([folder + "/reduce_count.py"], d, stdin=b"".join(outs), timeout=240)
        o.rc = o.rc or rc
        o.err = err + o.err
        raw = o.out
    shutil.rmtree(d, ignore_errors=True)
    info["stderr"] = o.err.decode("utf8", "replace")[-1500:]
    case = {"kind": "mapreduce", "analysis": name, "opts": spec_opts, "shards": [[x for _, x in s] for s in shards], "merged": 1, "part": 0}
    if name == "sample":
        case.update(merged=0, part=int(fraction not in (0, 1)))
        if fraction == 0:
            case["shards"] = []
    if name == "sentiment":
        case = {"kind": "means", "shards": case["shards"]}
    return name, how, o, raw, case, info, damaged


def special(rng, g, opts, docs, shards, paths, d):
    """Texts with the listed lengths."""
    for s, shard in enumerate(shards):
        for k in range(len(shard)):
            if rng.random() < 0.5:
                kind = rng.choice(["chars", "toks"])
                ls = [x for x in opts[kind] if x < 3000]
                if not ls:
                    continue
                n = rng.choice(ls) + rng.choice([0, 0, 0, 1])
                if kind == "chars":
                    t = ("ab " * n)[:n - 1] + "."
                else:
                    t = "w " * (n - 1) + "w"
                t2 = t.replace(" ", rng.choice(["\n", "\r", "\r", "\u2028"]), 1) if rng.random() < 0.5 else t
                if rng.random() < 0.3:
                    # white space at the ends counts
                    t2 = t2[:-1] + "\n" if rng.random() < 0.5 or len(t2) < 2 else "\n" + t2[1:]
                    if not t2.strip(" \n."):
                        t2 = t
                row = {"text": t2}
                ntok = len(t2.replace(".", " .").split())
                shard[k] = (row, {"chars": len(t2), "tokens": ntok, "line": mr.shown(t2)})
        mr.write(paths[s], [r for r, _ in shard], False)


def summary(c, i):
    """The lengths of a few data sets: counted, reduced, and summarized in shares."""
    rng = random.Random("c25-summary-%d-%d" % (c.seed, i))
    d = os.path.join(c.scratch, "summary-%d" % i)
    home = os.path.join(d, "home")
    for x in ("lengths_data", "lengths_tok_summary", "lengths_char_summary"):
        os.makedirs(os.path.join(home, "wimbd", x))
    g = mr.Gen(rng)
    sets = {}
    for name in rng.sample(["c4", "pile", "mc4", "re_oscar", "s2orc-0"], rng.choice([1, 2, 3])):
        docs = [mr.Gen.lengths(g) for _ in range(rng.choice([0, 1, 2, 8, 20]))]
        if docs and rng.random() < 0.4:
            docs += [rng.choice(docs) for _ in range(20)]
        shards = split(rng, docs, rng.choice([1, 2, 3]))
        out = b""
        for k, shard in enumerate(shards):
            p = os.path.join(d, "part.json.gz")
            mr.write(p, [r for r, _ in shard], False)
            o = py.run(["sentence_lengths/map_count.py", "--in_file", p], d, timeout=120)
            assert o.rc == 0 or c.violation("lengths: the analysis fails", {"stderr": o.err.decode("utf8", "replace")[-1500:]})
            out += o.out
        o = py.run(["sentence_lengths/reduce_count.py"], d, stdin=out, timeout=120)
        with open(os.path.join(home, "wimbd", "lengths_data", name + rng.choice([".jsonl", ".lengths.jsonl", ""])), "wb") as f:
            f.write(o.out)
        sets[name] = ([[x for _, x in s] for s in shards], o.out.decode("utf8", "replace"))
    # the script works in a fixed directory
    with open(os.path.join(REPO, "wimbd/sentence_lengths/summarize.py")) as f:
        text = f.read()
    script = os.path.join(d, "summarize.py")
    with open(script, "w") as f:
        f.write(text.replace("/home/alanes", home))
    o = py.run(["python", script], d, timeout=120)
    res = []
    for name, (shards, counts) in sets.items():
        info = {"data set": name, "lengths": counts[:3000], "stderr": o.err.decode("utf8", "replace")[-1500:], "status": o.rc}
        case = {"kind": "summary", "shards": shards}
        for k, where in (("toks", "tok"), ("chars", "char")):
            p = os.path.join(home, "wimbd", "lengths_%s_summary" % where, "%s_%s.json" % (k, name))
            try:
                with open(p) as f:
                    case[k] = [[int(x), *mr.fraction(v)] for x, v in json.load(f).items()]
            except (OSError, ValueError, TypeError, AttributeError) as e:
                case[k] = None
                info["problem"] = repr(e)
            info[k] = case[k]
        res.append((case, info))
    shutil.rmtree(d, ignore_errors=True)
    return res


def check(c):
    c.model("MapReduce", "MapReduce", constants={"MaxShard": 3})
    for v, e in (("dropfull", "Right"), ("nolast", "Right"), ("carry", "Bounded"), ("lose", "Right"), ("overwrite", "Right"), ("lines", "Right")):
        c.model("MapReduce", "MapReduce", e, constants={"Variant": '"%s"' % v, "MaxShard": 3})
    if c.thorough:
        c.model("MapReduce", "MapReduce", constants={"Mappers": 3, "MaxShard": 3})
    jobs = [(name, i) for name in mr.ANALYSES for i in range(c.pick(14, 150))]
    done = {}
    for name, how, o, raw, case, info, damaged in pmap(lambda j: one(c, j), jobs):
        done[name] = done.get(name, 0) + 1
        if damaged:
            if o.rc == 0:
                c.violation("%s: a damaged file is not reported" % name, info)
            continue
        if o.rc != 0 or o.timed_out:
            if name == "sentiment" and not any(s["m"] for sh in case["shards"] for x in sh if not x["blank"] and not x["long"] for s in x["sentences"]):
                continue          # there is nothing to average
            c.violation("%s: the analysis fails with status %s" % (name, o.rc), info)
            continue
        try:
            case["out"] = parse(name, raw, name == "sentiment")
        except (ValueError, KeyError, AssertionError, IndexError, UnicodeDecodeError) as e:
            c.violation("%s: the result cannot be read: %r" % (name, e), dict(info, out=raw.decode("utf8", "replace")[:2000]))
            continue
        info["out"] = case["out"]
        c.judge(case, "%s (%s): the result differs from the sum over the documents" % (name, how), info)
    if "/home/alanes" in open(os.path.join(REPO, "wimbd/sentence_lengths/summarize.py")).read():
        for res in pmap(lambda i: summary(c, i), range(c.pick(16, 150))):
            for case, info in res:
                done["summary"] = done.get("summary", 0) + 1
                if info["status"] or case["toks"] is None or case["chars"] is None:
                    c.violation("the summary of the lengths fails", info)
                else:
                    c.judge(case, "the summary of the lengths is not that of the documents", info)
    c.flush()
    c.cov["runs"] = done
    c.assumptions += ["tldextract, pycld2, uniseg, nltk, spacy, profanity_check, pandas, requests and GNU parallel are replaced by stand-ins whose "
                      "answers are known from the text",
                      "URLs, dates and extensions of the documents are valid"]
