"""The top-k collection keeps the k largest counts: behaviours generated from TopK.tla, replayed into the code."""
import bisect
import random

from vlib import driver, tlc
from vlib.core import pmap
from vlib.counting import MAXV


def histories(c, k, consts, args=(), workers=1):
    r = tlc.run("TopK", constants=dict(consts, K=k, Emit="TRUE"), args=args, workers=workers, timeout=600)
    if r.rc != 0:
        raise tlc.TlcError("TopK fails: " + tlc.brief(r.out))
    hs = r.prints("H")
    if not hs:
        raise tlc.TlcError("no behaviours: " + tlc.brief(r.out))
    c.states += r.distinct or len(hs)
    c.transitions += r.generated or len(hs)
    return hs


def mapping(rng, width, top):
    """Strictly rising values of the type for the counts 0..top (0 stays 0; 1 and more are positive)."""
    m = MAXV[width]
    if rng.random() < 0.5:
        vals = list(range(1, top + 1))
    else:
        pool = set()
        while len(pool) < top:
            pool.add(rng.choice([1, 2, m, m - 1, m // 2, m // 2 + 1, rng.randint(1, m)]))
        vals = sorted(pool)
    return [0] + vals


def grams(rng, n):
    pool = [["a"], ["a", "a"], ["a", "b"], ["aa"], ["b"], ["b", "a"], ["b", "a", "c"], ["\u00e9"], ["z", ""], ["", "z"], ["Z"],
            ["a"] * 8, ["a"] * 7, ["b"] * 40, ["c" * 5000], [str(i) for i in range(100)], [""] * 9, ["\u4e2d"] * 64]
    return sorted(rng.sample(pool, n), key=lambda g: [t.encode() for t in g])


def job(rng, h, ngrams, top):
    width = rng.choice([8, 16, 32, 64])
    mp, gs = mapping(rng, width, top), grams(rng, ngrams)
    ops = []
    for o in h["h"]:
        ops.append(["d"] if not o else ["i", gs[o[0] - 1], str(mp[o[1]])])
    ops += [["m"], ["d"], ["m"]]
    want = [[gs[p[1] - 1], str(mp[p[0]])] for p in h["e"]]
    bound = None if h["k"] == 0 else (1 if h["min"] == 1 and len(h["e"]) < h["k"] else mp[h["min"]])
    lastdrain = [[gs[p[1] - 1], str(mp[p[0]])] for p in h["d"]] if h["h"] and not h["h"][-1] else None
    return {"op": "topk", "width": width, "k": h["k"], "ops": ops}, want, bound, lastdrain


def compare(cmd, want, bound, lastdrain, a):
    if not isinstance(a, list):
        return "the collection fails: %s" % (a,)
    if a[-2]["drain"] != want:
        return "a drain returns %s, not %s" % (a[-2]["drain"], want)
    if lastdrain is not None and a[-4]["drain"] != lastdrain:
        return "a drain returns %s, not %s" % (a[-4]["drain"], lastdrain)
    if bound is not None:
        if int(a[-3]["min"]) > bound:
            return "the published minimum %s excludes n-grams that belong to the k largest (at most %s)" % (a[-3]["min"], bound)
        if len(a) > 3 and int(a[-4]["min"]) > bound:
            return "the minimum seen through an older handle is %s (at most %s)" % (a[-4]["min"], bound)
    if cmd["k"] > 0 and (int(a[-1]["min"]) > 1 or int(a[-2]["min"]) > 1):
        return "after a drain the published minimum is %s / %s" % (a[-2]["min"], a[-1]["min"])
    return None


def replay(c, hs, ngrams, top):
    jobs = [job(c.rng, h, ngrams, top) for h in hs]
    parts = [jobs[i::8] for i in range(8)]
    for part, answers in zip(parts, pmap(lambda p: driver.call([j[0] for j in p]), parts)):
        for j, a in zip(part, answers):
            bad = compare(*j, a)
            if bad:
                if len(c.violations) < 10:
                    c.violation(bad, {"command": j[0], "expected": j[1], "answer": a})
    c.accept(len(jobs), sample={"behaviour": jobs[-1][0], "expected at the final drain": jobs[-1][1]})


def large(c, i):
    """Collections of hundreds, with n-grams that come back with larger counts; every drain is judged."""
    rng = random.Random("large-%d-%d" % (c.seed, i))
    width = rng.choice([8, 16, 32, 64])
    k = rng.choice([1, 10, 100, 255, 256, 257, 300, 1000, 1025, 3000])
    n = rng.choice([k + 1, 2 * k, 3 * k + 5, 40, 1500])
    length = rng.choice([1, 2, 8, 9, 20])
    gs = sorted({tuple(rng.choice(["a", "b", "", "\u00e9", "t%d" % rng.randrange(300)]) for _ in range(length - 1)) + ("u%d" % rng.randrange(10 ** 6),)
                 for _ in range(n)}, key=lambda g: [t.encode() for t in g])
    n = len(gs)
    m = MAXV[width]
    few = rng.random() < 0.5
    vals = sorted({1, m} | {rng.randint(1, m if not few else min(m, 9)) for _ in range(6 if few else 5000)} | {m - 1})
    shape = rng.choice(["random", "rising", "falling", "growing"])
    total = min(6000, rng.choice([n, 3 * n, 5 * n]))
    ops, cases, expected = [], [], []
    ins = [[] for _ in gs]
    cur = [0] * n
    drains = 0
    for j in range(total):
        g = rng.randrange(n)
        if shape == "random":
            v = rng.randrange(len(vals))
        elif shape == "rising":
            v = min(len(vals) - 1, j * len(vals) // total)
        elif shape == "falling":
            v = max(0, len(vals) - 1 - j * len(vals) // total)
        else:
            cur[g] = v = min(len(vals) - 1, cur[g] + rng.randint(0, 3))
        ops.append(["i", list(gs[g]), str(vals[v])])
        ins[g].append(v + 1)
        if rng.random() < 2 / total or j == total - 1:
            ops += [["m"], ["d"]]
            expected.append((len(ops) - 2, ins))
            ins = [[] for _ in gs]
            drains += 1
    a = driver.call([{"op": "topk", "width": width, "k": k, "ops": ops}])[0]
    num = {tuple(g): j + 1 for j, g in enumerate(gs)}
    rank = {str(v): j + 1 for j, v in enumerate(vals)}
    info = {"width": width, "k": k, "ngrams": n, "operations": total, "shape": shape}
    if not isinstance(a, list):
        return info, None, a
    for at, ins in expected:
        try:
            mins, out = a[at]["min"], a[at + 1]["drain"]
            lo = bisect.bisect_left(vals, int(mins))
            cases.append({"kind": "drain", "k": k, "inserts": ins, "out": [[rank.get(x, 0), num.get(tuple(g), 0)] for g, x in out],
                          "min": 1 if int(mins) <= 1 else lo + 1})
        except (KeyError, IndexError, TypeError, ValueError) as e:
            return info, None, repr(e)
    return info, cases, None


def check(c):
    for v, inv in [("latest", True), ("strict", True), ("minfull", True), ("noremove", True), ("keepmin", True)]:
        c.model("TopK", "TopK", inv, constants={"Variant": '"%s"' % v})
    consts = {"NumGrams": 3, "MaxCount": 3, "MaxDrains": 1} if not c.thorough else {"NumGrams": 4, "MaxCount": 4, "MaxDrains": 2}
    total = 0
    for k, hs in zip((0, 1, 2, 3), pmap(lambda k: histories(c, k, consts), (0, 1, 2, 3))):
        replay(c, hs, consts["NumGrams"], consts["MaxCount"])
        total += len(hs)
    c.cov["transitions_replayed"] = total
    # long random behaviours of larger instances
    big = {"NumGrams": 8, "MaxCount": 6, "MaxDrains": 3}
    sims = [(k, c.seed * 100 + i) for k in (1, 2, 3, 4, 6) for i in range(c.pick(1, 6))]
    for hs in pmap(lambda x: histories(c, x[0], big, ("-simulate", "num=%d" % c.pick(30, 150), "-depth", "50", "-seed", str(x[1]))), sims):
        replay(c, hs, 8, 6)
        total += len(hs)
    c.cov["behaviours_replayed"] = total
    n = 0
    for info, cases, bad in pmap(lambda i: large(c, i), range(c.pick(40, 600))):
        if cases is None:
            c.violation("the collection fails: %s" % (str(bad)[:300],), info)
        for case in cases or []:
            n += 1
            c.judge(case, "a drain of a large collection is not the ranking of the highest counts", info)
    c.flush()
    c.cov["large_drains"] = n
    c.cov["exhaustive"] = dict(consts, K="0..3")
