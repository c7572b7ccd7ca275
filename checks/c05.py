"""N-gram counters saturate instead of wrapping."""
from vlib import driver, tlc
from vlib.core import pmap
from vlib.counting import MAXV, hist_case, seq_case


def interesting(rng, m):
    """Amounts and initial values around every boundary."""
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, 1, 2, 3])
    if r < 0.5:
        return m - rng.choice([0, 0, 1, 1, 2, 3])
    if r < 0.75:
        b = rng.choice([7, 8, 15, 16, 31, 32, 63])
        return max(0, min(m, (1 << b) + rng.choice([-2, -1, 0, 1])))
    return rng.randint(0, m)


def seq_jobs(c, n):
    jobs = []
    for _ in range(n):
        w = c.rng.choice([8, 16, 32, 64])
        m = MAXV[w]
        init = interesting(c.rng, m)
        ng = c.rng.choice([1, 2, 3, 5])
        grams = [["g%d" % i] * c.rng.choice([1, 2, 3]) for i in range(ng)]
        ops = []
        for _ in range(c.rng.randint(1, 14)):
            op = c.rng.choice(["inc", "inc", "incd", "dec", "dec", "max"])
            ops.append([op, c.rng.choice(grams), str(interesting(c.rng, m))])
        ops += [["max", g, "0"] for g in grams]
        # one cell shared by everything is exact, too, if there is one n-gram and one hash function
        if ng == 1 and c.rng.random() < 0.3:
            size, hashes = 1, 1
        else:
            size, hashes = c.rng.choice([100003, 65536, 1 << 20]), c.rng.choice([1, 2, 3, 5, 8])
        jobs.append({"op": "counter", "width": w, "size": size, "hashes": hashes, "seed": c.rng.randrange(2 ** 64),
                     "init": str(init), "ops": ops})
    return jobs


def run_seq(c, jobs):
    chunks = [jobs[i::8] for i in range(8)]
    answers = pmap(driver.call, chunks)

    def again(case, what, rep):
        """A rejection that other seeds do not show is a collision of n-grams."""
        alt = [dict(rep, seed=s) for s in (11, 22, 33, 44, 55)]
        cases = []
        for j, a in zip(alt, driver.call(alt)):
            if not isinstance(a, list):
                return False
            cases.append(seq_case(j["width"], int(j["init"]), j["ops"], a))
        bad, _ = tlc.evaluate(cases)
        return len(bad) == 0
    for js, ans in zip(chunks, answers):
        for j, a in zip(js, ans):
            if not isinstance(a, list):
                c.violation("a counter operation fails instead of saturating: %s" % (a,), j)
                continue
            c.judge(seq_case(j["width"], int(j["init"]), j["ops"], a),
                    "a sequence of counter operations (u%d) returns something else than saturating arithmetic" % j["width"], j)
    c.flush(recheck=again)


def histories(c, jobs, exact=True, what="concurrent counter operations"):
    """jobs: explore commands. Every distinct history is judged."""
    answers = pmap(lambda j: driver.call([j], shim=True)[0], jobs)
    runs = n = 0
    for j, a in zip(jobs, answers):
        if "histories" not in a:
            c.violation("%s: the run fails: %s" % (what, a), j)
            continue
        runs += a["runs"]
        for h in a["histories"]:
            n += 1
            case = hist_case(j["width"], int(j["init"]), h, exact)
            if isinstance(case, str):
                c.violation("%s: %s" % (what, case), {"command": j, "history": h})
            else:
                c.judge(case, "%s: a history that no order of the operations explains" % what, {"command": j, "history": h})
    c.cov["interleavings_run"] = c.cov.get("interleavings_run", 0) + runs
    c.cov["distinct_histories"] = c.cov.get("distinct_histories", 0) + n

    def again(case, what, rep):
        alt = [dict(rep["command"], seed=s) for s in (11, 22, 33)]
        ok = 0
        for j, a in zip(alt, driver.call(alt, shim=True)):
            cases = [hist_case(j["width"], int(j["init"]), h, exact) for h in a.get("histories", [])]
            if not cases or any(isinstance(x, str) for x in cases):
                return False
            bad, _ = tlc.evaluate(cases)
            ok += not bad
        return ok > 0 and exact
    c.flush(recheck=again, timeout=600)


def models(c):
    for p, m, i, cells in [("P1", 3, 0, "Own"), ("P1", 3, 2, "Three"), ("P2", 2, 0, "Shared"), ("P3", 4, 0, "Shared"),
                           ("P6", 2, 0, "Own"), ("P4", 20, 3, "Shared"), ("P5", 20, 5, "Own"), ("P5", 20, 2, "One")]:
        c.model("MCCounter", "Counter", constants={"Prog": "<- " + p, "MaxVal": m, "InitVal": i, "CellsOf": "<- " + cells})
    c.model("MCCounter", "Counter", True, constants={"Variant": '"wrapfix"', "MaxVal": 3})
    c.model("MCCounter", "Counter", True, constants={"Variant": '"nosat"', "MaxVal": 3})
    c.model("MCCounter", "Counter", True, constants={"Variant": '"nosat"', "Prog": "<- P5", "InitVal": 5})
    c.model("MCCounter", "Counter", True, constants={"Variant": '"split"'})


def conc_jobs(c, n, runs, pre):
    a, b = ["a"], ["b", "c"]
    jobs = []

    def add(w, init, threads, hashes=2):
        jobs.append({"op": "explore", "width": w, "size": 65521, "hashes": hashes, "seed": c.rng.randrange(2 ** 32),
                     "init": str(init), "threads": threads, "max_runs": runs, "preemptions": pre, "random": runs // 4,
                     "rseed": c.rng.randrange(2 ** 32), "stress": 300,
                     "final": [["max", a, "0"], ["max", b, "0"], ["max", ["untouched"], "0"]]})
    add(8, 254, [[["inc", a, 1]], [["inc", a, 1]], [["inc", a, 1]]], 1)
    add(8, 250, [[["inc", a, 3]], [["inc", a, 4]]])
    add(8, 255, [[["inc", a, 1], ["inc", b, 255]], [["inc", a, 1]]])
    add(16, 65534, [[["inc", a, 1], ["incd", a, 2]], [["inc", a, 1]]])
    add(8, 1, [[["dec", a, 1]], [["dec", a, 1]], [["dec", a, 1]]], 1)
    add(8, 5, [[["dec", a, 3]], [["dec", a, 4]]])
    add(16, 2, [[["dec", a, 1], ["dec", a, 1]], [["dec", a, 65535]]])
    add(8, 0, [[["dec", a, 1], ["dec", b, 1]], [["dec", a, 200]]])
    add(8, 254, [[["inc", a, 3]], [["dec", a, 2]]], 1)
    add(8, 1, [[["inc", a, 254]], [["dec", a, 2], ["inc", b, 1]]])
    for _ in range(n):
        w = c.rng.choice([8, 8, 16])
        m = MAXV[w]
        mode = c.rng.choice(["inc", "dec", "mix"])
        init = {"inc": m - c.rng.randint(0, 4), "dec": c.rng.randint(0, 4), "mix": c.rng.choice([0, 1, m - 1, m, m // 2])}[mode]
        threads = []
        for _ in range(c.rng.choice([2, 2, 3])):
            threads.append([[c.rng.choice(["inc", "incd"]) if (mode == "inc" or mode == "mix" and c.rng.random() < 0.5)
                             else "dec", c.rng.choice([a, a, b]), c.rng.choice([1, 1, 2, 3, m])]
                            for _ in range(c.rng.choice([1, 1, 2]))])
        add(w, init, threads, c.rng.choice([1, 2, 3]))
    return jobs


def check(c):
    models(c)
    run_seq(c, seq_jobs(c, c.pick(3000, 60000)))
    histories(c, conc_jobs(c, c.pick(20, 300), c.pick(300, 4000), c.pick(2, 3)))
