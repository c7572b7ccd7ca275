"""search counts and locates every match."""
from vlib import wimbd
from vlib.core import pmap
from vlib.scen import Scen
from vlib.searching import patterns_for, text_files
from vlib.wimbd import Data, Doc
from . import common


def models(c):
    for k in ("0", "1", "3", "9"):
        c.model("MCSearchLoc", "SearchLoc", constants={"Limit": k})
    c.model("MCSearchLoc", "SearchLoc", constants={"Listing": "<- L2", "Limit": "4"})
    c.model("MCSearchLoc", "SearchLoc", "LocationsExact", constants={"Variant": '"loadfirst"'})
    c.model("MCSearchLoc", "SearchLoc", "LocationsExact", constants={"Variant": '"stopearly"'})
    c.model("MCSearchLoc", "SearchLoc", "LocationsExact", constants={"Variant": '"insert"', "Listing": "<- L2", "Limit": "9"})
    if c.thorough:
        c.model("MCSearchLoc", "SearchLoc", constants={"W": "3"})
        c.model("MCSearchLoc", "SearchLoc", constants={"W": "3", "Cap": "2", "Limit": "2"})


def scen(c, data, **o):
    o.setdefault("patterns", patterns_for(c.rng))
    o.setdefault("locations", c.rng.random() < 0.75)
    if o["locations"]:
        o.setdefault("loclimit", c.rng.choice([None, None, 0, 1, 2, 3, 5, 10, 1000]))
    if "listing" not in o and c.rng.random() < 0.2:
        o["listing"] = [c.rng.randrange(len(data.paths)) for _ in range(len(data.paths) + 1)]
    if "listing" in o:
        o["dir"] = False
    return Scen("search", data, c.rng, **o)


def large(c):
    """Thousands of lines, long lines, many files, many matches of one line, many patterns."""
    a, b = {"op": "c", "c": 97}, {"op": "c", "c": 98}
    few = [("a", a), ("b", b)]
    line = lambda: Doc([], text=c.rng.choice(["", "a", "b", "ab", "\u00e9a"]))
    shapes = [([[line() for _ in range(1700)], [line() for _ in range(40)]], few),
              ([[line()] for _ in range(330)], few),
              ([[Doc([], text=c.rng.choice(["a", "\u00e9"]) * 400), line()], [Doc([], text="b" * 70000 + "a" + "b" * 30)]], [few[0]]),
              ([[line(), Doc([], text=c.rng.choice("ab") * 3000)]], few),
              ([[line(), Doc([], text="", mult=66000), Doc([], text="b"), Doc([], text="ab"), Doc([], text="", mult=70000), line(), Doc([], text="ba")],
                [line(), line()]], few),
              (text_files(c.rng, 3), [(x * n, {"op": "cat", "xs": [{"op": "c", "c": ord(x)}] * n}) for x in "abc" for n in range(1, 30)])]
    scens = []
    for files, pats in shapes:
        data = Data(files, c.rng, c.scratch)
        for lim in (None, c.rng.choice([900, 1100, 1500])):
            scens.append(scen(c, data, patterns=pats, locations=True, loclimit=lim, limit=None, flimit=None,
                              listing=list(range(len(data.paths))), workers=c.rng.choice([1, 8, None])))
        if all(d.mult == 1 for f in files for d in f):
            scens.append(scen(c, data, patterns=pats, locations=True, loclimit=None, limit=None, flimit=None, human=True,
                              listing=list(range(len(data.paths))), workers=c.rng.choice([1, 8])))
    for s, o in zip(scens, pmap(lambda s: s.run(), scens)):
        s.judge(c, o)
    c.cov["large_inputs"] = len(scens)
    c.flush()


def check(c):
    models(c)
    scens = []
    for _ in range(c.pick(300, 4000)):
        data = Data(text_files(c.rng), c.rng, c.scratch)
        for _ in range(2):
            scens.append(scen(c, data))
    data = Data(text_files(c.rng, 70), c.rng, c.scratch)
    scens += [scen(c, data, workers=w, locations=True) for w in (1, 33, 64)]
    for s, o in zip(scens, pmap(lambda s: s.run(), scens)):
        s.judge(c, o)
    c.flush()
    large(c)
    common.extremes(c, "search", c.pick(12, 60))
    common.shown(c, "search", c.pick(40, 400))
    # schedules
    if wimbd.sched_bin() is None:
        c.notes.append("this tree cannot be built for the controlled scheduler")
        return
    jobs = []
    for i in range(c.pick(30, 250)):
        data = Data(text_files(c.rng, c.rng.choice([2, 3, 4])), c.rng, c.scratch)
        s = scen(c, data, workers=c.rng.choice([2, 3, 4]), locations=True, dir=False, limit=None, flimit=None,
                 loclimit=c.rng.choice([None, 1, 2, 3, 4, 6]), quiet=c.rng.random() < 0.8, patterns=patterns_for(c.rng, 2))
        for p in wimbd.policies(c.rng, c.pick(12, 40), ops=300):
            jobs.append((s, p, c.rng.choice([None, 1, 2])))
    for (s, p, chan), o in zip(jobs, pmap(lambda j: j[0].run(j[1], j[2]), jobs)):
        s.judge(c, o, p, chan)
    c.cov["schedule_runs"] = len(jobs)
    c.flush()
