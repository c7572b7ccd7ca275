"""stats totals are exact."""
from vlib import corpora, wimbd
from vlib.scen import Scen
from . import common

KINDS = ["stats"]


def models(c, lists):
    for g in "1234":
        c.model("MCStatsMerge", "StatsMerge", constants={"Files": "<- G" + g})
    c.model("MCStatsMerge", "StatsMerge", constants={"Faults": "<- Twice"})
    if lists:
        c.model("MCStatsMerge", "StatsMerge", "ListExact", constants={"Files": "<- G4", "Variant": '"popback"'})
        c.model("MCStatsMerge", "StatsMerge", "ListExact", constants={"Variant": '"lazy"'})
    else:
        c.model("MCStatsMerge", "StatsMerge", "TotalsExact", constants={"Faults": "<- Twice", "Variant": '"keep"'})
    if c.thorough:
        for g in "1234":
            c.model("MCStatsMerge", "StatsMerge", constants={"Files": "<- G" + g, "W": "3"})
        c.model("MCStatsMerge", "StatsMerge", constants={"Files": "<- G4", "W": "4"}, workers=4)


def explore(c, kinds, distinct):
    scens = []
    for data in corpora.standard(c.rng, c.scratch, c.pick(140, 2500)):
        o = {}
        if not distinct and c.rng.random() < 0.2:
            o = {"listing": [c.rng.randrange(len(data.paths)) for _ in range(len(data.paths) + 1)], "dir": False}
        scens.append(Scen("stats", data, c.rng, **o))
    # the same documents split and ordered differently
    for _ in range(c.pick(6, 60)):
        docs = [d for f in wimbd.rand_files(c.rng, nfiles=3, ndocs=(2, 5), mult_p=0) for d in f]
        for parts in (1, 2, 3, len(docs)):
            order = list(docs)
            c.rng.shuffle(order)
            files = [[] for _ in range(max(1, parts))]
            for d in order:
                c.rng.choice(files).append(wimbd.Doc(d.tokens, text=d.text, line=d.line))
            data = wimbd.Data(files, c.rng, c.scratch, plain=True)
            scens.append(Scen("stats", data, c.rng, limit=None, flimit=None))
    common.run_all(c, scens, kinds=kinds)
    common.scale(c, "stats", kinds)
    # long files
    scens = []
    for _ in range(c.pick(2, 8)):
        def some(n, m=1):
            return wimbd.Doc([c.rng.choice(["x", "y"])] * n, mult=m)
        files = [[some(2), some(1, 66000), some(3, 2), some(0)], [some(3), some(1, 140000), wimbd.Doc(None, mult=70000), some(3), some(2, 9), some(0, 3)]]
        data = wimbd.Data(files, c.rng, c.scratch)
        scens += [Scen("stats", data, c.rng, limit=None, flimit=None, workers=w) for w in (1, None)]
    common.run_all(c, scens, kinds=kinds)
    common.extremes(c, "stats", c.pick(9, 60), kinds)
    common.shown(c, "stats", c.pick(30, 300), kinds)
    jobs = []
    for i in range(c.pick(25, 250)):
        data = corpora.small(c.rng, c.scratch, nfiles=c.rng.choice([2, 3, 4]), toks=(0, 3), ndocs=(1, 4))
        s = Scen("stats", data, c.rng, limit=None, flimit=None, dir=False, workers=c.rng.choice([2, 3, 4]),
                 quiet=c.rng.random() < 0.8)
        for p in wimbd.policies(c.rng, c.pick(12, 40), ops=c.rng.choice([60, 150])):
            jobs.append((s, p, None))
    common.run_scheduled(c, jobs, kinds=kinds)


def check(c):
    models(c, False)
    explore(c, KINDS, False)
