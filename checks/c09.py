"""count reports the exact number of occurrences of each search phrase."""
from vlib import corpora, wimbd
from vlib.scen import Scen, searches_for
from . import common


def check(c):
    c.model("MCSearchLoc", "SearchLoc", constants={"Limit": "9"})
    scens = []
    for data in corpora.standard(c.rng, c.scratch, c.pick(160, 2500)):
        for _ in range(2):
            o = {"searches": searches_for(c.rng, data)}
            if c.rng.random() < 0.15:
                o.update(listing=[c.rng.randrange(len(data.paths)) for _ in range(len(data.paths) + 1)], dir=False)
            scens.append(Scen("count", data, c.rng, **o))
    # overlapping occurrences, prefixes and suffixes of each other, one longer than every document
    for _ in range(c.pick(10, 100)):
        a, b = c.rng.sample(wimbd.TOKENS[:12], 2)
        n = c.rng.randint(1, 7)
        data = wimbd.Data([[wimbd.Doc([a] * n), wimbd.Doc([a, b] * n)], [wimbd.Doc([b] + [a] * n), wimbd.Doc([])]],
                          c.rng, c.scratch)
        pats = [[a], [a, a], [a, a, a], [a, b], [a, b, a], [b, a, a], [a] * n, [a] * (n + 1), [a] * 20]
        c.rng.shuffle(pats)
        seen = []
        for p in pats[:c.rng.randint(1, len(pats))]:
            if p not in seen:
                seen.append(p)
        scens.append(Scen("count", data, c.rng, searches=[(" ".join(p), p) for p in seen], limit=None))
        scens.append(Scen("count", data, c.rng, searches=[(c.rng.choice(["  ", "\t", "\n"]).join(seen[0]), seen[0])], limit=None))
        # one phrase alone gives the same as among others
        for p in seen[:2]:
            scens.append(Scen("count", data, c.rng, searches=[(" ".join(p), p)], limit=None))
    common.run_all(c, scens)
    common.scale(c, "count")
    common.extremes(c, "count", c.pick(9, 60))
    common.shown(c, "count", c.pick(30, 300))
    jobs = []
    for i in range(c.pick(15, 150)):
        s = common.some(c, "count", limit=None, flimit=None, dir=False, workers=c.rng.choice([2, 3, 4]))
        for p in wimbd.policies(c.rng, c.pick(10, 40), ops=150):
            jobs.append((s, p, None))
    common.run_scheduled(c, jobs)
    c.assumptions.append("search strings contain at least one token")
