"""unique estimates the number of distinct n-grams."""
from vlib import corpora, wimbd
from vlib.scen import Scen
from . import common


def check(c):
    c.model("Bloom")
    c.model("Bloom", expect="EstimateIsSet", constants={"Variant": '"wrap"'})
    c.model("Bloom", expect="EstimateIsSet", constants={"Variant": '"percell"'})
    scens = []
    for data in corpora.standard(c.rng, c.scratch, c.pick(120, 1500)):
        o = {}
        if c.rng.random() < 0.2:
            o = {"listing": [c.rng.randrange(len(data.paths)) for _ in range(len(data.paths) + 1)], "dir": False}
        scens.append(Scen("unique", data, c.rng, **o))
    # more distinct n-grams, many hash functions, every seed
    for h in (1, 2, 3, 7, 16, 64, 255):
        n = c.rng.choice([300, 500])
        docs = [wimbd.Doc(["w%d" % i for i in range(j, n, 10)]) for j in range(10)]
        data = wimbd.Data([docs[:4], docs[4:], docs[2:5]], c.rng, c.scratch)
        for seed in (None, 0, 7, 2 ** 64 - 1):
            scens.append(Scen("unique", data, c.rng, hashes=h, seed=seed, n=1, size=4 << 20, limit=None, flimit=None))
    # tables of every size, also small and odd ones, with few n-grams for their size
    for i in range(c.pick(40, 400)):
        h = c.rng.choice([1, 1, 1, 2, 3, 5])
        size = c.rng.choice([1023, 2047, 5000, 9999, c.rng.randint(600, 9000), c.rng.randint(9000, 120000)])
        m = min(max(1, size // (100 * h)), 400)
        docs = [wimbd.Doc(["w%d" % k]) for k in range(m)]
        cut = c.rng.randint(0, m)
        data = wimbd.Data([docs[:cut], docs[cut:], docs[:3]], c.rng, c.scratch)
        scens.append(Scen("unique", data, c.rng, hashes=h, n=1, size=size, limit=None, flimit=None))
    # repeated exactly around the range of a cell
    for m in (254, 255, 256, 257, 511, 512, 65536):
        data = wimbd.Data([[wimbd.Doc(["a", "b"], mult=m)], [wimbd.Doc(["a", "c"], mult=c.rng.choice([1, 256]))]], c.rng, c.scratch)
        scens.append(Scen("unique", data, c.rng, limit=None, flimit=None, n=1))
    common.run_all(c, scens, recheck=common.recheck_other_seeds(c))
    common.scale(c, "unique")
    common.extremes(c, "unique", c.pick(12, 60))
    common.shown(c, "unique", c.pick(20, 300))
    jobs = []
    for i in range(c.pick(8, 80)):
        s = common.some(c, "unique", limit=None, flimit=None, dir=False, workers=c.rng.choice([2, 3, 4]))
        for p in wimbd.policies(c.rng, c.pick(8, 40), ops=300):
            jobs.append((s, p, None))
    common.run_scheduled(c, jobs)
    c.assumptions.append("the table is sparsely filled (load below 1 %); rejections are rechecked with other seeds")
