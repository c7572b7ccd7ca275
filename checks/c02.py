"""botk reports exactly the k least frequent n-grams with exact counts."""
from vlib import corpora
from vlib.scen import Scen
from . import c01, common, ranking


def check(c):
    c01.models(c, rare=True)
    ranking.breadth(c, "botk", c.pick(110, 1500))
    ranking.guided(c, "botk", c.pick(12, 150))
    ranking.schedules(c, "botk", c.pick(12, 150), c.pick(10, 40))
    # occurrences passed over at random: what is listed is still right
    scens = []
    for data in corpora.standard(c.rng, c.scratch, c.pick(24, 300)):
        scens.append(Scen("botk", data, c.rng, pkeep=c.rng.choice(["0.5", "0.9", "0.1", "0.001", "1", "1.0"]), hashes=5))
    common.run_all(c, scens, recheck=common.recheck_other_seeds(c))
    c.cov["sampled_runs"] = len(scens)
    c.assumptions.append("n-grams do not collide in the table: results for few hash functions are rechecked with other seeds")
