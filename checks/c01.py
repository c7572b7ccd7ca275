"""topk reports exactly the k most frequent n-grams with exact counts."""
from vlib import corpora
from . import ranking

RARE = "FALSE"


def models(c, rare=False):
    c.model("MCCorpus")
    r = "TRUE" if rare else "FALSE"
    lo = "9" if rare else "0"
    m = lambda expect=None, **k: c.model("MCPipeline", "Pipeline", expect, constants=dict(Rare=r, **k))
    m(Files="<- F1", Thr="4" if rare else "1")
    m(Files="<- F4", K="2", Thr=lo)
    m("ExactResult", Files="<- F4", K="3", Thr=lo, Variant='"trysend"')
    m("ExactResult", Files="<- F4", K="3", Thr=lo, Cap="2", Variant='"stopearly"')
    if c.thorough:
        m(Files="<- F5", K="2", W="2", Cap="2", Thr=lo)
        m(Files="<- F6", K="2", W="3", Cap="1", Thr=lo)
        m(Files="<- F5", K="3", W="3", Cap="1", Thr=lo)
        if not rare:
            m("ExactResult", Files="<- F4", K="3", Thr=lo, Variant='"strictmin"')
            m("ExactResult", Files="<- F4", K="3", Thr=lo, Variant='"strictlocal"')


def check(c):
    models(c)
    ranking.breadth(c, "topk", c.pick(110, 1500))
    ranking.guided(c, "topk", c.pick(12, 150))
    ranking.schedules(c, "topk", c.pick(12, 150), c.pick(10, 40))
    c.assumptions.append("n-grams do not collide in the table: results for few hash functions are rechecked with other seeds")
