"""What C01 (topk) and C02 (botk) share."""
from vlib import corpora, wimbd, tlc
from vlib.core import pmap
from vlib.scen import Scen, recheck_other_seeds
from vlib.wimbd import Data, Doc
from . import common


def breadth(c, cmd, n):
    """Many data sets and options on the binary as it is."""
    scens = []
    for i, data in enumerate(corpora.standard(c.rng, c.scratch, n)):
        for _ in range(2):
            o = {}
            if c.rng.random() < 0.15 and len(data.paths) > 1:
                o["listing"] = [c.rng.randrange(len(data.paths)) for _ in range(len(data.paths) + 1)]
                o["dir"] = False
            scens.append(Scen(cmd, data, c.rng, **o))
    # k and threshold around every interesting count
    data = Data(corpora.staircase(c.rng), c.rng, c.scratch)
    for k in (1, 2, 7, 8, 9, 16, 17):
        scens.append(Scen(cmd, data, c.rng, k=k, thr=0 if cmd == "topk" else None, n=1, limit=None, flimit=None))
    for t in range(0, 12):
        scens.append(Scen(cmd, data, c.rng, k=c.rng.choice([3, 50]), thr=t, n=c.rng.choice([1, 2]), limit=None, flimit=None))
    outs = pmap(lambda s: s.run(), scens)
    for s, o in zip(scens, outs):
        s.judge(c, o)
    c.cov["breadth_runs"] = len(scens)
    c.flush(recheck=recheck_other_seeds(c))
    common.scale(c, cmd)
    common.extremes(c, cmd, c.pick(18, 90))
    common.shown(c, cmd, c.pick(30, 300))


def spec_files(spec):
    """One line per n-gram, as in Pipeline.tla (numbers are unigrams)."""
    return [[Doc(["w%d" % g]) for g in f] for f in spec]


SPECS = {
    "F1": [[1, 2, 1], [2, 3], [1, 2]], "F2": [[1, 2], [2, 1]], "F4": [[1, 2, 3], [3, 2]],
    "F5": [[1, 2, 3, 3], [3, 2, 4], [4, 4, 1], [2]], "F6": [[1], [2, 2], [3]],
}


def spec_schedules(c, name, num, rare, k, thr, w=2, cap=1):
    """Behaviours of the specification, as sequences of 'who does what next'."""
    r = tlc.run("MCPipeline", "Pipeline",
                constants={"Files": "<- " + name, "K": k, "Thr": thr, "W": w, "Cap": cap,
                           "Emit": "TRUE", "Rare": "TRUE" if rare else "FALSE"},
                args=("-simulate", "num=%d" % num, "-depth", "400", "-deadlock", "-seed", str(c.seed * 7 + len(name))),
                timeout=120, workers=1)
    hs = r.prints("H")
    if not hs:
        raise tlc.TlcError("no behaviours were generated:\n" + tlc.brief(r.out))
    c.transitions += sum(len(h) for h in hs)
    c.states += len(hs)
    return hs


def guided(c, cmd, n, seeds_per=2):
    """Behaviours generated from Pipeline.tla, replayed into the real code by steering its scheduler."""
    if wimbd.sched_bin() is None:
        c.notes.append("this tree cannot be built for the controlled scheduler; schedules are not controlled")
        return
    jobs = []
    for name, k, thr in [("F1", 2, 1), ("F4", 2, 0), ("F6", 1, 0), ("F5", 3, 1), ("F2", 1, 1)]:
        if cmd == "botk":
            thr = {0: 9, 1: 3}[thr]
        data = Data(spec_files(SPECS[name]), c.rng, c.scratch, plain=True)
        hs = spec_schedules(c, name, n, cmd == "botk", k, thr, w=min(3, len(SPECS[name])))
        s = Scen(cmd, data, None, n=1, k=k, thr=thr, size=1 << 20, hashes=3, quiet=True, workers=min(3, len(SPECS[name])))
        for h in hs:
            pol = "guide:%d:%s" % (c.rng.randrange(10 ** 6), ".".join(h))
            jobs.append((s, pol, c.rng.choice([None, 1024, 1])))
    outs = pmap(lambda j: j[0].run(j[1], j[2]), jobs)
    for (s, pol, chan), o in zip(jobs, outs):
        s.judge(c, o, pol, chan)
    c.cov["guided_runs"] = len(jobs)
    c.flush()


def schedules(c, cmd, sets, per):
    """Many schedules of small data sets."""
    jobs = []
    for _ in range(sets):
        data = corpora.small(c.rng, c.scratch)
        s = Scen(cmd, data, c.rng, hashes=c.rng.choice([3, 5]), workers=c.rng.choice([2, 2, 3, 4, 8]),
                 k=c.rng.choice([1, 2, 3, 5]), thr=c.rng.choice([None, 0, 1, 2] if cmd == "topk" else [None, 2, 3, 100]),
                 quiet=c.rng.random() < 0.8, n=c.rng.choice([1, 2]), dir=False)
        for p in wimbd.policies(c.rng, per):
            jobs.append((s, p, c.rng.choice([None, None, 1, 2])))
    outs = pmap(lambda j: j[0].run(j[1], j[2]), jobs)
    for (s, p, chan), o in zip(jobs, outs):
        s.judge(c, o, p, chan)
    c.cov["schedule_runs"] = len(jobs)
    c.flush()
    common.crowded(c, [cmd])
    common.preempt_everywhere(c, [(common.some(c, cmd, limit=None, flimit=None, dir=False, workers=2, quiet=True, k=c.rng.choice([1, 2])), chan)
                                  for chan in (None, 1)], c.pick(600, 8000))
