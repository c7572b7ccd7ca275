"""With a pretrained tokenizer everything is about all of its tokens and no others."""
import os

from vlib import pretrained, wimbd
from vlib.core import pmap
from vlib.pretrained import Tok
from vlib.scen import Scen
from vlib.wimbd import Data, Doc
from . import common

KINDS = ["level", "piece", "pair", "bytes"]
CMDS = ["topk", "botk", "unique", "count", "stats"]


def settings(rng):
    """What tokenizers come with for feeding models; none of it is for counting."""
    return dict(cut=rng.choice([None, None, (rng.choice([1, 2, 5, 512]), rng.choice(["Right", "Left"]))]),
                fill=rng.choice([None, None, 0, 4, 600]), around=rng.random() < 0.5)


def tokenizers(c, n):
    out = []
    for i in range(n):
        kind = KINDS[i % 4]
        t = Tok(c.rng, kind, c.rng.choice(["", "org/", "some-org/"]) + "%s-%d" % (kind, i),
                unk=not (kind == "level" and c.rng.random() < 0.3), **(settings(c.rng) if i >= 4 else {}))
        t.home = os.path.join(c.scratch, "hf")
        t.write(t.home)
        out.append(t)
    return out


def library(c, toks):
    """What the library makes of texts, against the specification."""
    def go(t):
        texts = ["", " "] + [t.text(c.rng) for _ in range(c.pick(14, 80))] + [t.text(c.rng, 60)]
        n = c.rng.choice([1, 2, 3])
        return t, n, texts, pretrained.tokenize(t.home, t, texts, n)
    for t, n, texts, got in [go(t) for t in toks]:
        if not isinstance(got, list):
            c.violation("the tokenizer %s cannot be loaded or used" % t.name, {"tokenizer": t.config(), "got": got})
            continue
        xs = []
        for text, g in zip(texts, got):
            err = int("error" in g)
            if err and g.get("grams"):
                err = 2
            xs.append({"words": t.words(text), "err": err, "tokens": [t.token(x) for x in g.get("tokens", [])],
                       "grams": [[t.token(x) for x in gr] for gr in g.get("grams") or []] if not err else []})
        c.judge({"kind": "pretrained", "tok": t.case(), "n": n, "texts": xs},
                "a pretrained tokenizer (%s) makes other tokens of a text than all of its own" % t.kind,
                {"tokenizer": t.config(), "texts": texts, "got": got})
        items = [t.string(g["tokens"], g["decoded"].get("Ok") if isinstance(g["decoded"], dict) else g["decoded"])
                 for g in got if "tokens" in g]
        c.judge({"kind": "strings", "tok": t.case(), "items": [i for i in items if i]},
                "decoding tokens of a pretrained tokenizer (%s) gives another string" % t.kind,
                {"tokenizer": t.config(), "got": got})
    c.flush()
    c.cov["tokenizers"] = len(toks)


def data_for(c, t, long=False, small=False, huge=False):
    rng = c.rng
    nd = rng.choice([1, 3, 6]) if not small else 3
    texts = [t.text(rng, 6 if small else rng.choice([6, 14, 30])) for _ in range(nd)]
    texts = [x for x in texts if pretrained.known(t, x)]
    if long:
        texts.append(t.text(rng, 1500) if t.kind != "bytes" else t.text(rng, 500))
    if huge:
        texts.append(" ".join(t.text(rng, 400) for _ in range(200)))
    if long or huge:
        texts = [x for x in texts if pretrained.known(t, x)]
    got = pretrained.tokenize(t.home, t, texts)
    if not isinstance(got, list):
        return None
    docs = [Doc(g["tokens"], text=x) for x, g in zip(texts, got) if "tokens" in g]
    if rng.random() < 0.3:
        docs.insert(rng.randint(0, len(docs)), Doc(None))
    cut = rng.randint(0, len(docs))
    return Data([docs[:cut], docs[cut:]], rng, c.scratch)


def searches(c, t, data):
    """Search strings and their tokens."""
    texts = [d.text for f in data.files for d in f if d.text]
    cand = []
    for _ in range(12):
        x = c.rng.choice(texts) if texts else "a"
        if t.kind == "bytes":
            i = c.rng.randrange(len(x))
            cand.append(x[i:i + c.rng.choice([1, 2, 4, 9])])
        else:
            ws = x.split() or ["a"]
            i = c.rng.randrange(len(ws))
            cand.append(" ".join(ws[i:i + c.rng.choice([1, 1, 2, 3])]))
    cand = [x for x in dict.fromkeys(cand) if x and not x.startswith("-") and "\x00" not in x and pretrained.known(t, x)]
    got = pretrained.tokenize(t.home, t, cand)
    out, seen = [], set()
    for x, g in zip(cand, got if isinstance(got, list) else []):
        ts = tuple(g.get("tokens", ()))
        if ts and ts not in seen:
            seen.add(ts)
            out.append((x, list(ts)))
    return out[:c.rng.choice([1, 2, 4, 8])]


def scenario(c, t, cmd, **kw):
    data = data_for(c, t, **kw)
    if data is None:
        return None
    o = dict(tokenizer=t.name, env=pretrained.env(t.home))
    if cmd == "count":
        o["searches"] = searches(c, t, data)
        if not o["searches"]:
            return None
    if cmd in ("topk", "botk", "unique"):
        o.update(n=c.rng.choice([1, 1, 2, 3, 5]), hashes=5)
        if sum(len(d.tokens or []) for f in data.files for d in f) > 1000:
            o["size"] = 64 << 20      # n-grams must not collide
    if cmd in ("topk", "botk"):
        o.update(k=c.rng.choice([1, 3, 1000, 1000]), thr=c.rng.choice([0, None]) if cmd == "topk" else None)
    s = Scen(cmd, data, c.rng, **o)
    s.tok = t
    return s


def strings(c, scens, outs):
    """The string of everything that is reported."""
    for s, o in zip(scens, outs):
        items = []
        for r in o.records() or []:
            if isinstance(r.get("tokens"), list):
                items.append(s.tok.string(r["tokens"], r.get("string")))
        items = [i for i in items if i]
        if items:
            c.judge({"kind": "strings", "tok": s.tok.case(), "items": items[:60]},
                    "%s -t: the string of an n-gram is not its tokens put together" % s.cmd, dict(s.describe(), result=o.show()))


def commands(c, toks):
    scens = []
    for i, t in enumerate(toks):
        for cmd in CMDS:
            scens.append(scenario(c, t, cmd, long=(i % 3 == 0)))
    for t in toks[:c.pick(2, 4)]:
        scens.append(scenario(c, t, c.rng.choice(CMDS), huge=True))
    scens = [s for s in scens if s]
    outs = pmap(lambda s: s.run(), scens)
    for s, o in zip(scens, outs):
        s.judge(c, o)
    strings(c, scens, outs)
    c.flush()
    c.cov["free_runs"] = len(scens)
    jobs = []
    for cmd in CMDS:
        for t in c.rng.sample(toks, c.pick(2, 8)):
            s = scenario(c, t, cmd, small=True)
            if s:
                jobs += [(s, p, c.rng.choice([None, 1])) for p in wimbd.policies(c.rng, c.pick(5, 20))]
    common.run_scheduled(c, jobs)


def failing(c):
    """Texts a tokenizer has no token for, and tokenizers that cannot be loaded: no result."""
    jobs = []
    for i in range(c.pick(70, 400)):
        t = Tok(c.rng, "level", "strict-%d" % i, unk=False, **settings(c.rng))
        t.home = os.path.join(c.scratch, "hf")
        loads = i >= 6
        if i < 2:
            t.name = "absent/%d" % i
        else:
            t.write(t.home, [None, '{"version": "1.0"', "{}", ""][i - 2] if i in (3, 4, 5) else None)
            loads = i not in (3, 4, 5)
        texts = [t.text(c.rng, 5, (0, 0.05, 0.3)[i % 3]) for _ in range(c.rng.choice([1, 3, 5]))]
        docs = [Doc([], text=x) for x in texts]
        if c.rng.random() < 0.3:
            docs.insert(c.rng.randint(0, len(docs)), Doc(None))
        cut = c.rng.randint(0, len(docs))
        data = Data([docs[:cut], docs[cut:]], c.rng, c.scratch)
        cmd = CMDS[i % 5]
        o = dict(tokenizer=t.name, env=pretrained.env(t.home), hashes=3, n=1, k=5, thr=None)
        if cmd == "count":
            o["searches"] = [(sorted(t.vocab)[0], [])]
        jobs.append((Scen(cmd, data, c.rng, **o), t, loads))
    for (s, t, loads), o in zip(jobs, pmap(lambda j: j[0].run(), jobs)):
        case = s.base("pretrained-run")
        for f, docs in zip(case["files"], s.data.files):
            for x, d in zip(f, docs):
                x["can"] = int(d.text is None or pretrained.known(t, d.text))
        recs = o.records()
        case.update(loads=int(loads), status=-1 if o.rc is None else o.rc, records=-1 if recs is None else len(recs))
        c.judge(case, "%s -t: a tokenizer that cannot be loaded or has no token for a word does not make the run fail (or one "
                "that can does)" % s.cmd, dict(s.describe(), result=o.show(), loads=loads))
    c.flush()
    c.cov["failing_runs"] = len(jobs)


def check(c):
    c.model("Pretrained")
    for v in ("cut", "fill", "special"):
        c.model("Pretrained", None, "Exact", constants={"Variant": '"%s"' % v})
    if c.thorough:
        c.model("Pretrained", constants={"MaxLen": "4"}, workers=4)
    toks = tokenizers(c, c.pick(20, 200))
    library(c, toks)
    commands(c, toks)
    failing(c)
