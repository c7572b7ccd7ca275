"""N-grams are exactly the windows of a document's tokens."""
import itertools

from vlib import driver, wimbd
from vlib.core import pmap
from vlib.scen import Scen
from vlib.wimbd import Data, Doc, rand_files
from . import common

# characters by Word_Break class; the first of each class is used for the exhaustive part
CLASSES = {
    "CR": "\r", "LF": "\n", "Newline": "\u0085\x0b\x0c\u2028\u2029",
    "Extend": "\u0301\u0308\ufe0f\U0001f3fb\u0903\u20e3\u094d", "ZWJ": "\u200d", "Format": "\u00ad\u200e\u2060\ufeff",
    "WSegSpace": " \u2003\u3000\u1680", "ALetter": "a\u00e9Z\u0434\u03b1\u0915\u0e9f"[:6] + "\U00010400\u1e00\uac00\u00aa\u2160",
    "Hebrew": "\u05d0\u05ea", "Katakana": "\u30ab\u30fc\u309b\uff66", "Numeric": "0\u0663\u096b\U0001d7d8",
    "ExtNumLet": "_\u203f\uff3f\u202f", "MidLetter": ":\u00b7\u0387\u2027", "MidNum": ",;\u037e\u066c\u2044",
    "MidNumLet": ".\u2019\u2018\u2024", "SQuote": "'", "DQuote": "\"", "RI": "\U0001f1e6\U0001f1ff",
    "Pict": "\u2764\U0001f600\u00a9\u2122\U0001f468", "Other": "!\u200b\ufffd\u4e2d\u3042-/$\t\u00a0\x00\u20ac\u0e01@\\{\U0002000b",
}
# Not included: letters that are pictographic as well (U+24C2 and a few others). After a zero width joiner the
# dependency that finds the segments treats them as pictographs only, so that a following letter is cut off.
WHITE = set("\t\n\x0b\x0c\r \u0085\u00a0\u1680\u2003\u2028\u2029\u202f\u205f\u3000")


def alphabet():
    out = []
    for k, chars in CLASSES.items():
        for ch in chars:
            out.append({"c": ord(ch), "k": "Other" if k == "Pict" else k, "p": 1 if k == "Pict" else 0,
                        "w": 1 if ch in WHITE else 0})
    return out


def texts(c, chars):
    """Indices (1-based) into the alphabet."""
    first = {}
    for i, x in enumerate(chars):
        first.setdefault((x["k"], x["p"], x["w"]), i + 1)
    reps = list(first.values())
    out = [()]
    for n in c.pick((1, 2, 3), (1, 2, 3)):
        out += list(itertools.product(reps, repeat=n))
    if c.thorough:
        core = [i for i in reps if chars[i - 1]["k"] in ("Extend", "ZWJ", "ALetter", "Hebrew", "Numeric", "MidLetter", "MidNum",
                                                         "MidNumLet", "SQuote", "DQuote", "ExtNumLet", "RI", "Katakana")]
        out += list(itertools.product(core, repeat=4))
    n = len(chars)
    for _ in range(c.pick(4000, 60000)):
        l = c.rng.choice([1, 2, 4, 6, 10, 20])
        pool = c.rng.sample(range(1, n + 1), c.rng.choice([2, 4, 8, 20]))
        out.append(tuple(c.rng.choice(pool) for _ in range(l)))
    return out


def tokens(c):
    chars = alphabet()
    ts = texts(c, chars)
    strs = ["".join(chr(chars[i - 1]["c"]) for i in t) for t in ts]
    parts = [range(i, len(ts), 8) for i in range(8)]
    got = {}
    for part, a in zip(parts, pmap(lambda p: driver.call([{"op": "tokenize", "text": strs[i]} for i in p]), parts)):
        got.update(zip(part, a))
    size = 60
    for i in range(0, len(ts), size):
        idx = range(i, min(i + size, len(ts)))
        case = {"kind": "tokens", "chars": chars, "texts": [list(ts[j]) for j in idx],
                "out": [[[ord(x) for x in t] for t in got[j]] if isinstance(got[j], list) else [[-1]] for j in idx]}
        c.judge(case, "tokenize() returns other tokens than the word segments", {"texts": [strs[j] for j in idx], "got": [got[j] for j in idx]})
    c.flush()
    c.validated += len(ts) - (len(ts) + size - 1) // size
    c.cov["texts_tokenized"] = len(ts)
    return chars


def windows(c):
    jobs = []
    for l in range(0, 7):
        for n in range(1, 9):
            jobs.append(([i + 1 for i in range(l)], n))
            jobs.append(([c.rng.randint(1, 2) for i in range(l)], n))
    for _ in range(c.pick(200, 3000)):
        l = c.rng.randint(0, 40)
        jobs.append(([c.rng.randint(1, c.rng.choice([1, 2, 5, 50])) for _ in range(l)], c.rng.choice([1, 2, 3, 4, 7, 20, 39, 40, 41])))
    # the tokens as words of a text: the helper function, tokenize().ngrams() and the bare iterator agree
    cmds = []
    for t, n in jobs:
        cmds.append({"op": "ngrams", "tokens": ["w%d" % x for x in t], "n": n})
        cmds.append({"op": "ngrams_text", "text": c.rng.choice([" ", "  ", "\n", "\t "]).join("w%d" % x for x in t), "n": n})
    a = driver.call(cmds)
    for i, (t, n) in enumerate(jobs):
        for what, out in (("ngrams()", a[2 * i]), ("the ngrams helper", a[2 * i + 1].get("helper") if isinstance(a[2 * i + 1], dict) else None),
                          ("tokenize().ngrams()", a[2 * i + 1].get("chain") if isinstance(a[2 * i + 1], dict) else None)):
            ok = isinstance(out, list)
            case = {"kind": "windows", "tokens": [t], "n": [n],
                    "out": [[[int(x[1:]) if x[1:].isdigit() else -1 for x in g] for g in out] if ok else [[-1]]]}
            c.judge(case, "%s of %d tokens, n = %d, are not the windows" % (what, len(t), n), {"tokens": t, "n": n, "got": out})
    c.flush()


def spec_tokens(c, chars, n):
    """Texts of arbitrary characters, through the commands: the tokens are those of the library, which were compared
    with the specification above."""
    docs = []
    for _ in range(n):
        pool = c.rng.sample(chars, c.rng.choice([3, 6, 10]))
        docs.append("".join(chr(c.rng.choice(pool)["c"]) for _ in range(c.rng.randint(0, 30))))
    got = driver.call([{"op": "tokenize", "text": t} for t in docs])
    return [Doc(g, text=t) for t, g in zip(docs, got) if isinstance(g, list)]


def commands(c, chars):
    scens = []
    for _ in range(c.pick(45, 600)):
        docs = spec_tokens(c, chars, c.rng.choice([1, 3, 6]))
        cut = c.rng.randint(0, len(docs))
        data = Data([docs[:cut], docs[cut:]], c.rng, c.scratch)
        cmd = c.rng.choice(["topk", "botk", "unique", "topk", "botk", "stats"])
        o = {}
        if cmd != "stats":
            o["n"] = c.rng.choice([1, 1, 2, 3, 5, 9])
        if cmd in ("topk", "botk"):
            o.update(k=1000, thr=0 if cmd == "topk" else None)
        scens.append(Scen(cmd, data, c.rng, **o))
    # many short documents: nothing may span two of them
    for _ in range(c.pick(45, 600)):
        data = Data(rand_files(c.rng, ndocs=(1, 8), toks=(0, 6), mult_p=0), c.rng, c.scratch)
        cmd = c.rng.choice(["topk", "botk", "unique"])
        o = dict(n=c.rng.choice([1, 2, 3, 4, 5, 6, 7]))
        if cmd != "unique":
            o.update(k=1000, thr=0 if cmd == "topk" else None)
        scens.append(Scen(cmd, data, c.rng, **o))
    # tokens of every length
    for _ in range(c.pick(6, 40)):
        sizes = c.rng.sample([127, 128, 255, 256, 257, 1023, 1024, 2047, 2048, 2049, 4096, 5000, 32768, 65535, 65536, 70000], 5)
        v = ["a", "b", "\u4e2d"] + [c.rng.choice("xy\u00e9") * n for n in sizes]
        docs = [Doc([c.rng.choice(v) for _ in range(c.rng.randint(2, 9))]) for _ in range(5)]
        data = Data([docs[:2], docs[2:]], c.rng, c.scratch)
        cmd = c.rng.choice(["topk", "botk"])
        scens.append(Scen(cmd, data, c.rng, n=c.rng.choice([1, 2, 2, 3]), k=1000, thr=0 if cmd == "topk" else None, limit=None, flimit=None))
    common.run_all(c, scens, recheck=common.recheck_other_seeds(c))


def check(c):
    c.assumptions.append("no characters that are both letters and pictographs (the unicode-segmentation crate treats "
                         "them as pictographs after a zero width joiner)")
    c.model("Window")
    for v in ("short", "nopop", "noreset"):
        c.model("Window", None, "Exact", constants={"Variant": '"%s"' % v})
    if c.thorough:
        c.model("Window", constants={"MaxLen": 6})
    chars = tokens(c)
    windows(c)
    commands(c, chars)
