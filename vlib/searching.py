"""Patterns and cases for `wimbd search` (spec/Regex.tla)."""
import unicodedata

from . import wimbd
from .wimbd import Doc


def case(scen, recs):
    o, data = scen.o, scen.data
    files = []
    texts, row_of = {}, {}
    for fi, docs in enumerate(data.files):
        rows = []
        line = 1
        for d in docs:
            if d.mult != 1 and (d.text or o.get("limit") is not None or o.get("human")):
                raise ValueError("search scenarios have no multiplicities")
            has = d.tokens is not None
            rows.append({"has": 1 if has else 0, "t": chars(d.text) if has else []})
            texts[(fi + 1, len(rows))] = d.text if has else None
            # many lines without a text, in which nothing is found, stand for one
            if d.mult == 1:
                row_of[(fi + 1, line)] = len(rows)
            line += d.mult
        files.append(rows)
    paths = {p: i + 1 for i, p in enumerate(data.paths)}
    by = {}
    for r in recs:
        if r.get("pattern") in by:
            return "a pattern is reported twice"
        by[r.get("pattern")] = r
    if set(by) != {p[0] for p in o["patterns"]}:
        return "the reported patterns are not the given ones"
    out = []
    for pat, _ in o["patterns"]:
        r = by[pat]
        locs = []
        try:
            if not o.get("human") and ("matches" in r) != bool(o.get("locations")):
                return "locations without being asked for, or none"
            for path, l in (r.get("matches") or {}).items():
                f = paths.get(path, -1)
                for x in l:
                    l1 = row_of.get((f, x["line_num"]), -1) if not o.get("human") else wimbd.clip(x["line_num"])
                    locs.append({"f": f, "l": l1, "ok": 1 if texts.get((f, l1)) == x["text"] else 0,
                                 "m": x["submatches"] if o.get("human") else [[wimbd.clip(m["start_col"]), wimbd.clip(m["end_col"])] for m in x["submatches"]]})
            out.append({"count": wimbd.clip(r["count"]), "locs": locs})
        except (KeyError, TypeError, AttributeError):
            return "malformed result"
    return [{"kind": "search-lines" if o.get("human") else "search", "files": files, "listing": [i + 1 for i in scen.listing()],
             "flimit": -1 if o.get("flimit") is None else wimbd.clip(o["flimit"]),
             "limit": -1 if o.get("limit") is None else wimbd.clip(o["limit"]),
             "patterns": [p[1] for p in o["patterns"]], "withlocs": 1 if o.get("locations") else 0,
             "loclimit": -1 if o.get("loclimit") is None else wimbd.clip(o["loclimit"]), "out": out}]


def chars(text):
    return [{"c": ord(ch), "b": len(ch.encode("utf8")), "w": 1 if is_word(ch) else 0} for ch in text]


def is_word(ch):
    """\\w of the regex crate, for the characters the generators use (letters, marks, digits, connectors)."""
    return ch == "_" or unicodedata.category(ch)[0] in "LM" or unicodedata.category(ch) in ("Nd", "Pc")


# ---- patterns: (string, syntax tree)

ALPHA = ["a", "b", "c", " ", "\u00e9", "\u4e2d", "\U0001f600", ".", "A", "1"]
META = set(".+*?()|[]{}^$\\-&~#")


def esc(ch):
    return "\\" + ch if ch in META else ch


def rand_regex(rng, depth=3, nullable=True):
    """A random pattern; returns (string, tree, can match the empty string)."""
    r = rng.random()
    if depth == 0 or r < 0.3:
        r = rng.random()
        if r < 0.62:
            ch = rng.choice(ALPHA)
            return esc(ch), {"op": "c", "c": ord(ch)}, False
        if r < 0.7:
            return ".", {"op": "any"}, False
        if r < 0.82:
            cs = rng.sample(ALPHA, rng.randint(1, 3))
            neg = rng.random() < 0.3
            return "[" + ("^" if neg else "") + "".join(esc(x) for x in cs) + "]", \
                   {"op": "set", "cs": [ord(x) for x in cs], "neg": 1 if neg else 0}, False
        if r < 0.88:
            return "\\w", {"op": "word"}, False
        if not nullable:
            return "b", {"op": "c", "c": 98}, False
        if r < 0.92:
            return "^", {"op": "bol"}, True
        if r < 0.95:
            return "$", {"op": "eol"}, True
        return "\\b", {"op": "wb"}, True
    if r < 0.6:
        xs = [rand_regex(rng, depth - 1, nullable) for _ in range(rng.randint(2, 3))]
        return "".join(x[0] for x in xs), {"op": "cat", "xs": [x[1] for x in xs]}, all(x[2] for x in xs)
    if r < 0.75:
        xs = [rand_regex(rng, depth - 1, nullable) for _ in range(rng.randint(2, 3))]
        return "(%s)" % "|".join(x[0] for x in xs), {"op": "alt", "xs": [x[1] for x in xs]}, any(x[2] for x in xs)
    # repetitions only of what cannot match the empty string
    x = rand_regex(rng, depth - 1, False)
    if x[2]:
        return x
    greedy = rng.random() < 0.7
    kind = rng.choice(["plus", "opt", "star"] if nullable else ["plus"])
    s = "(?:%s)%s%s" % (x[0], {"plus": "+", "opt": "?", "star": "*"}[kind], "" if greedy else "?")
    return s, {"op": kind, "x": x[1], "greedy": 1 if greedy else 0}, kind != "plus"


_A, _B = {"op": "c", "c": 97}, {"op": "c", "c": 98}
FIXED = [
    ("a", _A), ("aa", {"op": "cat", "xs": [_A, _A]}), ("a*", {"op": "star", "x": _A, "greedy": 1}),
    ("a|ab", {"op": "alt", "xs": [_A, {"op": "cat", "xs": [_A, _B]}]}),
    ("\\b", {"op": "wb"}), ("^", {"op": "bol"}), ("$", {"op": "eol"}), (".", {"op": "any"}),
    ("", {"op": "cat", "xs": []}),
]


def patterns_for(rng, n=None):
    out = {}
    for _ in range(n or rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.3:
            s, t = rng.choice(FIXED)
        else:
            s, t, _ = rand_regex(rng)
        if len(s) < 60:
            out[s] = t
    return list(out.items()) or [FIXED[0]]


def text_files(rng, nfiles=None):
    """Files for search: texts over the patterns' alphabet."""
    files = []
    for _ in range(nfiles or rng.choice([1, 2, 2, 3, 4])):
        docs = []
        for _ in range(rng.randint(0, 5)):
            if rng.random() < 0.1:
                docs.append(Doc(None))
            else:
                al = rng.sample(ALPHA + ["\n"], rng.randint(1, len(ALPHA)))
                docs.append(Doc([], text="".join(rng.choice(al) for _ in range(rng.choice([0, 1, 3, 8, 20])))))
        files.append(docs)
    return files
