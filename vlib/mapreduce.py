"""Documents whose categories are known by construction, for the map/reduce analyses."""
import csv
import gzip
import json
import os
import re
from fractions import Fraction

from .build import REPO

HOSTS = ["a.com", "www.a.com", "b.org", "A.com", "c.co.uk:8080", "user@d.net", "\u00e9.de", "10.0.0.1", "x" * 80 + ".com", "",
         "\u4e2d.jp", "[::1]", "a-b.io", "a_b.com"]
SCHEMES = ["http", "https", "ftp", "", "mailto", "s3", "git+ssh"]
EXTS = ["jpg", "png", "jpeg", "gif", "html", "", "jpgx", "tar.jpg", "webp", "pdf", "JPG", "Png", "PDF", "JPEG", "x.Jpg"]
WORDS = ["the", "cat", "sat", "on", "mats", "blue", "tree", "runs", "fast", "warm"]


# the lengths whose texts map_unique_lengths.py lists
LENGTHS = {
    "c4": {"chars": [192, 515, 434, 499, 322, 86], "toks": []},
    "pile": {"chars": [8194, 201, 35, 100000, 71, 73], "toks": [9, 18, 20, 36]},
    "redpajama": {"chars": [126, 133, 134, 118], "toks": [23, 19, 54, 52, 30, 95, 32, 98, 96, 64, 66]},
    "s2orc0": {"chars": [160, 327], "toks": []},
}


def bias_words():
    """Words of the taxonomy that match exactly one of its patterns, once, by category."""
    rows = list(csv.reader(open(os.path.join(REPO, "resources/word_based_bias_list.csv"), newline="")))[1:]
    pats = []
    for r in rows:
        if r[-1] in ("harmless-minority", "offensive-minority-reference", "offensive-not-minority"):
            pats.append((r[0], r[-1], re.compile(r"\b(?:%s)\b" % r[0], re.I)))
    out = {}
    for w, cat, _ in pats:
        word = w.replace("\\w*", "x")
        if re.search(r"[\\*+?()\[\]|]", word):
            continue
        hits = [(c2, m.group(0)) for _, c2, p in pats for m in p.finditer("%s %s %s" % (WORDS[0], word, WORDS[1]))]
        if hits == [(cat, word)]:
            out.setdefault(cat, []).append(word)
    return out


def filler(rng, n):
    out = []
    while sum(map(len, out)) + len(out) < n:
        out.append(rng.choice(WORDS))
    return " ".join(out)


def recase(rng, s):
    return "".join(ch.upper() if rng.random() < 0.5 else ch for ch in s)


class Gen:
    """rng -> (row of the file, document of the specification)"""

    def __init__(self, rng, scale="small"):
        self.rng = rng
        self.bias = None
        self.hosts = rng.sample(HOSTS, rng.choice([1, 3, len(HOSTS)]))
        self.pii = [self.pii_item() for _ in range(4)]

    def row(self, **kw):
        base = {"text": "some text", "url": "http://a.com/"}
        if self.rng.random() < 0.3:
            base["metadata"] = {"url": "http://other.example/", "date": "1999-01-01"}
        base.update(kw)
        return base

    def path(self):
        r = self.rng
        return r.choice(["", "/", "/x", "/x/y.html", "/?u=http://z.com/", "/#frag", "/a//b", "/;p=1"])

    def url(self):
        h = self.rng.choice(self.hosts)
        return self.row(url="%s://%s%s" % (self.rng.choice(["http", "https", "ftp"]), h, self.path())), {"host": h}

    def scheme(self):
        s = self.rng.choice(SCHEMES)
        return self.row(url=(s + ":" if s else "") + "//a.com" + self.path()), {"scheme": s}

    def ext(self):
        r = self.rng
        e = r.choice(EXTS)
        name = r.choice(["", "a", "a.b", "x.jpg"]) or "q"
        u = "http://h.com/" + r.choice(["", "d/", "d.png/"]) + name + ("." + e if e else "") + r.choice(["", "?f=z.png", "#y.jpg"])
        if not e and "." in name:
            e = name.split(".")[-1]
        return self.row(url=u), {"ext": e.split(".")[-1].lower()}

    def domain(self):
        r = self.rng
        suf = r.choice(["com", "org", "co.uk", "uk", "de", "", "io"])
        host = r.choice(["a", "www.a", "x-y", "b.c.d"]) + ("." + suf if suf else ".zzz" if r.random() < 0.5 else "")
        n = r.choice([1, 2, 7, 100, 12345])
        return {"url": r.choice([host, "http://%s/x" % host]), "count": n}, {"suffix": suf, "n": n}

    def dates(self):
        r = self.rng
        d, row = {"date": "", "timestamp": "", "created": ""}, self.row()
        for k in d:
            if r.random() < 0.4:
                y = str(r.choice([1999, 2004, 2020, 2021]))
                d[k] = y
                row[k] = y + r.choice(["-03-04", "-12-31T23:59:59Z", "-01-01T00:00:00", "-07-08 09:10:11+02:00", "0506"])
        items = list(row.items())
        r.shuffle(items)
        return dict(items), d

    def lengths(self):
        r = self.rng
        if r.random() < 0.15:
            return self.row(text=None), {"chars": -1, "tokens": 0}
        if r.random() < 0.1:
            return self.row(text=""), {"chars": 0, "tokens": 0}
        ws = [r.choice(WORDS + ["\u00e9t\u00e9", "\u4e2d\u6587", "9", "...", "?!", "x" * 900]) for _ in range(r.choice([1, 1, 2, 3, 6, 40]))]
        t, line = "", ""
        for i, w in enumerate(ws):
            sep = r.choice([" ", "\n", "  ", "\t"] * 3 + ["\r\n", "\r", "\x0b", "\x85", "\u2028"]) if i else r.choice(["", " "])
            t += sep + w
        t += r.choice(["", " ", "\n"])
        return self.row(text=t), {"chars": len(t), "tokens": len(ws), "line": " ".join(("x" + t.replace("\n", "(newline)") + "x").split())}

    def unique(self):
        # texts without spaces at the ends, so that the lines of the reducer are clear
        while True:
            row, d = self.lengths()
            t = row["text"]
            if t is None:
                return row, dict(d, line="")
            if t == t.strip() and "\t" not in t:
                return row, dict(d, line=shown(t))

    def blankish(self):
        r = self.rng
        if r.random() < 0.2:
            return r.choice([None, "", " ", "\n\t", "\u00a0"])
        return False

    def language(self):
        r = self.rng
        b = self.blankish()
        if b is not False:
            return self.row(text=b), {"blank": 1, "long": 0, "det": "", "reliable": 0}
        lang = r.choice(["en", "de", "fr", "un"])
        kind = r.choice(["lang", "lang", "maybe", "broken"])
        t = "broken" if kind == "broken" else "%s %s=%s" % (filler(r, 5), kind, lang)
        long = 0
        if r.random() < 0.06:
            n = r.choice([99999, 100000, 120000])
            t = (t + " " * n)[:n - 1] + "."
            long = int(n > 99999)
        return self.row(text=t), {"blank": 0, "long": long, "det": "broken" if kind == "broken" else lang, "reliable": int(kind == "lang")}

    def pii_item(self):
        r = self.rng
        kind = r.choice(["email", "phone_numbers", "IP_addresses"])
        if kind == "email":
            dom = r.random() < 0.7
            return kind, r.choice(["joe", "j.doe", "a+b", "x_1"]) + "@" + ("mail.%s" % r.choice(["com", "org"]) if dom else "localhost"), int(dom)
        if kind == "phone_numbers":
            a, b, c = r.randint(200, 999), r.randint(200, 999), r.randint(1000, 9999)
            return kind, r.choice(["%d-%d-%d", "(%d) %d-%d", "%d.%d.%d", "%d%d%d", "%d %d %d"]) % (a, b, c), 1
        return kind, "%d.%d.%d.%d" % tuple(r.choice([0, 1, 10, 99, 192, 255]) for _ in range(4)), 1

    def pii_doc(self):
        r = self.rng
        b = self.blankish()
        if b is not False:
            return self.row(text=b), {"blank": 1, "junk": 0, "items": []}
        parts, items = [], []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            kind, val, dom = r.choice(self.pii)
            near = r.choice(["", "", "isbn", "doi", "#", "url"])
            far = r.choice(["", "isbn", "doi", "#", "url"])
            mark = lambda m: "https://www.example.com/page" if m == "url" else recase(r, m) if m != "#" else m
            val = recase(r, val)
            before = r.random() < 0.5
            # a filler of 120 characters between the items, marks either within 10 characters or beyond 50
            s = filler(r, 120)
            if far and not before:
                s += " " + mark(far) + " " + filler(r, 60)
            if near and before:
                s += " " + mark(near) + " " + r.choice(["", "x "])
            s += " " + val + " "
            if near and not before:
                s += r.choice(["", "of "]) + mark(near) + " "
            if far and before:
                s += filler(r, 60) + " " + mark(far) + " "
            s += filler(r, 70) + r.choice([" ", "\n"])
            parts.append(s)
            items.append({"type": kind, "near": near, "domain": dom})
        junk = int(r.random() < 0.1)
        if junk:
            parts.insert(r.randrange(len(parts) + 1), r.choice(["???????", "." * 45, "# # # # # # #", ";" * 130, "%" * 1001]) + " " + filler(r, 70))
        return self.row(text="".join(parts) or "nothing here"), {"blank": 0, "junk": junk, "items": items}

    def tokens(self):
        r = self.rng
        h = r.choice(self.hosts)
        n = r.choice([0, 1, 2, 5, 50])
        return self.row(url="http://%s/" % h, text=" ".join(r.choice(WORDS) for _ in range(n))), {"host": h, "words": n}

    def alive(self):
        h = self.rng.choice(["up", "moved", "made", "empty", "gone", "error", "forbidden", "busy", "down", "slow",
                             "silent", "untrusted", "loop", "bad*", "cut"])
        scheme = self.rng.choice(["http://"] * 8 + ["https://"] * 3 + ["ftp://", "mailto:", ""])
        return (self.row(url="%s%s.example/%s" % (scheme, h, self.path())),
                {"up": int(h in ("up", "moved", "made", "empty") and scheme.startswith("http"))})

    def profanity(self):
        r = self.rng
        b = self.blankish()
        if b is not False:
            return self.row(text=b), {"blank": 1, "long": 0, "sentences": []}
        s = [int(r.random() < 0.25) for _ in range(r.choice([1, 2, 4]))]
        t = " ".join(filler(r, 8) + (" profanity." if x else " fine.") for x in s)
        long = 0
        if r.random() < 0.06:
            n = r.choice([99999, 100000])
            t = (t + " " * n)[:n - 1] + "."
            long = int(n > 99999)
        return self.row(text=t), {"blank": 0, "long": long, "sentences": s}

    def taxonomy(self):
        r = self.rng
        if self.bias is None:
            self.bias = bias_words()
        b = self.blankish()
        if b is not False:
            return self.row(text=b), {"blank": 1, "long": 0, "offmin": 0, "offnot": 0, "harmless": 0}
        keys = {"offmin": "offensive-minority-reference", "offnot": "offensive-not-minority", "harmless": "harmless-minority"}
        d, parts = {"blank": 0, "long": 0, "offmin": 0, "offnot": 0, "harmless": 0}, []
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            k = r.choice(list(keys))
            pool = self.bias[keys[k]]
            # the first and last words of a list are at the ends of its pattern
            w = r.choice([pool[0], pool[-1], r.choice(pool)])
            if r.random() < 0.25:
                parts.append("q%sq" % w)          # part of another word
            elif r.random() < 0.15:
                parts.append(w + "q" if not w.endswith("x") else "q" + w)
            else:
                parts.append(recase(r, w) if r.random() < 0.3 else w)
                d[k] += 1
        t = r.choice([" %s " % WORDS[3], ", "]).join([WORDS[1]] + parts + [WORDS[2]])
        return self.row(text=t), d

    def sample(self):
        r = self.rng
        x = r.choice(["http://a.com/%d" % r.randint(0, 30), "", "\u00e9 \u4e2d"])
        how = r.choice(["top", "top", "meta", "none"])
        row = {"text": "t"}
        if how == "top":
            row["url"] = x
            if r.random() < 0.3:
                row["metadata"] = {"url": "other"}
        elif how == "meta":
            row["metadata"] = {"url": x}
        else:
            x = ""
            if r.random() < 0.5:
                row["metadata"] = {}
        return row, {"key": x}

    MALE, FEMALE = ["he", "him", "his", "himself"], ["she", "her", "hers", "herself"]
    RELIG, RACE = ["muslim", "christian", "athiest", "buddhist", "hindu", "jew"], ["asian", "hispanic", "latino"]

    def sentiment(self):
        r = self.rng
        b = self.blankish()
        if b is not False:
            return self.row(text=b), {"blank": 1, "long": 0, "sentences": []}
        sents, text = [], []
        for _ in range(r.choice([1, 1, 2, 4])):
            v = r.randint(-64, 64)
            m, ws = [], []
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                k = r.choice("mfgrpx")
                if k == "m":
                    w = r.choice(self.MALE)
                    m.append(["male", w])
                elif k == "f":
                    w = r.choice(self.FEMALE)
                    m.append(["female", w])
                elif k == "g":
                    w = r.choice(self.RELIG)
                    m.append([w, w])
                    w += r.choice(["", "s"])
                elif k == "r":
                    w = r.choice(self.RACE)
                    m.append([w, w])
                elif k == "p":
                    base = r.choice(["white", "black"])
                    w = base + " " + r.choice(["woman", "boy", "girl", "people", "men"])
                    m.append([base, w])
                else:
                    w = r.choice(["He", "them", "whites", "sheep", "black bird", "atheist",
                                  "christianson", "hindusthan", "jewsharp", "muslimsx", "xjews", "shears", "himselfs"])
                ws.append(w)
            text.append("cat %s %s%s." % (" and ".join(ws), "+" if v >= 0 else "-", ("%.6f" % (abs(v) / 64))))
            sents.append({"v": v, "m": m})
        t, long = " ".join(text), 0
        if r.random() < 0.04:
            n = r.choice([99999, 100000])
            t = (t + " " * n)[:n - 1] + "."
            long = int(n > 99999)
        return self.row(text=t), {"blank": 0, "long": long, "sentences": sents}


# name -> directory, generator, options of the mapper, how a line of the reducer is read, plain input
def _pair(k):
    return lambda j: (str(j[k]), j["count"])


def shown(t):
    """A text on a line (how carriage returns are shown is not judged)."""
    return t.replace("\n", "(newline)").replace("\r", "")


ANALYSES = {
    "url": ("url_counts", Gen.url, [], _pair("url")),
    "scheme": ("scheme_counts", Gen.scheme, [], lambda j: list(j.items())[0]),
    "ext": ("extension_counts", Gen.ext, [], _pair("ext")),
    "domain": ("high_level_domain_counts", Gen.domain, [], _pair("high_level_domain")),
    "dates": ("utterance_dates", Gen.dates, [], _pair("year")),
    "lengths": ("sentence_lengths", Gen.lengths, [], _pair("key")),
    "unique-lengths": ("sentence_lengths", Gen.unique, [], lambda j: (j["key"].replace("\r", ""), j["count"])),
    "language": ("language", Gen.language, ["bs"], _pair("language")),
    "pii": ("pii", Gen.pii_doc, ["bs"], _pair("pii")),
    "tokens": ("url_per_tok_counts", Gen.tokens, [], _pair("url")),
    "alive": ("link_exists", Gen.alive, [], _pair("alive")),
    "profanity": ("profanity", Gen.profanity, ["bs"], _pair("profanity")),
    "taxonomy": ("profanity", Gen.taxonomy, ["bs"], _pair("profanity")),
    "sample": ("random_sample", Gen.sample, [], lambda j: (j["url"], 1)),
    "sentiment": ("sentiment_coocurrence", Gen.sentiment, ["bs"], None),
}


def write(path, rows, plain):
    data = "".join(json.dumps(r, ensure_ascii=False) + "\n" for r in rows).encode("utf8", "surrogatepass")
    if plain:
        with open(path, "wb") as f:
            f.write(data)
    else:
        with gzip.open(path, "wb", compresslevel=1) as f:
            f.write(data)


def fraction(x):
    f = Fraction(x).limit_denominator(30000)
    return f.numerator, f.denominator
