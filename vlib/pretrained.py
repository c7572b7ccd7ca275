"""Pretrained tokenizers in a cache of the Hugging Face hub, as `--tokenizer NAME` looks for them."""
import json
import os

from . import driver

SPECIAL = ["[UNK]", "[PAD]", "[CLS]", "[SEP]", "[MASK]"]


def byte_chars():
    """The character that stands for each byte in byte-level tokenizers."""
    keep = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    out, n = {}, 0
    for b in range(256):
        if b in keep:
            out[b] = chr(b)
        else:
            out[b] = chr(256 + n)
            n += 1
    return out


CHAR = byte_chars()
BYTE = {c: b for b, c in CHAR.items()}


class Tok:
    """kind: level, piece, pair or bytes; words: what texts are made of."""

    def __init__(self, rng, kind, name, cut=None, fill=None, around=False, unk=True, lower=None):
        self.kind, self.name, self.unk = kind, name, unk
        self.lower = rng.random() < 0.3 if lower is None else lower
        if kind == "bytes":
            self.lower, self.unk = False, True
        self.cut, self.fill, self.around = cut, fill, around
        alphabet = ["a", "b", "c", "d", "\u00e9", "\u4e2d", "1", "."] + ([] if self.lower else ["A", "B"])
        self.alphabet = alphabet
        word = lambda hi: "".join(rng.choice(alphabet) for _ in range(rng.randint(1, hi)))
        self.vocab, self.cont, self.merges, self.longest = set(), set(), [], 100
        if kind == "level":
            while len(self.vocab) < 12:
                self.vocab.add(word(3))
        elif kind == "piece":
            self.vocab |= set(rng.sample(alphabet, 6)) | {word(4) for _ in range(12)}
            self.cont |= set(rng.sample(alphabet, 6)) | {word(4) for _ in range(12)}
            self.longest = rng.choice([6, 100])
        else:
            chars = [(x,) for x in (b"abcd .e" if kind == "bytes" else map(ord, alphabet))]
            if kind == "bytes":
                chars += [(0xc3,), (0xa9,), (0xe4,), (0xb8,)]
            known = set(chars)
            for _ in range(14):
                a, b = rng.choice(sorted(known)), rng.choice(sorted(known))
                if a + b not in known:       # every pair makes a piece of its own
                    known.add(a + b)
                    self.merges.append((a, b))

    # ---- the file

    def show(self, p):
        return "".join(CHAR[x] for x in p) if self.kind == "bytes" else "".join(map(chr, p))

    def config(self):
        ids = {}

        def add(t):
            ids.setdefault(t, len(ids))
        for t in SPECIAL if self.unk else SPECIAL[1:]:
            add(t)
        if self.kind == "level":
            for t in sorted(self.vocab):
                add(t)
            model = {"type": "WordLevel", "vocab": ids, "unk_token": "[UNK]"}
        elif self.kind == "piece":
            for t in sorted(self.vocab) + ["##" + t for t in sorted(self.cont)]:
                add(t)
            model = {"type": "WordPiece", "unk_token": "[UNK]", "continuing_subword_prefix": "##",
                     "max_input_chars_per_word": self.longest, "vocab": ids}
        else:
            for ch in (CHAR.values() if self.kind == "bytes" else self.alphabet):
                add(ch)
            for a, b in self.merges:
                add(self.show(a + b))
            model = {"type": "BPE", "dropout": None, "unk_token": None, "continuing_subword_prefix": None,
                     "end_of_word_suffix": None, "fuse_unk": False, "byte_fallback": False, "vocab": ids,
                     "merges": ["%s %s" % (self.show(a), self.show(b)) for a, b in self.merges]}
        special = SPECIAL if self.unk else SPECIAL[1:]
        d = {"version": "1.0", "truncation": None, "padding": None,
             "added_tokens": [{"id": ids[t], "content": t, "single_word": False, "lstrip": False, "rstrip": False,
                               "normalized": False, "special": True} for t in special],
             "normalizer": {"type": "Lowercase"} if self.lower else None,
             "pre_tokenizer": {"type": "ByteLevel", "add_prefix_space": False, "trim_offsets": True, "use_regex": False}
             if self.kind == "bytes" else {"type": "WhitespaceSplit"},
             "post_processor": None,
             "decoder": {"type": "WordPiece", "prefix": "##", "cleanup": False} if self.kind == "piece" else
             {"type": "ByteLevel", "add_prefix_space": True, "trim_offsets": True, "use_regex": True} if self.kind == "bytes" else None,
             "model": model}
        if self.cut is not None:
            d["truncation"] = {"direction": self.cut[1], "max_length": self.cut[0], "strategy": "LongestFirst", "stride": 0}
        if self.fill is not None:
            d["padding"] = {"strategy": {"Fixed": self.fill} if self.fill else "BatchLongest", "direction": "Right",
                            "pad_to_multiple_of": None if self.fill else 8, "pad_id": ids["[PAD]"], "pad_type_id": 0, "pad_token": "[PAD]"}
        if self.around:
            d["post_processor"] = {
                "type": "TemplateProcessing",
                "single": [{"SpecialToken": {"id": "[CLS]", "type_id": 0}}, {"Sequence": {"id": "A", "type_id": 0}},
                           {"SpecialToken": {"id": "[SEP]", "type_id": 0}}], "pair": [],
                "special_tokens": {t: {"id": t, "ids": [ids[t]], "tokens": [t]} for t in ("[CLS]", "[SEP]")}}
        return d

    def write(self, home, data=None):
        d = os.path.join(home, "hub", "models--" + self.name.replace("/", "--"))
        os.makedirs(os.path.join(d, "refs"), exist_ok=True)
        os.makedirs(os.path.join(d, "snapshots", "abc"), exist_ok=True)
        with open(os.path.join(d, "refs", "main"), "w") as f:
            f.write("abc")
        with open(os.path.join(d, "snapshots", "abc", "tokenizer.json"), "w") as f:
            f.write(json.dumps(self.config()) if data is None else data)

    # ---- for the specification

    def case(self):
        codes = lambda ws: [[ord(c) for c in w] for w in sorted(ws)]
        return {"type": "pair" if self.kind == "bytes" else self.kind, "vocab": codes(self.vocab), "cont": codes(self.cont),
                "merges": [[list(a), list(b)] for a, b in self.merges], "unk": int(self.unk), "lower": int(self.lower),
                "longest": self.longest, "special": codes(SPECIAL[1:]),
                "join": {"piece": "piece", "bytes": "bytes"}.get(self.kind, "space")}

    def words(self, text):
        if self.kind != "bytes":
            return [[ord(c) for c in w] for w in text.split()]
        out, rest = [], text
        while rest:
            at = min((rest.find(s) for s in SPECIAL[1:] if s in rest), default=len(rest))
            if at:
                out.append(list(rest[:at].encode()))
            if at < len(rest):
                s = next(s for s in SPECIAL[1:] if rest.startswith(s, at))
                out.append([ord(c) for c in s])
                at += len(s)
            rest = rest[at:]
        return out

    def token(self, t):
        """What the library calls t, for the specification."""
        if not isinstance(t, str):
            return {"u": 2, "cont": 0, "p": []}
        if t == "[UNK]":
            return {"u": 1, "cont": 0, "p": []}
        if t in SPECIAL:
            return {"u": 0, "cont": 0, "p": [ord(c) for c in t]}
        if self.kind == "bytes":
            return {"u": 0, "cont": 0, "p": [BYTE.get(c, -1) for c in t]}
        if self.kind == "piece" and t.startswith("##"):
            return {"u": 0, "cont": 1, "p": [ord(c) for c in t[2:]]}
        return {"u": 0, "cont": 0, "p": [ord(c) for c in t]}

    def string(self, toks, s):
        """A case for the string of an n-gram (None: it cuts a character into pieces, and is as one would replace them)."""
        if not isinstance(s, str):
            return {"toks": [], "s": [-1]}
        ts = [self.token(t) for t in toks]
        if self.kind != "bytes":
            return {"toks": ts, "s": [ord(c) for c in s]}
        b = bytes(x for t, o in zip(ts, toks) if o not in SPECIAL for x in t["p"] if 0 <= x < 256)
        try:
            b.decode()
        except UnicodeDecodeError:
            return None if s == b.decode("utf8", "replace") else {"toks": ts, "s": [-1]}
        return {"toks": ts, "s": list(s.encode("utf8", "surrogatepass"))}

    # ---- texts

    def text(self, rng, hi=14, strange=0.1):
        seps = [" ", " ", "  ", "\n", "\t "]
        out = []
        for _ in range(rng.randint(0, hi)):
            r = rng.random()
            if r < strange:
                w = rng.choice(["zz", "\u0434\u0430", "x" * 7, "abcd" * 2, "a" * 101, "[CLS]", "[SEP]"])
                if self.kind in ("pair",):
                    w = rng.choice(["abcd" * 3, "[CLS]"])
                if not self.unk and w not in SPECIAL and rng.random() < 0.5:
                    w = rng.choice(sorted(self.vocab))
            elif r < 0.6 and self.vocab:
                w = rng.choice(sorted(self.vocab)) + (rng.choice(sorted(self.cont)) if self.cont and rng.random() < 0.6 else "")
            elif self.kind == "level":
                w = rng.choice(sorted(self.vocab))
            else:
                w = "".join(rng.choice(self.alphabet) for _ in range(rng.choice([1, 2, 3, 5])))
            if self.lower and rng.random() < 0.2 and w not in SPECIAL:
                w = "".join(c.upper() if c in "abcd" else c for c in w)
            out.append(w)
        s = "".join(w + rng.choice(seps) for w in out)
        if not out or rng.random() < 0.3:
            return rng.choice(["", " ", "\n ", " "]) + s
        return s.rstrip()


def known(tok, text):
    """Does the tokenizer have a token for every word? (Only asked for kinds that cut at white space.)"""
    if tok.unk:
        return True
    ws = [w if w in SPECIAL or not tok.lower else w.lower() for w in text.split()]
    return all(w in tok.vocab or w in SPECIAL[1:] for w in ws)


def env(home):
    return {"HF_HOME": home, "HF_ENDPOINT": "http://127.0.0.1:9"}


def tokenize(home, tok, texts, n=2):
    """What the library makes of the texts."""
    e = dict(os.environ, **env(home))
    a = driver.call([{"op": "pretrained", "name": tok.name, "texts": list(texts), "n": n}], env=e)
    return a[0] if a else {"crash": "?"}
