"""Making data sets, running the binary (freely or under the scheduler) and reading its results."""
import copy
import gzip
import io
import json
import os
import random
import shutil
import signal
import subprocess
import tempfile
import threading
import zlib

from . import build

# Tokens that stay single tokens when joined by white space; deliberately varied.
TOKENS = [
    "a", "b", "c", "the", "The", "of", "don't", "2.0", "1,000", "foo_bar", "x", "y", "z", "\u00e9t\u00e9",
    "e\u0301", "\u4e2d", "\u6587", "\u3042", "\u0434\u0430", "\U0001f600", ".", ",", "!", "\u2026", "\"", "\\", "/",
    "nai\u0308ve", "\u05d0\u05d1", "A", "B", "0", "007", "-", "\u20ac", "<", ">", "&", "{", "}", "\U00010400b",
    "\u0915\u094d\u0937",
] + ["w%d" % i for i in range(400)]
SEPS = [" ", " ", " ", "  ", "\t", "\n", " \n ", "\u00a0", "\u2003", "\r\n", "\u2028", " \t "]


class Vocab:
    """Maps tokens to numbers for the specification."""

    def __init__(self):
        self.ids = {}

    def id(self, tok):
        if tok not in self.ids:
            self.ids[tok] = len(self.ids) + 1
        return self.ids[tok]

    def seq(self, toks):
        return [self.id(t) for t in toks]


class Doc:
    __slots__ = ("tokens", "text", "mult", "raw", "line")

    def __init__(self, tokens, text=None, mult=1, line=None):
        self.tokens = tokens          # None: no text
        self.text = text
        self.mult = mult
        self.line = line              # bytes including the terminator

    def encode(self, rng, last=False, plain=False):
        """Fix the bytes of the line."""
        if self.line is not None:
            return
        if self.tokens is None:
            body = rng.choice(['{"text": null}', '{}', '{"id": 1, "text":null}', '{"other": "text"}'])
            data = body.encode()
        else:
            if self.text is None:
                self.text = join(rng, self.tokens, plain)
            obj = json.dumps(self.text, ensure_ascii=(rng.random() < 0.5))
            shape = 0 if plain else rng.randrange(7)
            data = [
                '{"text": %s}', '{"text":%s}', '{"id": "x", "text": %s, "meta": {"text": "inner a b", "n": [1, {"text": 2}]}}',
                ' {"a": null, "text" : %s } ', '{"url": "u\\"}", "text": %s, "z": -1.5e3}', '{"\\u0074ext": %s}',
                '{"source":"s","text":%s,"added":true}'][shape] % obj
            data = data.encode("utf8", "surrogatepass")
        end = b"\n"
        if not plain:
            end = rng.choice([b"\n", b"\n", b"\n", b"\r\n"])
        if last and not plain and self.mult == 1 and rng.random() < 0.4:
            end = b""
        self.line = data + end

    def case(self, v):
        return {"has": 0 if self.tokens is None else 1, "t": [] if self.tokens is None else v.seq(self.tokens),
                "m": self.mult, "b": len(self.line)}


def join(rng, tokens, plain=False):
    if plain:
        return " ".join(tokens)
    out = []
    if rng.random() < 0.1:
        out.append(rng.choice(SEPS))
    for i, t in enumerate(tokens):
        if i:
            out.append(rng.choice(SEPS))
        out.append(t)
    if rng.random() < 0.1:
        out.append(rng.choice(SEPS))
    return "".join(out)


def gz_bytes(data, rng=None, members=1, level=6, name=False):
    """Compress data as one or more gzip members (cut at arbitrary bytes)."""
    cuts = []
    if members > 1 and len(data) > 1:
        cuts = sorted((rng or random).sample(range(0, len(data) + 1), min(members - 1, len(data) + 1)))
    parts, prev = [], 0
    for c in cuts + [len(data)]:
        parts.append(data[prev:c])
        prev = c
    out = io.BytesIO()
    for p in parts:
        g = gzip.GzipFile(filename="inner.json" if name else "", mode="wb", compresslevel=level, fileobj=out, mtime=0)
        g.write(p)
        g.close()
    return out.getvalue()


class Data:
    """A data set on disk: files of documents."""

    def __init__(self, files, rng, base, names=None, plain=False, members=None):
        files = [[copy.copy(d) for d in docs] for docs in files]
        self.files = files
        self.dir = tempfile.mkdtemp(prefix="d", dir=base)
        self.vocab = Vocab()
        self.paths = []
        for i, docs in enumerate(files):
            buf = []
            for j, d in enumerate(docs):
                d.encode(rng, last=(j == len(docs) - 1), plain=plain)
                buf.append(d.line * d.mult)
            name = names[i] if names else "f%02d.json.gz" % i
            p = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            m = members if members is not None else rng.choice([1, 1, 1, 2, 3, 7])
            with open(p, "wb") as f:
                f.write(gz_bytes(b"".join(buf), rng, m, rng.choice([0, 1, 6, 9]), rng.random() < 0.3))
            self.paths.append(p)

    def case(self, listing=None, flimit=-1, limit=-1, expand=False):
        if expand:
            files = [[dict(d.case(self.vocab), m=1) for d in docs for _ in range(d.mult)] for docs in self.files]
        else:
            files = [[d.case(self.vocab) for d in docs] for docs in self.files]
        return {"files": files,
                "listing": listing if listing is not None else list(range(1, len(self.files) + 1)),
                "flimit": flimit, "limit": limit}

    def dump(self):
        """For replay files."""
        return [[d.line.decode("utf8", "replace") * 1 + ("  (x%d)" % d.mult if d.mult > 1 else "") for d in docs]
                for docs in self.files]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def rand_tokens(rng, lo, hi, vocab, skew=1.5):
    n = rng.randint(lo, hi)
    out = []
    for _ in range(n):
        i = int(len(vocab) * (rng.random() ** skew))
        out.append(vocab[min(i, len(vocab) - 1)])
    return out


def rand_files(rng, nfiles=None, ndocs=(0, 6), toks=(0, 12), nvocab=None, null_p=0.15, mult_p=0.1, mults=(2, 3, 5)):
    nfiles = nfiles or rng.choice([1, 1, 2, 2, 3, 4, 6])
    vocab = rng.sample(TOKENS, nvocab or rng.choice([2, 3, 4, 6, 12]))
    files = []
    for _ in range(nfiles):
        docs = []
        for _ in range(rng.randint(*ndocs)):
            if rng.random() < null_p:
                docs.append(Doc(None))
            else:
                t = rand_tokens(rng, toks[0], toks[1], vocab)
                docs.append(Doc(t, mult=rng.choice(mults) if rng.random() < mult_p else 1))
        files.append(docs)
    if rng.random() < 0.2 and nfiles > 1:
        files[-1] = list(Doc(d.tokens, mult=d.mult) for d in files[0])
    return files


class Out:
    def __init__(self, rc, out, err, timed_out=False):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    def records(self):
        """The JSON lines of stdout, or None if it is not JSON lines."""
        return parse_lines(self.out)

    def show(self):
        return {"rc": self.rc, "timed_out": self.timed_out, "stdout": self.out.decode("utf8", "replace")[:3000],
                "stderr": self.err.decode("utf8", "replace")[-1500:]}


def parse_lines(data):
    out = []
    if data and not data.endswith(b"\n"):
        return None
    for line in data.split(b"\n")[:-1]:
        try:
            x = json.loads(line.decode("utf8"))
        except Exception:
            return None
        if not isinstance(x, dict):
            return None
        out.append(x)
    return out


_sched = [None, False]
_lock = threading.Lock()


def sched_bin():
    """The binary with the controlled scheduler, or None if this tree cannot be built that way."""
    with _lock:
        if not _sched[1]:
            _sched[1] = True
            try:
                _sched[0] = build.get("sched")
            except build.BuildError as e:
                build.get("real")     # raises if the tree does not compile at all
                _sched[0] = None
                _sched.append(str(e))
    return _sched[0]


def real_bin():
    with _lock:
        return build.get("real")


_hung = [0]


def run(args, binary=None, env=None, cwd=None, timeout=60, stdin=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("WSCHED") or k in ("RUST_BACKTRACE", "RUST_LOG"):
            e.pop(k)
    e.update({k: str(v) for k, v in (env or {}).items()})
    p = subprocess.Popen([binary or real_bin()] + [str(a) for a in args], cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    if _hung[0] >= 8:
        # it has been shown that runs do not end; do not wait as long for all the others
        timeout = min(timeout, 15 if _hung[0] < 32 else 5)
    try:
        o, er = p.communicate(timeout=timeout)
        return Out(p.returncode, o, er)
    except subprocess.TimeoutExpired:
        _hung[0] += 1
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return Out(None, o, er, True)


def policies(rng, n, ops=600, guides=()):
    """A mix of schedules."""
    out = ["main:1", "workers:1"]
    out += ["guide:%d:%s" % (rng.randrange(10 ** 6), g) for g in guides]
    while len(out) < n:
        s = rng.randrange(10 ** 6)
        r = rng.random()
        if r < 0.45:
            out.append("pct:%d:%d:%d" % (s, rng.choice([1, 2, 3, 5]), rng.choice([ops // 3, ops, ops * 2])))
        elif r < 0.65:
            out.append("random:%d:%s" % (s, rng.choice([0.02, 0.1, 0.5])))
        else:
            out.append("stay:%d:%s" % (s, ",".join("%d.%d" % (rng.randrange(ops), rng.randrange(6))
                                                    for _ in range(rng.choice([1, 1, 2])))))
    return out[:max(n, len(guides) + 2)]


def grams_out(recs, v, joined=True):
    """Normalise topk/botk records; malformed ones become impossible n-grams."""
    out = []
    for r in recs:
        try:
            toks = r["tokens"]
            ok = (r["string"] == " ".join(toks) if joined else isinstance(r["string"], str)) and set(r) >= {"tokens", "string", "count", "rank"}
            c, k = r["count"], r["rank"]
            if not ok or not isinstance(c, int) or not isinstance(k, int):
                raise ValueError
            out.append({"g": [v.ids.get(t, -1) for t in toks], "c": clip(c), "r": clip(k)})
        except Exception:
            out.append({"g": [-2], "c": -1, "r": -1})
    return out


def clip(n):
    return max(-2000000000, min(2000000000, n))
