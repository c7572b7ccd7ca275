"""The reader yields every line of a gzip file exactly once and intact."""
import os
import re
import struct
import zlib

from vlib import damage, driver
from vlib.core import pmap

KEEP = ["none", "all", "odd", "window", "third"]
SIZES = [0, 1, 2, 2047, 2048, 2049, 4095, 4096, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 70000, 200000]
BAD = [b"\xff", b"\xc3(", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf4\x90\x80\x80", b"\xe4\xb8", b"\x80", b"\xf0\x9f\x98"]


def member(rng, data):
    """One gzip member with a header of any form."""
    flags, extra = 0, b""
    if rng.random() < 0.25:
        e = os.urandom(0) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 4, 300])))
        flags |= 4
        extra += struct.pack("<H", len(e)) + e
    if rng.random() < 0.25:
        flags |= 8
        extra += rng.choice([b"name.json\0", b"\0", b"n" * 5000 + b"\0"])
    if rng.random() < 0.25:
        flags |= 16
        extra += b"a comment\0"
    if rng.random() < 0.1:
        flags |= 1
    head = b"\x1f\x8b\x08" + bytes([flags]) + struct.pack("<I", rng.choice([0, 1700000000])) + bytes([rng.choice([0, 2, 4]), rng.choice([3, 255])]) + extra
    if flags & 2:
        head += struct.pack("<H", zlib.crc32(head) & 0xffff)
    z = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -15, 8, rng.choice([0, 0, 2, 3, 4]))
    body = b""
    if rng.random() < 0.3 and data:
        for _ in range(rng.choice([1, 3, 10])):
            i = rng.randint(0, len(data))
            body += z.compress(data[:i]) + z.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
            data0, data = data[:i], data[i:]
            member.crc = zlib.crc32(data0, member.crc)
            member.size += len(data0)
    return head, z, body, data


def gz(rng, data):
    head, z, body, rest = (None,) * 4
    member.crc, member.size = 0, 0
    head, z, body, rest = member(rng, data)
    body += z.compress(rest) + z.flush()
    return head + body + struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)


def compress(rng, data, members):
    cuts = sorted(rng.randint(0, len(data)) for _ in range(members - 1))
    out, prev = b"", 0
    for c in cuts + [len(data)]:
        out += gz(rng, data[prev:c])
        prev = c
    return out


def text(rng):
    """Lines of all kinds; returns str."""
    parts = []
    long_left = rng.choice([0, 0, 1, 2])
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20])):
        r = rng.random()
        if r < 0.25:
            parts.append("")
        elif r < 0.35 and long_left:
            long_left -= 1
            parts.append(rng.choice("ab\u00e9\u4e2d\U0001f600") * (rng.choice(SIZES) // rng.choice([1, 1, 2, 4]))
                         + rng.choice(["", "z", "\r", "\U0001f600"]))
        else:
            parts.append("".join(rng.choice(["a", "b", " ", "\r", "\t", "\0", "\u00e9", "\u4e2d", "\U0001f600", "\u2028", "\x0b", "\x85", "\ufeff", "\u200b", "\u00a0", "{", '"'])
                                 for _ in range(rng.randint(1, 8))))
    if rng.random() < 0.1:
        parts.append("\n" * rng.choice([1, 3, 5000]))
    t = "\n".join(parts)
    return t + rng.choice(["\n", "\n", "", "\r", "\r\n", "\n\n"]) if t or rng.random() < 0.7 else t


def huge(rng):
    """Lines of many megabytes."""
    return "".join(rng.choice(["", "a", "b\r"]) + "x" * (n + rng.randrange(-1, 2)) + "\n" for n in (1 << 20, 17 << 20)) + "end"


def runs(s):
    if len(s) > 10 ** 6:
        return [[ord(m.group()[0]), len(m.group())] for m in re.finditer(r"(?s)(.)\1*", s)]
    out = []
    for ch in s:
        o = ord(ch)
        if out and out[-1][0] == o:
            out[-1][1] += 1
        else:
            out.append([o, 1])
    return out


class Job:
    def __init__(self, c, i, kind):
        rng = c.rng
        self.kind, self.text = kind, text(rng) if kind != "huge" else huge(rng)
        self.keep, self.env, self.badline = rng.choice(KEEP), None, 0
        data = self.text.encode()
        what = "intact"
        self.damage = "none"
        members = rng.choice([1, 1, 2, 3, 10, 100])
        raw = None
        if kind == "utf8":
            # put a bad sequence into some line
            lines = data.split(b"\n")
            j = rng.randrange(len(lines))
            b = rng.choice(BAD)
            k = rng.choice([0, len(lines[j])])
            lines[j] = lines[j][:k] + b + lines[j][k:]
            if k and b in (b"\xe4\xb8", b"\xf0\x9f\x98", b"\xc3("):
                pass
            data = b"\n".join(lines)
            try:
                data.decode()
            except UnicodeDecodeError as e:
                self.damage = "utf8"
                self.badline = data[:e.start].count(b"\n") + 1
                what = "line %d is not UTF-8 (%r)" % (self.badline, b)
            else:
                self.text = data.decode()
        elif kind == "gz":
            name = rng.choice(sorted(damage.GZ))
            f, v = damage.GZ[name]
            one = plain_gz(data)
            raw = f(rng, one)
            if v == "doubt":
                self.damage = "doubt"
            elif v == "bad":
                self.damage = "cut" if name.startswith("cut") or name in ("last byte missing", "empty file", "wrong checksum", "wrong length", "bad magic", "bad method") else "corrupt"
                if name == "second member cut":
                    self.damage = "corrupt"
            what = name
            if name == "changed data":
                # the change may hit bits that mean nothing
                try:
                    if zlib.decompress(raw, 31) == data:
                        self.damage = "doubt"
                except zlib.error:
                    pass
        elif kind == "cut":
            full = compress(rng, data, members)
            # not exactly between two members
            ends = boundaries(full)
            k = rng.choice([x for x in (rng.randrange(len(full)), rng.randrange(len(full)), len(full) - 1) if x not in ends])
            raw = full[:k]
            self.damage = "cut"
            what = "cut at %d of %d" % (k, len(full))
        if raw is None:
            raw = compress(rng, data, members)
        self.path = os.path.join(c.scratch, "%s-%d.gz" % (kind, i))
        with open(self.path, "wb") as f:
            f.write(raw)
        if kind == "io":
            name = rng.choice([n for n in sorted(damage.IO) if "pass" not in n])
            self.env = damage.fault_env([damage.io_rule(rng, name, self.path)])
            v = damage.IO[name][1]
            if v != "ok":
                self.damage = "cut"
            what = name
        self.what = "%s, %d members, caller keeps %s" % (what, members, self.keep)

    def cmd(self):
        return {"op": "reader", "path": self.path, "keep": self.keep, "after_end": 2}

    def case(self, a):
        if "crash" in a:
            return None
        lines = [bytes.fromhex(x).decode("utf8", "replace") for x in a.get("lines", [])]
        return {"kind": "reader", "text": runs(self.text if self.damage != "utf8" else prefix(self)), "damage": self.damage,
                "badline": self.badline, "lines": [runs(x) for x in lines],
                "error": 0 if a.get("error", 1) is None else 1,
                "extra": [x if isinstance(x, str) else "line" for x in a.get("extra", [])]}


def prefix(job):
    """The lines before the first that is not UTF-8 (the rest does not matter)."""
    raw = b"".join(x + b"\n" for x in zlib_all(open(job.path, "rb").read()).split(b"\n")[:job.badline - 1])
    return raw.decode()


def zlib_all(raw):
    out = b""
    while raw:
        d = zlib.decompressobj(31)
        out += d.decompress(raw)
        raw = d.unused_data
    return out


def boundaries(raw):
    ends, n = {0}, len(raw)
    rest = raw
    while rest:
        d = zlib.decompressobj(31)
        d.decompress(rest)
        rest = d.unused_data
        ends.add(n - len(rest))
    return ends - {0}


def plain_gz(data):
    import gzip
    return gzip.compress(data, mtime=0)


def check(c):
    c.model("Reader")
    for v, e in (("alwaysreuse", "KeptUnchanged"), ("noclear", "LinesRight"), ("onemember", "LinesRight"),
                 ("eofok", "LinesRight"), ("losetail", "LinesRight")):
        c.model("Reader", None, e, constants={"Variant": '"%s"' % v})
    c.model("Reader", constants={"MaxLen": c.pick(6, 8)})
    n = c.pick(240, 4000)
    jobs = []
    for i in range(n):
        for kind in ("intact", "intact", "cut", "utf8", "gz", "io"):
            jobs.append(Job(c, len(jobs), kind))
    jobs.append(Job(c, len(jobs), "huge"))
    free = [j for j in jobs if j.env is None]
    chunks = [free[i::8] for i in range(8)]

    def batch(js):
        return driver.call([j.cmd() for j in js])
    answers = {}
    for js, a in zip(chunks, pmap(batch, chunks)):
        for j, x in zip(js, a):
            answers[j] = x
    faulty = [j for j in jobs if j.env]
    for j, a in zip(faulty, pmap(lambda j: driver.call([j.cmd()], env=dict(os.environ, **j.env)), faulty)):
        answers[j] = a[0]
    tally = {}
    for j in jobs:
        case = j.case(answers[j])
        info = {"what": j.what, "text": j.text[:500], "answer": str(answers[j])[:1500], "damage": j.damage}
        tally[j.damage] = tally.get(j.damage, 0) + 1
        if case is None:
            c.violation("the reader crashes (%s)" % j.what, info)
            continue
        c.judge(case, "the reader yields other lines or another end than it has to (%s)" % j.what, info)
    c.flush()
    c.cov["files_by_damage"] = tally
