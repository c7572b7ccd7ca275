"""Ways in which an input can be damaged."""
import os
import zlib

from . import build

# lines that are not JSON objects with a string or null text
BAD_LINES = [
    b'{"text": 5}\n', b'{"text": {}}\n', b'{"text": ["a"]}\n', b'{"text": true}\n', b'{"text": 1.5e3}\n',
    b'5\n', b'"a b"\n', b'null\n', b'["x", "a"]\n', b'true\n', b'[]\n',
    b'["a b c"]\n', b' \t[null]\n', b'[{"text": "a"}]\n',
    b'\n', b' \n', b'\r\n', b'{"text": "a"\n', b'{"text": "a}\n', b'{"text": "a", }\n', b"{'text': 'a'}\n",
    b'{text: "a"}\n', b'{"text": "a"} x\n', b'{"text": "a"}{"text": "b"}\n', b'{"text": "a"},\n', b'{"text" "a"}\n',
    b'{"text": nul}\n', b'{"text": "a\\x"}\n', b'{"text": "a\\u12"}\n', b'{"text": "a\tb"}\n', b'a b c\n', b'{\n', b'}\n',
    b'{"text": "a", "n": 01}\n', b'{"text": "a", "n": NaN}\n', b'{"text": "a" "b": 1}\n', b'\x00\n',
    b'{"text": "a"}\x00\n', b'// {"text": "a"}\n', b'{"text": undefined}\n', b'{"text": "a", "b": [1, 2}\n',
]
# not UTF-8
BAD_UTF8 = [
    b'{"text": "a \xff b"}\n', b'{"text": "\xc3"}\n', b'{"text": "\xed\xa0\x80"}\n', b'{"text": "\xc0\xaf"}\n',
    b'{"text": "a", "x": "\xf8\x88\x80\x80\x80"}\n', b'\xff\xfe{"text": "a"}\n', b'{"text": "\xe4\xb8"}\n',
    b'{"text": "\xf4\x90\x80\x80"}\n', b'{"\xe9": 1, "text": "a"}\n',
]
# valid lines; a proper beginning of one is not valid
CUT_LINES = [b'{"text": "a \\u00e9 b", "n": [1, true]}', '{"id": null, "text": "\u00e4 \u20ac \U0001f600"}'.encode()]
# accepted or not; nothing is said about them
DOUBT_LINES = [
    b'{"text": "a", "text": "b"}\n', b'{"text": "\\ud800"}\n', b'\xef\xbb\xbf{"text": "a"}\n', b'{"text": "a", "n": 1e999}\n',
    b'{"text": "a", "n": ' + b'[' * 200 + b']' * 200 + b'}\n',
]


def line_damage(rng):
    r = rng.random()
    if r < 0.65:
        return rng.choice(BAD_LINES), "bad"
    if r < 0.9:
        return rng.choice(BAD_UTF8), "bad"
    return rng.choice(DOUBT_LINES), "doubt"


def cut(rng, data, how):
    n = len(data)
    k = {"empty": 0, "header": rng.randint(1, min(9, n - 1)), "trailer": n - rng.randint(1, 8),
         "middle": rng.randint(10, max(10, n - 9)), "one": n - 1}[how]
    return data[:k]


def flip(rng, data, lo, hi):
    i = rng.randrange(lo, hi)
    return data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:]


# name -> (function of (rng, single member gzip data), verdict for "tail", verdict for "open")
GZ = {
    "empty file": (lambda r, d: b"", "bad"),
    "cut in the header": (lambda r, d: cut(r, d, "header"), "bad"),
    "cut in the data": (lambda r, d: cut(r, d, "middle"), "bad"),
    "cut in the trailer": (lambda r, d: cut(r, d, "trailer"), "bad"),
    "last byte missing": (lambda r, d: cut(r, d, "one"), "bad"),
    "bad magic": (lambda r, d: flip(r, d, 0, 2), "bad"),
    "bad method": (lambda r, d: d[:2] + b"\x07" + d[3:], "bad"),
    "changed data": (lambda r, d: flip(r, d, 10, len(d) - 9), "bad"),
    "wrong checksum": (lambda r, d: flip(r, d, len(d) - 8, len(d) - 4), "bad"),
    "wrong length": (lambda r, d: flip(r, d, len(d) - 4, len(d)), "bad"),
    "not compressed": (lambda r, d: zlib.decompress(d, 31) or b"\n", "bad"),
    "zlib instead of gzip": (lambda r, d: zlib.compress(zlib.decompress(d, 31)), "bad"),
    "noise": (lambda r, d: bytes(r.randrange(256) for _ in range(64)), "bad"),
    "second member cut": (lambda r, d: d + d[:r.randint(1, len(d) - 1)], "bad"),
    "garbage after the end": (lambda r, d: d + r.choice([b"x", b"\n", b"\x00" * 16, b"garbage" * 10]), "doubt"),
    "other modification time": (lambda r, d: flip(r, d, 4, 8), "ok"),
    "other operating system": (lambda r, d: d[:9] + bytes([r.randrange(256)]) + d[10:], "ok"),
}


def fault_env(rules, log=None):
    e = {"LD_PRELOAD": build.get("fault"), "WFAULT": ";".join(rules)}
    if log:
        e["WFAULT_LOG"] = log
    return e


# name -> (rule format, verdict); the rule is applied to one path
IO = {
    "cannot be opened": ("%s,open,1,999999,13", "open:bad"),
    "cannot be opened in the second pass": ("%s,open,2,999999,5", "pass2"),
    "unreadable from the start": ("%s,read@0,1,999999,5", "tail:bad"),
    "unreadable at the end": ("%s,read@END,1,999999,5", "tail:bad"),
    "unreadable in the middle": ("%s,read@MID,1,999999,5", "tail:bad"),
    "unreadable in the second pass": ("%s,read@MID,2,999999,5", "pass2"),
    "ends early": ("%s,eof@MID,1,999999,0", "tail:bad"),
    "interrupted reads": ("%s,intr,1,999999,0", "ok"),
    "one byte per read": ("%s,short,1,999999,1", "ok"),
    "few bytes per read": ("%s,short,1,999999,7", "ok"),
}


def io_rule(rng, name, path):
    n = os.path.getsize(path)
    fmt = IO[name][0].replace("MID", str(rng.randint(1, max(1, n - 1)))).replace("END", str(max(0, n - 1)))
    return fmt % os.path.basename(path)
