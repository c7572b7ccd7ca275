"""What the commands print without --json, turned into the records they print with it."""
import re

ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}


def unquote(s):
    """A string as Rust's {:?} shows it."""
    if len(s) < 2 or s[0] != '"' or s[-1] != '"':
        raise ValueError(s)

    def f(m):
        return chr(int(m.group(2), 16)) if m.group(2) else ESC.get(m.group(3), m.group(3))
    return re.sub(r"\\(u\{([0-9a-f]+)\}|(.))", f, s[1:-1])


def number(s):
    if not re.fullmatch(r"\d{1,3}(,\d{3})*", s):
        raise ValueError(s)
    return int(s.replace(",", ""))


def lines(out):
    t = out.out.decode("utf8")
    if t and not t.endswith("\n"):
        raise ValueError("unfinished line")
    return t.split("\n")[:-1]


def records(cmd, out, listing=()):
    """Raises ValueError for anything that is not in the form the command prints."""
    ls = lines(out)
    if cmd == "unique":
        m = re.fullmatch(r"Estimated number of unique ngrams: (\d+)", "\n".join(ls))
        if not m:
            raise ValueError(ls[:3])
        return [{"unique_count": int(m.group(1))}]
    if cmd == "stats":
        names = {"total tokens": "total_tokens", "total documents": "total_documents", "total bytes": "total_bytes",
                 "max tokens per document": "document_max_tokens", "min tokens per document": "document_min_tokens"}
        r = {"max_token_documents": [], "min_token_documents": []}
        where = None
        for l in ls:
            if l.endswith("token documents:"):
                where = r[l[:3] + "_token_documents"]
                continue
            m = re.fullmatch(r'  - path: (".*")', l)
            if m:
                where.append({"path": unquote(m.group(1))})
                continue
            m = re.fullmatch(r"    (line|tokens): (\d+)", l)
            if m:
                where[-1]["line" if m.group(1) == "line" else "num_tokens"] = int(m.group(2))
                continue
            k, v = l.rsplit(": ", 1)
            if names[k] in r:
                raise ValueError(l)
            r[names[k]] = number(v)
        return [r]
    recs = []
    for l in ls:
        m = re.fullmatch(r" \u2192 \[(.*), line (\d+), (\d+) matches\] (\".*\")", l)
        if m and cmd == "search":
            recs[-1].setdefault("matches", {}).setdefault(m.group(1), []).append(
                {"line_num": int(m.group(2)), "text": unquote(m.group(4)), "submatches": int(m.group(3))})
            continue
        m = re.fullmatch(r'\[(\d+)/(\d+)\] (".*") \(count ([=\u2264]) (\d+)\)', l)
        if not m or (m.group(4) == "=") != (cmd in ("count", "search") or cmd == "botk" and int(m.group(5)) <= 1):
            raise ValueError(l)
        s = unquote(m.group(3))
        r = {"count": int(m.group(5)), "rank": int(m.group(1)), "string": s, "tokens": s.split(" "), "pattern": s, "of": int(m.group(2))}
        recs.append(r)
    for i, r in enumerate(recs):
        if r["rank"] != i + 1 or r["of"] != len(recs):
            raise ValueError("numbering")
    return recs
