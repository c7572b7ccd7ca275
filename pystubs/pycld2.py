"""The language is what the text says: "lang=xx" (reliable), "maybe=xx" (not reliable), "broken" (error)."""
import re


class error(Exception):
    pass


def detect(text, *a, **k):
    if "broken" in text:
        raise error("input contains invalid UTF-8")
    m = re.search(r"(lang|maybe)=(\w+)", text)
    code = m.group(2) if m else "un"
    return bool(m and m.group(1) == "lang"), len(text), ((code.upper(), code, 100, 1.0),) * 3
