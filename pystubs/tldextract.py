"""Suffixes from a short list of public suffixes (the real package has the full one)."""
import collections
import re

SUFFIXES = {"com", "org", "net", "de", "uk", "co.uk", "ac.uk", "io", "com.au", "au", "jp", "co.jp", "edu", "gov"}
Result = collections.namedtuple("Result", "subdomain domain suffix")


def extract(url):
    host = re.sub(r"^([a-zA-Z][a-zA-Z0-9+.-]*:)?//", "", url)
    host = re.split(r"[/?#]", host)[0].rpartition("@")[2].partition(":")[0].rstrip(".").lower()
    labels = host.split(".") if host else []
    for i in range(len(labels)):
        if ".".join(labels[i:]) in SUFFIXES:
            return Result(".".join(labels[:max(0, i - 1)]), labels[i - 1] if i else "", ".".join(labels[i:]))
    return Result(".".join(labels[:-1]), labels[-1] if labels else "", "")
