"""Scenarios: options, running a subcommand on a data set and turning what it reports into a case for the
specification (spec/Conf.tla)."""
import json
import os

from . import human, wimbd
from .wimbd import Doc

MIB = 1 << 20


class Scen:
    """A data set, a command with options, and how to run it."""

    def __init__(self, cmd, data, rng=None, **o):
        self.cmd, self.data, self.o = cmd, data, o
        if rng is not None:
            self.randomize(rng)

    # ---- options

    def get(self, k, d=None):
        return self.o.get(k, d)

    def randomize(self, rng):
        """Fill in what the scenario leaves open."""
        o = self.o
        simple = all(d.mult == 1 for f in self.data.files for d in f)
        if "limit" not in o:
            o["limit"] = rng.choice([0, 1, 2, 3, 4]) if simple and rng.random() < 0.25 else None
        if "flimit" not in o:
            o["flimit"] = rng.choice([int(self.cmd in ("count", "search")), 1, 1, 1, 2, 2, 3]) if rng.random() < 0.2 else None
        o.setdefault("workers", rng.choice([1, 2, 3, 4, 8, 16, 33, 64, None]))
        o.setdefault("quiet", rng.random() < 0.5)
        o.setdefault("dir", rng.random() < 0.2)
        if self.cmd in ("topk", "botk", "unique"):
            o.setdefault("n", rng.choice([1, 1, 2, 2, 3, 3, 4, 6]))
            o.setdefault("hashes", rng.choice([1, 2, 3, 5, 5, 8, 16]))
            o.setdefault("seed", rng.choice([0, 1, 42, 2 ** 32 + 5, 2 ** 63, 2 ** 64 - 1]) if rng.random() < 0.5 else None)
        if self.cmd in ("topk", "botk"):
            o.setdefault("k", rng.choice([1, 2, 3, 4, 5, 8, 20, 300]))
            o.setdefault("thr", rng.choice([None, None, 0, 1, 2, 3, 4, 6, 10, 1000]))
            # also sizes of tables that are no powers of two, or just above one
            o.setdefault("size", rng.choice([MIB, MIB, 1000000, 524292, 524296, 3000000]))
        if self.cmd == "topk":
            o.setdefault("u64", rng.random() < 0.25)
        if self.cmd == "unique":
            o.setdefault("size", MIB)

    def args(self, extra=()):
        o = self.o
        a = [self.cmd]
        if o.get("dir"):
            a.append(self.data.dir)
        else:
            a += [self.data.paths[i] for i in self.listing()]
        if self.cmd in ("topk", "botk", "unique"):
            a += ["-n", o["n"], "--size", "%dB" % o["size"], "-h", o["hashes"]]
            if o.get("seed") is not None:
                a += ["--seed", o["seed"]]
        if self.cmd in ("topk", "botk"):
            a += ["-k", o["k"]]
            if o.get("thr") is not None:
                a += ["--threshold", o["thr"]]
        if o.get("pkeep") is not None:
            a += ["--p-keep", o["pkeep"]]
        if o.get("u64"):
            a.append("--u64")
        if o.get("limit") is not None:
            a += ["--limit", o["limit"]]
        if o.get("flimit") is not None:
            a += ["--file-limit", o["flimit"]]
        if o.get("workers") is not None:
            a += ["-j", o["workers"]]
        if o.get("tokenizer"):
            a += ["-t", o["tokenizer"]]
        for s in o.get("searches", ()):
            a += ["-s", s[0]]
        for p in o.get("patterns", ()):
            a += ["-p", p[0]]
        if self.cmd == "search" and o.get("locations"):
            a.append("--with-locations")
            if o.get("loclimit") is not None:
                a += ["--locations-limit", o["loclimit"]]
        if o.get("quiet") and not o.get("human"):
            a.append("-q")
        if not o.get("human"):
            a.append("--json")
        return [str(x) for x in a] + list(extra)

    def listing(self):
        """0-based indices of the files as listed on the command line (or found in the directory)."""
        l = self.o.get("listing")
        return list(range(len(self.data.paths))) if l is None else l

    # ---- running

    def run(self, policy=None, chan=None, extra=(), env=None, binary=None, timeout=90, args=None):
        e = dict(env or {})
        e.update(self.o.get("env", {}))
        if policy is not None:
            b = wimbd.sched_bin()
            if b is not None:
                binary = b
                e["WSCHED"] = policy
                e.setdefault("WSCHED_TIMEOUT_P", "0.02")
                if chan:
                    e["WSCHED_CHAN_CAP"] = chan
        return wimbd.run(args or self.args(extra), binary=binary, env=e, timeout=timeout)

    def describe(self, policy=None, chan=None):
        return {"args": self.args(), "policy": policy, "chan": chan, "files": self.data.dump(),
                "options": {k: v for k, v in self.o.items()}}

    # ---- what the specification is asked about

    def base(self, kind, expand=False):
        o = self.o
        c = self.data.case([i + 1 for i in self.listing()],
                           -1 if o.get("flimit") is None else wimbd.clip(o["flimit"]),
                           -1 if o.get("limit") is None else wimbd.clip(o["limit"]), expand=expand)
        c["kind"] = kind
        return c

    def cases(self, out, kinds=None):
        """Cases for a finished run, or a string saying what is wrong with its form."""
        if out.timed_out:
            return "the command did not terminate"
        if out.rc != 0:
            return "exit status %s although every file is fine" % out.rc
        if self.get("human"):
            try:
                recs = human.records(self.cmd, out)
            except (ValueError, KeyError, TypeError, IndexError, UnicodeDecodeError) as e:
                return "stdout does not have the form of results (%r)" % (e,)
            return self.cases_of(recs, kinds)
        recs = out.records()
        if recs is None:
            return "stdout is not one JSON object per line"
        return self.cases_of(recs, kinds)

    def cases_of(self, recs, kinds=None):
        o, v = self.o, self.data.vocab
        if self.cmd in ("topk", "botk"):
            kind = (kinds or [self.cmd])[0]
            if kind == "botk" and float(o.get("pkeep") or 1) < 1:
                kind = "botk-sampled"
            thr = o.get("thr")
            if thr is None:
                thr = 1 if self.cmd == "topk" else -1
            c = self.base(kind)
            c.update(n=wimbd.clip(o["n"]), k=wimbd.clip(o["k"]), thr=thr, out=wimbd.grams_out(recs, v, not o.get("tokenizer")))
            return [c]
        if self.cmd == "unique":
            if len(recs) != 1 or not isinstance(recs[0].get("unique_count"), int):
                return "malformed result"
            c = self.base("unique")
            c.update(n=wimbd.clip(o["n"]), out=wimbd.clip(recs[0]["unique_count"]))
            return [c]
        if self.cmd == "stats":
            if len(recs) != 1:
                return "not exactly one result"
            r = recs[0]
            try:
                paths = {self.data.paths[i]: x + 1 for x, i in reversed(list(enumerate(self.listing())))}

                def ptrs(l):
                    return [{"p": paths.get(d["path"], -1), "l": wimbd.clip(d["line"]), "n": wimbd.clip(d["num_tokens"])}
                            for d in l]
                out = {"tokens": wimbd.clip(r["total_tokens"]), "docs": wimbd.clip(r["total_documents"]),
                       "bytes": wimbd.clip(r["total_bytes"]), "max": wimbd.clip(r["document_max_tokens"]),
                       "min": wimbd.clip(r["document_min_tokens"]),
                       "maxdocs": ptrs(r["max_token_documents"]), "mindocs": ptrs(r["min_token_documents"])}
            except (KeyError, TypeError, AttributeError):
                return "malformed result"
            cs = []
            for kind in kinds or ["stats", "stats-lists"]:
                c = self.base(kind, expand=False)
                c["out"] = out
                cs.append(c)
            return cs
        if self.cmd == "count":
            c = self.base("count")
            searches = [v.seq(s[1]) for s in o["searches"]]
            out = []
            for r in recs:
                try:
                    ok = isinstance(r["string"], str) if o.get("tokenizer") else r["string"] == " ".join(r["tokens"])
                    out.append({"s": [v.ids.get(t, -1) for t in r["tokens"]] if ok else [-3], "c": wimbd.clip(r["count"])})
                except (KeyError, TypeError):
                    out.append({"s": [-2], "c": -1})
            c.update(searches=searches, out=out)
            return [c]
        if self.cmd == "search":
            from . import searching
            return searching.case(self, recs)
        raise ValueError(self.cmd)

    def judge(self, c, out, policy=None, chan=None, kinds=None):
        """Queue the run for judgement by the specification (or report it if it has no result at all)."""
        cs = self.cases(out, kinds)
        rep = {"scenario": self, "policy": policy, "chan": chan, "kinds": kinds}
        rep = Replay(self, policy, chan, kinds, out)
        if isinstance(cs, str):
            c.violation("%s: %s (policy %s)" % (self.cmd, cs, policy), rep.show())
            return
        for case in cs:
            c.judge(case, "%s reports something else than the specification allows (%s%s)" %
                    (self.cmd, case["kind"], ", schedule " + policy if policy else ""), rep)


class Replay:
    def __init__(self, scen, policy, chan, kinds, out):
        self.scen, self.policy, self.chan, self.kinds, self.out = scen, policy, chan, kinds, out

    def show(self):
        d = self.scen.describe(self.policy, self.chan)
        d["result"] = self.out.show()
        return d

    def __str__(self):
        return json.dumps(self.show(), default=str)


def recheck_other_seeds(c):
    """A rejected result that depends on hash values may be a collision: the property excludes those, so the run is
    repeated with other seeds and the rejection stands only if it stays."""
    from . import tlc

    def f(case, what, rep):
        s = rep.scen
        if s.cmd not in ("topk", "botk", "unique"):
            return False
        if s.o["hashes"] >= 3 and s.o["size"] >= MIB // 4 and s.cmd != "unique":
            return False
        old = s.o.get("seed")
        cases = []
        for seed in (101, 202, 303, 404):
            s.o["seed"] = seed
            out = s.run(rep.policy, rep.chan)
            cs = s.cases(out, rep.kinds)
            if isinstance(cs, str):
                s.o["seed"] = old
                return False
            cases += cs
        s.o["seed"] = old
        bad, _ = tlc.evaluate(cases)
        return len(bad) < len(cases)
    return f


def searches_for(rng, data, n=None):
    """Search strings (string, tokens): mostly token sequences that occur."""
    out, seen, total = [], set(), 0
    texts = [d.tokens for f in data.files for d in f if d.tokens]
    for _ in range(n or rng.choice([1, 1, 2, 3, 5])):
        r = rng.random()
        if texts and r < 0.8:
            t = rng.choice(texts)
            k = rng.choice([1, 1, 2, 2, 3, 4, len(t)])
            i = rng.randrange(max(1, len(t) - k + 1))
            s = t[i:i + k]
            if rng.random() < 0.1:
                s = [x.swapcase() if x.swapcase() != x and len(x.swapcase()) == len(x) else x for x in s]
        else:
            s = [rng.choice(wimbd.TOKENS) for _ in range(rng.choice([1, 2, 3]))]
        s = list(s)
        size = len(" ".join(s).encode("utf8", "replace"))
        if not s or tuple(s) in seen or s[0].startswith("-") or size > 100000 or total + size > 400000:
            continue    # (there is a limit to the length of arguments)
        total += size
        seen.add(tuple(s))
        out.append((" ".join(s), s))
    if not out:
        out = [("a", ["a"])]
    return out
