"""What every check shares: seeds, evidence, violations, known findings, exit codes."""
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = os.cpu_count() or 4


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.cov = {"models": [], "rules": []}
        self.violations = []
        self.assumptions = []
        self.known_hits = []
        self.pending = []
        self.models = []
        self.scratch = tempfile.mkdtemp(prefix="wimbd-%s-" % pid)
        self.replay_dir = os.path.join(VERIF, "build", "replay", pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        os.makedirs(self.replay_dir, exist_ok=True)
        self.known = load_known(pid)
        self.notes = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- the specification itself

    def model(self, module, cfg=None, expect=None, **kw):
        """Model check (in the background) a protocol specification."""
        kw.setdefault("workers", 2)
        kw.setdefault("timeout", 800 if self.thorough else 400)
        self.models.append((module, cfg, expect, kw.get("constants"),
                            tlc.Background(tlc.check, module, cfg, expect, **kw)))

    def join_models(self):
        for module, cfg, expect, consts, bg in self.models:
            r = bg.get()
            self.states += r.distinct
            self.transitions += r.generated
            self.cov["models"].append({"module": module, "cfg": cfg or module, "constants": consts or {},
                                       "expected_violation": expect, "states": r.distinct,
                                       "transitions": r.generated, "wall_s": round(r.wall, 1)})
        self.models = []

    # ---- conformance of recorded behaviour

    def judge(self, case, what=None, replay=None):
        """Queue a recorded case; TLC decides in `flush` whether the specification allows it."""
        self.pending.append((case, what, replay))

    def flush(self, recheck=None, **kw):
        """recheck(case, what, replay) -> bool: may withdraw a rejection (e.g. a hash collision)."""
        if not self.pending:
            return
        uniq, index = {}, []
        for case, what, replay in self.pending:
            k = json.dumps(case, sort_keys=True)
            if k not in uniq:
                uniq[k] = len(index)
                index.append((case, what, replay))
        bad, r = tlc.evaluate([_clip(c) for c, _, _ in index], **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.validated += len(self.pending)
        confirmed = 0
        for i in bad:
            case, what, replay = index[i]
            if confirmed >= 5:
                break          # enough to report
            if recheck is not None and confirmed == 0 and recheck(case, what, replay):
                self.notes.append("withdrawn after recheck: %s" % (what,))
                continue
            confirmed += self.violation(what or "the recorded case is not allowed by the specification",
                           {"case": case, "replay": replay.show() if hasattr(replay, "show") else replay})
        if len(self.samples) < 6:
            sized = sorted((c for c, _, _ in index), key=lambda c: abs(len(json.dumps(c)) - 900))
            self.samples += [{"judged by the specification": _short(c)} for c in sized[:2]]
        self.pending = []

    def accept(self, n=1, sample=None):
        """Count traces that were compared with what the specification generated for them."""
        self.validated += n
        if sample is not None and len(self.samples) < 6:
            self.samples.append(_short(sample))

    def violation(self, what, data):
        for k in self.known:
            if re.search(k["match"], what):
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return 0
        path = os.path.join(self.replay_dir, "%03d.json" % len(self.violations))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "data": data, "seed": self.seed}, f, indent=1, default=str)
        self.violations.append((what, path))
        return 1

    def finish(self):
        ev = {
            "property": self.pid,
            "tier": "thorough" if self.thorough else "quick",
            "seed": self.seed,
            "level": self.level,
            "coverage": dict(self.cov, states=self.states, transitions=self.transitions,
                             traces_validated_against_impl=self.validated,
                             samples=self.samples or ["none"]),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes[:20]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for what, path in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + what[:600])
        if self.violations:
            return 1
        print("OK property=%s states=%d transitions=%d validated=%d wall=%.1fs" %
              (self.pid, self.states, self.transitions, self.validated, time.time() - self.t0))
        return 0


def _clip(x):
    """TLC's integers have 32 bits: what does not fit is replaced by a number that no input leads to."""
    if isinstance(x, dict):
        return {k: _clip(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_clip(v) for v in x]
    if isinstance(x, float):
        return int(x) if abs(x) < 2000000000 and x == int(x) else -1999999999
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) > 2147483647:
        return -1999999999
    return x


def _short(x):
    s = json.dumps(x, default=str)
    if len(s) <= 1500:
        return x
    return s[:1500] + "..."


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", line)
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


def pmap(f, xs, n=None):
    xs = list(xs)
    ex = ThreadPoolExecutor(max_workers=n or NCPU)
    try:
        return list(ex.map(f, xs))
    finally:
        ex.shutdown(wait=False, cancel_futures=True)


class OutOfTime(Exception):
    pass


def _alarm(*_):
    raise OutOfTime("the check takes too long")


def main(pid, func, level="model_checking"):
    c = Check(pid, level)
    rc = 2
    if not c.thorough:
        # code that hangs everywhere: report what has been found so far
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(760)
    try:
        func(c)
        signal.alarm(0)
        c.flush()
        c.join_models()
        rc = c.finish()
    except SystemExit:
        raise
    except BaseException:
        signal.alarm(0)
        if not c.violations and c.pending:
            # what was recorded before may say why
            where = traceback.format_exc()
            try:
                c.flush()
            except Exception:
                traceback.print_exc()
            print(where, file=sys.stderr)
        if c.violations:
            # something else went wrong after a violation had been established
            traceback.print_exc()
            rc = c.finish()
        else:
            traceback.print_exc()
            print("ERROR property=%s the check itself failed" % pid)
            rc = 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)          # without waiting for threads
