"""Running TLC on the specifications in /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        if not m:
            m = re.search(r"(\d+) states checked", out) or re.search(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = self.distinct = int(m.group(1))
        v = re.search(r"Invariant (\S+) is violated|Temporal properties were violated|Action property (\S+) is violated|"
                      r"Deadlock reached|The postcondition (\S+)", out)
        self.violated = None
        if v:
            self.violated = v.group(1) or v.group(2) or ("Deadlock" if "Deadlock" in v.group(0) else
                                                          ("Temporal" if "Temporal" in v.group(0) else v.group(0)))
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.coverage = dict()
        for a, d, g in re.findall(r"<(\w+) line [^>]*>: (\d+):(\d+)", out):
            self.coverage[a] = (int(d), int(g))

    def prints(self, tag):
        """Values printed with PrintT(<<tag, ToJson(x)>>)."""
        out = []
        for line in self.out.splitlines():
            pre = '<<"%s", "' % tag
            if line.startswith(pre) and line.endswith('">>'):
                body = line[len(pre):-3]
                out.append(json.loads(json.loads('"' + body + '"')))
        return out


def run(module, cfg=None, constants=None, env=None, workers=4, timeout=300, heap="3g", args=(), depth_first=False,
        cfg_text=None, workdir=None):
    """Run TLC on spec/<module>.tla; the configuration is spec/<cfg>.cfg with `constants` overriding its own."""
    tmp = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), tmp)
        text = cfg_text if cfg_text is not None else open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
        for k, v in (constants or {}).items():
            v = str(v)
            v = v if v.startswith("<-") else "= " + v
            pat = re.compile(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*(=|<-).*$" % re.escape(k))
            if pat.search(text):
                text = pat.sub(lambda m: m.group(1) + "%s %s" % (k, v), text)
            else:
                text += "\nCONSTANT %s %s\n" % (k, v)
        with open(os.path.join(tmp, "run.cfg"), "w") as f:
            f.write(text)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + tmp]
        if depth_first:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers), "-metadir",
                os.path.join(tmp, "meta"), "-noTE"] + list(args) + [module + ".tla"]
        t = time.time()
        # TLC has been seen to stop making progress (once in thousands of runs): try once more, differently
        for last, limit in ((False, timeout if timeout > 400 else timeout * 0.4), (True, timeout)):
            try:
                p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=limit)
                break
            except subprocess.TimeoutExpired as x:
                o = x.stdout or b""
                if isinstance(o, bytes):
                    o = o.decode("utf8", "replace")
                if last:
                    raise TlcError("TLC timed out after %ss on %s\n%s" % (limit, module, o[-2000:]))
                shutil.rmtree(os.path.join(tmp, "meta"), ignore_errors=True)
                i = cmd.index("-workers") + 1
                cmd[i] = "1"
        return Result(p.returncode, p.stdout, time.time() - t)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def brief(out, n=2500):
    """The interesting part of TLC's output."""
    i = out.find("Error:")
    j = out.find("*** Errors")
    if j >= 0 and (i < 0 or j < i):
        i = j
    return out[i if i >= 0 else max(0, len(out) - n):][:n]


def check(module, cfg=None, expect=None, **kw):
    """Exhaustive check. expect: None (must hold) or the name of what has to be violated (a deliberately broken
    variant of the design, which shows that the property is not vacuous)."""
    r = run(module, cfg, **kw)
    if expect is None:
        if r.rc != 0:
            raise TlcError("the specification %s (%s) fails:\n%s" % (module, cfg, brief(r.out)))
    else:
        if r.rc == 0 or r.violated is None or (expect is not True and r.violated not in
                                              (expect if isinstance(expect, (list, tuple)) else [expect])):
            raise TlcError("the broken variant of %s (%s %s) is not caught as %s but %s:\n%s" %
                           (module, cfg, kw.get("constants"), expect, r.violated, brief(r.out)))
    return r


def evaluate(cases, module="Conf", workers=4, timeout=300, heap="3g", depth=0):
    """Let TLC decide for every recorded case whether the specification allows it.
    Returns (list of indices that are not allowed, Result)."""
    if not cases:
        return [], None
    fd, path = tempfile.mkstemp(prefix="cases-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(cases, f)
        r = run(module, env={"CASES": path}, workers=workers, timeout=timeout, heap=heap)
    finally:
        os.unlink(path)
    if r.rc != 0:
        if re.search(r"Attempted to|evaluating|Evaluating", r.out) and not re.search(r"OutOfMemory|StackOverflow|Java heap", r.out):
            # a case the specification is not defined on (say, a field is a number where it has to be a list)
            if len(cases) == 1 and depth:
                return [0], r
            if depth < 12:
                h = (len(cases) + 1) // 2
                halves = [evaluate(x, module, workers, timeout, heap, depth + 1) for x in (cases[:h], cases[h:]) if x]
                bad = halves[0][0] + [h + i for _b, _ in halves[1:] for i in _b]
                if len(bad) == len(cases) > 1 and not depth:
                    raise TlcError("TLC cannot evaluate any recorded case:\n%s" % brief(r.out))
                last = halves[-1][1]
                last.distinct, last.generated = sum(x.distinct for _, x in halves), sum(x.generated for _, x in halves)
                return bad, last
        raise TlcError("TLC failed to evaluate the recorded cases (%d):\n%s" % (r.rc, brief(r.out)))
    bad = sorted(int(x) - 1 for x in re.findall(r'<<"BAD", (\d+)', r.out))
    m = re.search(r'<<"JUDGED", (\d+)>>', r.out)
    good = len(re.findall(r'<<"OK", ', r.out))
    if r.distinct != 2 * len(cases):
        raise TlcError("TLC judged %d states for %d cases\n%s" % (r.distinct, len(cases), brief(r.out)))
    return bad, r


class Background(threading.Thread):
    def __init__(self, f, *a, **k):
        super().__init__(daemon=True)
        self.f, self.a, self.k = f, a, k
        self.value = self.error = None
        self.start()

    def run(self):
        try:
            self.value = self.f(*self.a, **self.k)
        except BaseException as e:  # noqa
            self.error = e

    def get(self):
        self.join()
        if self.error:
            raise self.error
        return self.value
