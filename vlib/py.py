"""Running the Python parts of the repository: with stand-ins for the packages that are not installed
(/verif/pystubs) and with control over the points at which their processes act."""
import collections
import json
import os
import random
import selectors
import shutil
import socket
import subprocess
import tempfile
import threading
import time

from .build import REPO, VERIF
from .wimbd import Out

STUBS = os.path.join(VERIF, "pystubs")
WIMBD = os.path.join(REPO, "wimbd")


def env(scratch, **extra):
    e = {k: v for k, v in os.environ.items() if k in ("HOME", "LANG", "LC_ALL", "TERM", "USER")}
    e.update(
        PATH=os.path.join(STUBS, "bin") + ":" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        PYTHONPATH=STUBS + ":" + REPO,
        PYTHONDONTWRITEBYTECODE="1",
        TEXT_AND_URL_OVERLAPS=os.path.join(WIMBD, "text_and_url_overlaps"),
        TMPDIR=scratch,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    e.setdefault("LANG", "C.UTF-8")
    e.update({k: str(v) for k, v in extra.items()})
    return e


def run(args, scratch, cwd=None, stdin=None, timeout=60, extra=None):
    """args: command line; the first item may be a path below wimbd/ ending in .py."""
    args = [str(a) for a in args]
    if args[0].endswith(".py"):
        args = ["python", os.path.join(WIMBD, args[0])] + args[1:]
    elif args[0].endswith(".sh"):
        args = ["bash", os.path.join(WIMBD, args[0])] + args[1:]
    e = env(scratch, **(extra or {}))
    p = subprocess.Popen(args, cwd=cwd or scratch, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, err = p.communicate(stdin, timeout=timeout)
        return Out(p.returncode, o, err)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, err = p.communicate()
        return Out(-9, o, err, timed_out=True)


class Act(collections.namedtuple("Act", "key word")):
    """An entry of an order at which something else happens than that the process continues."""


class Controller(threading.Thread):
    """Lets the processes of a run pass their points one at a time, in a given order.

    order: keys (see `key`); an entry whose process does not arrive within `patience` seconds is skipped, because
    it waits for another process. When the order is used up, the processes continue in random order.
    stop: {number of passed points: "exit"} ends the process that is let through as that one."""

    def __init__(self, scratch, order, key=lambda m, state: m.get("file"), seed=0, patience=0.08, exit_at=None, expect=1):
        super().__init__(daemon=True)
        self.dir = tempfile.mkdtemp(prefix="g", dir=scratch)
        self.path = os.path.join(self.dir, "s")
        if len(self.path) > 100:
            shutil.rmtree(self.dir)
            self.dir = tempfile.mkdtemp(prefix="wg-")
            self.path = os.path.join(self.dir, "s")
        self.order, self.keyf, self.patience = list(order), key, patience
        self.rng = random.Random(seed)
        self.exit_at = exit_at
        self.expect = expect           # processes to wait for at first
        self.trace = []
        self.srv = socket.socket(socket.AF_UNIX)
        self.srv.bind(self.path)
        self.srv.listen(64)
        self.ending = False
        self.start()

    def run(self):
        sel = selectors.DefaultSelector()
        sel.register(self.srv, selectors.EVENT_READ)
        bufs, waiting, keys = {}, {}, {}
        last = None                    # the process that was let through and has not come back
        t_last = time.time()
        while not self.ending:
            for k, _ in sel.select(0.01):
                if k.fileobj is self.srv:
                    c, _ = self.srv.accept()
                    sel.register(c, selectors.EVENT_READ)
                    bufs[c] = b""
                else:
                    c = k.fileobj
                    try:
                        d = c.recv(4096)
                    except OSError:
                        d = b""
                    if not d:
                        sel.unregister(c)
                        c.close()
                        waiting.pop(c, None)
                        if last is c:
                            last = None
                        continue
                    bufs[c] += d
                    if b"\n" in bufs[c]:
                        line, bufs[c] = bufs[c].split(b"\n", 1)
                        m = json.loads(line)
                        key = self.keyf(m, keys.get(c))
                        keys[c] = key if key is not None else keys.get(c)
                        waiting[c] = (keys[c], m)
                        if last is c:
                            last = None
            if not self.trace and len(waiting) < self.expect and time.time() - t_last < 5:
                continue
            if last is not None and time.time() - t_last < self.patience:
                continue
            last = None
            if not waiting:
                t_last = time.time()
                continue
            c, word = None, b"go\n"
            if self.order:
                want, w = self.order[0] if isinstance(self.order[0], Act) else (self.order[0], "go")
                c = next((x for x, (k, _) in waiting.items() if k == want), None)
                if c is None:
                    if time.time() - t_last < self.patience:
                        continue
                    if w == "exit":
                        c = next(iter(waiting))
                    else:
                        self.order.pop(0)
                        t_last = time.time()
                        continue
                self.order.pop(0)
                word = w.encode() + b"\n"
            else:
                c = self.rng.choice(sorted(waiting, key=lambda x: str(waiting[x][0])))
            k, m = waiting.pop(c)
            self.trace.append((k, m["point"]))
            if self.exit_at == len(self.trace):
                word = b"exit\n"
            try:
                c.sendall(word)
                last, t_last = c, time.time()
            except OSError:
                pass
        for c in bufs:
            try:
                c.close()
            except OSError:
                pass
        self.srv.close()

    def close(self):
        self.ending = True
        self.join(2)
        shutil.rmtree(self.dir, ignore_errors=True)
