"""Points at which a run can be held, ended or delayed from outside.

PVGATE   path of the controller's socket; every point reports itself and waits for permission
PVJITTER maximal random delay in milliseconds instead
PVCOUNT  a file in which the points are counted; at number PVKILL the run is killed, at PVINT it is interrupted, at
         PVFAIL the operation fails
"""
import fcntl
import json
import os
import random
import signal
import socket
import threading
import time

_tls = threading.local()
_name = {}


def count():
    """The number of this point among those of all processes of the run."""
    fd = os.open(os.environ["PVCOUNT"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    fcntl.flock(fd, fcntl.LOCK_EX)
    os.write(fd, b".")
    n = os.fstat(fd).st_size
    os.close(fd)
    return n


def gate(point, **info):
    if os.environ.get("PVCOUNT"):
        n = count()
        if n == int(os.environ.get("PVKILL", "0")):
            os.killpg(os.getpgrp(), signal.SIGKILL)
        if n == int(os.environ.get("PVINT", "0")):
            raise KeyboardInterrupt
        if n == int(os.environ.get("PVFAIL", "0")):
            raise OSError(28, "No space left on device")
        return
    path = os.environ.get("PVGATE")
    if path:
        if getattr(_tls, "pid", None) != os.getpid():
            s = socket.socket(socket.AF_UNIX)
            s.connect(path)
            _tls.pid, _tls.sock = os.getpid(), s.makefile("rwb", buffering=0)
        msg = dict(info, pid=os.getpid(), tid=threading.get_native_id(), point=point)
        try:
            _tls.sock.write(json.dumps(msg).encode() + b"\n")
            ans = _tls.sock.readline()
        except OSError:
            return
        if ans.strip() == b"exit":
            os._exit(99)
        if ans.strip() == b"raise":
            raise OSError(28, "No space left on device")
        return
    j = os.environ.get("PVJITTER")
    if j:
        r = random.random()
        if r < 0.7:
            time.sleep(float(j) / 1000 * random.random())
