"""Talking to /verif/driver, which calls the library."""
import json
import subprocess

from . import build


def have_sched():
    try:
        return build.get("driver-sched")
    except build.BuildError:
        build.get("driver-real")
        return None


class DriverError(Exception):
    pass


def call(cmds, shim=False, timeout=600, env=None):
    """Send JSON commands, return the answers. A crash of the driver yields {"crash": ...} for the command."""
    b = have_sched() if shim else None
    b = b or build.get("driver-real")
    out, todo = [], list(cmds)
    while todo:
        data = "".join(json.dumps(c) + "\n" for c in todo)
        try:
            p = subprocess.run([b], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, env=env)
            got, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            got, rc = e.stdout or b"", "timeout"
        ans = [json.loads(x) for x in got.decode().split("\n")[:-1]]
        out += ans
        todo = todo[len(ans):]
        if todo:
            out.append({"crash": str(rc)})
            todo = todo[1:]
    return out
