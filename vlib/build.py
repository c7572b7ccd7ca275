"""Build what the checks run from /repo's current working tree.

Three things are built below /verif/build (git-ignored):
  real   the unmodified binary,
  sched  the same source with its `std` replaced by /verif/shim/shimstd (see DESIGN.md),
  driver /verif/driver linked against the library built either way.
The sources are copied into build/pkg only where their content differs, so that cargo notices every
change (whatever its mtime) and nothing else.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(
        RUSTUP_TOOLCHAIN="stable",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="0",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
    )
    e.pop("CARGO_TARGET_DIR", None)
    return e


def _sync(src, dst):
    """Mirror src to dst, rewriting only what differs."""
    keep = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            a, b = os.path.join(root, f), os.path.normpath(os.path.join(dst, rel, f))
            keep.add(b)
            data = open(a, "rb").read()
            if not os.path.exists(b) or open(b, "rb").read() != data:
                with open(b, "wb") as out:
                    out.write(data)
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.join(root, f))
            if p not in keep:
                os.remove(p)


def _write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def _sections(toml):
    out, cur = [], ("", [])
    for line in toml.splitlines():
        m = re.match(r"\s*(\[+)([^\]]+)\]+\s*$", line)
        if m:
            out.append(cur)
            cur = (m.group(2).strip(), [])
            cur[1].append(line)
        else:
            cur[1].append(line)
    out.append(cur)
    return out


def _manifest(name, shim):
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    out = []
    for sec, lines in _sections(toml):
        if sec in ("dev-dependencies", "workspace") or sec.startswith("profile"):
            continue
        if sec == "bench" or sec == "test" or sec == "example":
            continue
        text = "\n".join(lines)
        text = re.sub(r'path\s*=\s*"src/', 'path = "../pkg/src/', text)
        text = re.sub(r'(?m)^readme\s*=.*$', "", text)
        if sec == "dependencies" and shim:
            text = re.sub(r"(?m)^threadpool\s*=.*$", 'threadpool = { path = "%s/shim/threadpool" }' % VERIF, text)
            text += '\nstd = { package = "shimstd", path = "%s/shim/shimstd" }\n' % VERIF
        out.append(text)
    out.append("[workspace]\n")
    if not any(s == "lib" for s, _ in _sections(toml)):
        out.append('[lib]\nname = "wimbd"\npath = "../pkg/src/lib.rs"\n')
    if not any(s == "bin" for s, _ in _sections(toml)):
        out.append('[[bin]]\nname = "wimbd"\npath = "../pkg/src/main.rs"\n')
    return "\n".join(out)


def _driver_manifest(dep, shim):
    std = 'std = { package = "shimstd", path = "%s/shim/shimstd" }\n' % VERIF
    return (
        '[package]\nname = "driver"\nversion = "0.1.0"\nedition = "2021"\n'
        '[[bin]]\nname = "driver"\npath = "%s/driver/src/main.rs"\n' % VERIF
        + '[dependencies]\nwimbd = { path = "../%s", default-features = false }\n' % dep
        + 'atomic-traits = "0.3"\nserde_json = "1.0"\nanyhow = "1.0"\nflate2 = "1.0"\n'
        + (std if shim else "")
        + "[features]\nshim = []\n[workspace]\n"
    )


def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        if os.path.isdir(p):
            for root, dirs, files in sorted(os.walk(p)):
                dirs.sort()
                for f in sorted(files):
                    q = os.path.join(root, f)
                    h.update(os.path.relpath(q, REPO).encode() + b"\0" + open(q, "rb").read() + b"\0")
        elif os.path.exists(p):
            h.update(base.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()[:16]


def prepare():
    os.makedirs(BUILD, exist_ok=True)
    _sync(os.path.join(REPO, "src"), os.path.join(BUILD, "pkg", "src"))
    _write(os.path.join(BUILD, "real", "Cargo.toml"), _manifest("real", False))
    _write(os.path.join(BUILD, "sched", "Cargo.toml"), _manifest("sched", True))
    _write(os.path.join(BUILD, "driver-real", "Cargo.toml"), _driver_manifest("real", False))
    _write(os.path.join(BUILD, "driver-sched", "Cargo.toml"), _driver_manifest("sched", True))
    for d in ("real", "sched", "driver-real", "driver-sched"):
        lock = os.path.join(BUILD, d, "Cargo.lock")
        base = os.path.join(REPO, "Cargo.lock")
        mark = os.path.join(BUILD, d, "lock.base")
        if os.path.exists(base):
            want = open(base).read()
            if not os.path.exists(mark) or open(mark).read() != want:
                shutil.copy(base, lock)
                _write(mark, want)


_done = {}


def cargo(which, args, target):
    """Returns the build log; raises BuildError when it fails."""
    t = time.time()
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(BUILD, which, "Cargo.toml"),
           "--target-dir", os.path.join(BUILD, target)] + args
    r = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s: %s" % (" ".join(cmd), r.stdout[-4000:]))
    return time.time() - t


def get(which):
    """which: real | sched | driver-real | driver-sched. Returns the path of the executable."""
    if which in _done:
        if isinstance(_done[which], Exception):
            raise _done[which]
        return _done[which]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            prepare()
            if which == "real":
                cargo("real", ["--bin", "wimbd"], "t-real")
                p = os.path.join(BUILD, "t-real", "debug", "wimbd")
            elif which == "sched":
                cargo("sched", ["--bin", "wimbd"], "t-sched")
                p = os.path.join(BUILD, "t-sched", "debug", "wimbd")
            elif which == "driver-real":
                cargo("driver-real", [], "t-real")
                p = os.path.join(BUILD, "t-real", "debug", "driver")
            elif which == "driver-sched":
                cargo("driver-sched", ["--features", "shim"], "t-sched")
                p = os.path.join(BUILD, "t-sched", "debug", "driver")
            elif which == "fault":
                p = os.path.join(BUILD, "libfault.so")
                src = os.path.join(VERIF, "shim", "fault.c")
                if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
                    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", p + ".tmp", src, "-ldl", "-lpthread"],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode != 0:
                        raise BuildError(r.stdout)
                    os.replace(p + ".tmp", p)
            else:
                raise BuildError("unknown target " + which)
        except BuildError as e:
            _done[which] = e
            raise
    _done[which] = p
    return p


if __name__ == "__main__":
    for w in sys.argv[1:]:
        t = time.time()
        print(w, get(w), "%.1fs" % (time.time() - t))
