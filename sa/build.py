"""Builds the MIR driver (once) and dumps /repo's current tree; nothing is run from /repo."""
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
        if rc:
            raise BuildError("no nightly rustc: " + out)
        _sysroot = out.strip()
    return _sysroot


def driver():
    exe = os.path.join(BUILD, "drv", "release", "mirdump")
    src = os.path.join(ROOT, "driver", "src", "main.rs")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    rc, out = sh(["cargo", "+nightly", "build", "--release", "--offline", "-q"],
                 env={"CARGO_TARGET_DIR": os.path.join(BUILD, "drv")}, cwd=os.path.join(ROOT, "driver"))
    if rc or not os.path.exists(exe):
        raise BuildError("driver does not build:\n" + out[-3000:])
    os.utime(exe)
    return exe


def dump(repo=None, out=None):
    """type-checked program of the tree -> path of the JSON dump (always regenerated)"""
    repo = repo or REPO
    exe = driver()
    tgt = os.path.join(BUILD, "tgt")
    out = out or os.path.join(BUILD, "dump.json")
    if os.path.exists(out):
        os.remove(out)
    env = {
        "CARGO_TARGET_DIR": tgt,
        "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
    }
    if os.path.isdir(tgt):
        sh(["cargo", "+nightly", "clean", "--offline", "-q", "-p", "texmo"], env=env, cwd=repo)
    env["MIRDUMP_OUT"] = out
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    rc, o = sh(["cargo", "+nightly", "check", "--offline", "-q", "--bins"], env=env, cwd=repo)
    if rc:
        raise BuildError("/repo does not compile:\n" + o[-3000:])
    if not os.path.exists(out):
        # stale freshness: start over with an empty target directory
        shutil.rmtree(tgt, ignore_errors=True)
        rc, o = sh(["cargo", "+nightly", "check", "--offline", "-q", "--bins"], env=env, cwd=repo)
        if rc or not os.path.exists(out):
            raise BuildError("no dump was produced:\n" + o[-3000:])
    return out


if __name__ == "__main__":
    t = time.time()
    p = dump()
    print("dump:", p, "%.1fs" % (time.time() - t))
