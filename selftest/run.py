#!/usr/bin/env python3
"""run.py [case-name-prefix...] : run the checks on scratch copies of /repo with the edits of cases.py applied.

Each case: (name, kind, properties, [(file, old, new), ...]).
kind "bug": at least one of the properties must raise a violation; kind "same": behaviour is unchanged,
every check must stay quiet (all properties are run)."""
import os
import subprocess
import sys
import shutil
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
W = os.environ.get("SELFTEST_DIR", "/tmp/selftest")
ALL = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "sa", "rules")) if f.startswith("c") and f[1:3].isdigit())


def one(case, slot):
    name, kind, props, edits = case
    src = os.path.join(W, "src%d" % slot)
    bld = os.path.join(W, "bld%d" % slot)
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree("/repo", src, ignore=shutil.ignore_patterns("target", ".git"))
    for f, old, new in edits:
        p = os.path.join(src, "src", f)
        s = open(p).read()
        if s.count(old) < 1:
            return name, "BAD-CASE %s: text not found: %r" % (f, old[:60])
        open(p, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, VERIF_REPO=src, VERIF_BUILD=bld, SA_NOEVIDENCE="1")
    if not os.path.exists(os.path.join(bld, "drv")):
        os.makedirs(bld, exist_ok=True)
        if os.path.exists(os.path.join(ROOT, ".build", "drv")):
            shutil.copytree(os.path.join(ROOT, ".build", "drv"), os.path.join(bld, "drv"), symlinks=True)
    r = subprocess.run([sys.executable, os.path.join(ROOT, "sa", "build.py")], env=env, capture_output=True, text=True)
    if r.returncode:
        return name, "BUILD-FAILED " + (r.stderr or r.stdout)[-1500:]
    dump = os.path.join(bld, "dump.json")
    if os.environ.get("KEEP"):
        shutil.copy(dump, os.environ["KEEP"])
        return name, "kept"
    out, bad = [], []
    todo = props if kind == "bug" and not os.environ.get("ALLCHECKS") else ALL
    if os.environ.get("ONLY"):
        todo = os.environ["ONLY"].split(",")
    todo = [p for p in todo if p in ALL]
    r = subprocess.run([sys.executable, os.path.join(HERE, "checkall.py"), dump] + todo, env=env, capture_output=True, text=True)
    last = r.stdout.strip().splitlines()[-1:] or [""]
    if r.returncode not in (0, 1) or not last[0].startswith("BAD"):
        return name, "ERROR " + r.stdout[-300:] + r.stderr[-300:]
    bad = last[0].split()[1:]
    out = [l for l in r.stdout.splitlines()[:-1]]
    if kind == "bug":
        st = "caught by %s" % ",".join(bad) if set(bad) & set(props) else "MISSED (%s), caught by %s" % (",".join(props), ",".join(bad))
        return name, st + ("\n" + "\n".join(out) if os.environ.get("V") else "")
    return name, ("quiet" if not bad else "FALSE ALARM by %s\n%s" % (",".join(bad), "\n".join(out)))


def main():
    import cases, cases2, cases3, cases4, cases5, cases6, cases7, cases8, cases9, cases10, cases11, cases12
    sel = [c for c in cases.CASES if len(sys.argv) < 2 or any(c[0].startswith(a) for a in sys.argv[1:])]
    if os.environ.get("PROP"):
        sel = [c for c in sel if os.environ["PROP"] in c[2]]
    if os.environ.get("KIND"):
        sel = [c for c in sel if c[1] == os.environ["KIND"]]
    if os.environ.get("FILE"):       # cases that change this file
        sel = [c for c in sel if any(os.environ["FILE"] in str(e[0]) for e in c[3:] for e in (e if isinstance(e, list) else [e]))]
    n = int(os.environ.get("J", "6"))
    os.makedirs(W, exist_ok=True)
    import queue
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)

    def go(c):
        s = slots.get()
        try:
            return one(c, s)
        except Exception as e:
            return c[0], "ERROR %s" % e
        finally:
            slots.put(s)
    with cf.ThreadPoolExecutor(n) as ex:
        for name, st in ex.map(go, sel):
            print("%-34s %s" % (name, st), flush=True)


main()
