#!/usr/bin/env python3
"""rename.py OUT.jsonl [fn|field|type|local ...] : every function, field, type or variant of /repo's live source renamed, one at a time, against all checks."""
import json
import os
import re
import sys
import shutil
import subprocess
import concurrent.futures as cf
import queue
import reshape

W = reshape.W = os.environ.get("SELFTEST_DIR", "/tmp/rename")
SRC = "/repo/src"


def files():
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(".rs"):
                yield os.path.relpath(os.path.join(d, f), SRC)


def names(kind):
    out = set()
    for f in reshape.FILES:
        s, _ = reshape.live(f)
        if kind == "fn":
            out |= set(re.findall(r"\bfn (\w+)", s))
        if kind == "type":
            out |= set(re.findall(r"\b(?:struct|enum|trait) (\w+)", s))
        if kind == "field":
            for m in re.finditer(r"\bstruct \w+(?:<[^>]*>)? \{", s):
                out |= set(re.findall(r"^\s*(?:pub )?(\w+):", s[m.end():reshape.close(s, m.end() - 1)], re.M))
        if kind == "variant":
            for m in re.finditer(r"\benum \w+ \{", s):
                out |= set(re.findall(r"^\s*(\w+)\s*(?=[,({])", s[m.end():reshape.close(s, m.end() - 1)], re.M))
    return out - {"main", "next", "iter", "eq", "fmt", "new", "default", "cmp", "from", "drop", "Item", "Iter", "len", "get", "sort", "push", "Str"}


def one(kind, n, slot):
    src, bld = os.path.join(W, "src%d" % slot), os.path.join(W, "bld%d" % slot)
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree("/repo", src, ignore=shutil.ignore_patterns("target", ".git"))
    new = {"fn": "%s_x", "field": "%s_y", "type": "%sZ", "variant": "%sV"}[kind] % n
    for f in files():
        p = os.path.join(src, "src", f)
        s = open(p).read()
        pat = r"(?<![\"\w])%s\b(?!\")" % n
        if kind == "field":
            # not method calls of that name, not command-line or file texts
            pat = r"(?<![\"\w])%s\b(?![\"(])" % n
        t = re.sub(pat, new, s)
        open(p, "w").write(t)
    env = dict(os.environ, VERIF_REPO=src, VERIF_BUILD=bld, SA_NOEVIDENCE="1")
    if not os.path.exists(os.path.join(bld, "drv")):
        os.makedirs(bld, exist_ok=True)
        shutil.copytree(os.path.join(reshape.ROOT, ".build", "drv"), os.path.join(bld, "drv"), symlinks=True)
    r = subprocess.run([sys.executable, os.path.join(reshape.ROOT, "sa", "build.py")], env=env, capture_output=True, text=True)
    res = {"kind": kind, "name": n}
    if r.returncode:
        e = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith("error")]
        return dict(res, st="nobuild", why="; ".join(e[:2])[:200])
    r = subprocess.run([sys.executable, os.path.join(reshape.HERE, "checkall.py"), os.path.join(bld, "dump.json")] + reshape.sys_only(), env=env, capture_output=True, text=True, timeout=900)
    if r.returncode:
        return dict(res, st="ALARM", why=r.stdout[-1500:] or r.stderr[-300:])
    return dict(res, st="quiet")


def main():
    out = sys.argv[1]
    kinds = sys.argv[2:] or ["fn", "field", "type", "variant"]
    n = int(os.environ.get("J", "7"))
    os.makedirs(W, exist_ok=True)
    done = {(r["kind"], r["name"]) for r in map(json.loads, open(out))} if os.path.exists(out) else set()
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)

    def go(a):
        s = slots.get()
        try:
            return one(a[0], a[1], s)
        except Exception as e:
            return {"kind": a[0], "name": a[1], "st": "error", "why": repr(e)}
        finally:
            slots.put(s)
    with cf.ThreadPoolExecutor(n) as ex, open(out, "a") as fo:
        for fut in cf.as_completed([ex.submit(go, (k, x)) for k in kinds for x in sorted(names(k)) if (k, x) not in done]):
            fo.write(json.dumps(fut.result()) + "\n")
            fo.flush()


if __name__ == "__main__":
    main()
