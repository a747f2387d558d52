#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a seed description and confirms it in a scratch
copy: the patch applies, changes lines of the original repository, builds, passes
the repository's tests, and its demo fails with it and passes without it.
usage: mkseed.py FILE.py...   (each defines seed(id=, prop=, needs=, breaks=, edits=[(file, old, new)...], demo=rust test module body | sh=script))"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "57c49f8"
SH = '''#!/bin/bash
# runs demo.rs as a test module of a scratch copy of the crate
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock.saved Cargo.lock
cp -r src Cargo.toml Cargo.lock "$T/" || exit 2
{ echo; cat "$D/demo.rs"; } >> "$T/src/main.rs"
cd "$T" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" TMPDIR="$T" RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
timeout 250 cargo test --offline vpdemo > "$T/log" 2>&1
rc=$?
tail -n 25 "$T/log"
grep -q "test result: ok. [1-9]" "$T/log" || exit 1
exit $rc
'''
def sh(cmd, cwd=None, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
W = "/tmp/sw/repo"
def fresh():
    if not os.path.exists(W):
        os.makedirs("/tmp/sw", exist_ok=True)
        sh("cp -a /repo %s" % W)
    sh("git checkout -q -- . ", cwd=W)
    h = sh("git rev-parse HEAD", cwd="/repo").stdout.strip()
    sh("git fetch -q /repo HEAD; git reset -q --hard %s" % h, cwd=W)
ENV = "export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=%s/target CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu; " % W
def seed(id, prop, needs, breaks, edits, demo=None, script=None):
    if ONLY and id not in ONLY: return
    fresh()
    blame = {}
    for f, old, new in edits:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        s = s.replace(old, new); open(p, "w").write(s)
    diff = sh("git diff", cwd=W).stdout
    bad = []
    for f in sorted({e[0] for e in edits}):
        b = [l.split()[0] for l in sh("git blame -s HEAD -- %s" % f, cwd=W).stdout.splitlines()]
        d = sh("git diff -U0 -- %s" % f, cwd=W).stdout
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            n = int(m.group(2) or 1)
            for i in range(int(m.group(1)), int(m.group(1)) + n):
                if not b[i-1].lstrip("^").startswith(BASE): bad.append((f, i))
    if bad: print(id, "NOTE lines of fix commits touched:", bad)
    d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(script or SH); os.chmod(d + "/demo.sh", 0o755)
    if demo is not None:
        open(d + "/demo.rs", "w").write("#[cfg(test)]\nmod vpdemo {\n    #![allow(unused_imports)]\n    use super::*;\n" + demo + "}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    r = sh(ENV + "cargo build --offline 2>&1 && cargo test --offline 2>&1", cwd=W, timeout=600)
    ok = r.returncode == 0 and "8 passed" in r.stdout
    if not ok: print(r.stdout[-2500:])
    r1 = sh("bash %s/demo.sh" % d, cwd=W)
    sh("git checkout -q -- .", cwd=W)
    r0 = sh("bash %s/demo.sh" % d, cwd=W)
    print(id, prop, "tests", "ok" if ok else "FAIL", "demo with patch", r1.returncode, "without", r0.returncode, "=>", "KEEP" if ok and r1.returncode and not r0.returncode else "REJECT", flush=True)
    if os.environ.get("V"): print(r1.stdout[-1500:])
    if r0.returncode: print(r0.stdout[-2500:])
if __name__ == "__main__":
    ONLY = set(os.environ.get("ONLY", "").split())
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"), globals())
