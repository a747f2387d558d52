#!/usr/bin/env python3
"""checkall.py DUMP [ID...] : all checks on one dump in one process (summaries shared); prints the verdicts.
Only for the self test: the registered checks run one by one."""
import importlib
import os
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "sa"), os.path.join(ROOT, "sa", "rules")]
import check


def main():
    from ctx import Ctx, Ob
    ids = sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "sa", "rules")) if f.startswith("c") and f[1:3].isdigit())
    ctx = Ctx(sys.argv[1])
    kn = check.known()
    bad = []
    for i in ids:
        ctx.obs = []
        try:
            importlib.import_module(i.lower()).check(ctx)
        except Exception as e:
            ctx.obs.append(Ob("analysis", type(e).__name__, False, None, "the analysis failed: %s: %s" % (type(e).__name__, e), ""))
        v = [o for o in ctx.obs if not o.ok and o.key() not in kn.get(i, {})]
        if v:
            bad.append(i)
            if os.environ.get("FIRST"):
                print("BAD " + i + " " + v[0].msg[:200].replace("\n", " "))
                sys.stdout.flush()
                os._exit(1)
            for o in v[:2]:
                print("   %s %s: %s [%s, %s, %s]" % (i, ":".join(map(str, o.where)) if o.where else "?", o.msg[:200], o.rule, o.inst, o.fn))
    print("BAD " + " ".join(bad))
    sys.stdout.flush()
    os._exit(1 if bad else 0)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(2)
