#!/usr/bin/env python3
"""check.py <property> - decides one property on /repo's current source."""
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sa"))
sys.path.insert(0, os.path.join(ROOT, "sa", "rules"))
import build
import threading


def known():
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property="):
                head, what = l.split(" :: ", 1)
                pid = head.split("property=")[1].split()[0]
                key = head.split("key=")[1]
                out.setdefault(pid, {})[key] = what
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    dumpf = None
    for a in sys.argv:
        if a.startswith("--dump="):
            dumpf = a[7:]
    t0 = time.time()
    rule_text, obs, ctx = "", [], None
    from ctx import Ctx, Ob
    try:
        if dumpf is None:
            dumpf = build.dump()
        ctx = Ctx(dumpf)
        mod = importlib.import_module(pid.lower())
        rule_text = mod.RULE
        mod.check(ctx)
        if tier == "thorough" and hasattr(mod, "thorough"):
            mod.thorough(ctx)
        obs = ctx.obs
    except build.BuildError as e:
        obs = [Ob("build", "dump", False, None, str(e), "")]
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        obs = (ctx.obs if ctx else []) + [Ob("analysis", type(e).__name__, False, None,
              "the analysis failed: %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), "")]
    bad = [o for o in obs if not o.ok]
    kn = known().get(pid, {})
    seen = set()
    viol = []
    for o in bad:
        if o.key() in kn:
            if o.key() not in seen:
                print("KNOWN-FINDING: property=%s %s" % (pid, kn[o.key()]))
            seen.add(o.key())
        else:
            viol.append(o)
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "obligations": len(obs), "discharged": len([o for o in obs if o.ok]),
            "checker_cmd": "python3 check.py %s" % pid,
            "trusted_base": ["rustc's MIR and type resolution", "models of std/serde_json/clap calls in sa/models.py",
                             "loop summarisation and normal forms in sa/engine.py, sa/terms.py"],
            "rule": rule_text,
            "explanation": "functions summarised: %d, paths: %d, loops: %d" % (
                len(ctx.analysed) if ctx else 0, ctx.paths if ctx else 0, ctx.loops if ctx else 0),
            "functions_analysed": sorted(ctx.analysed) if ctx else [],
            "mir_bodies": len(ctx.prog.fns) if ctx else 0,
            "samples": ["%s: %s [%s]%s" % (o.rule, o.inst, o.fn, "" if o.ok else " FAILED: " + o.msg) for o in obs][:200],
            "known_findings": sorted(seen),
        },
        "assumptions": getattr(sys.modules.get(pid.lower()), "ASSUMES", []),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    if not ev["coverage"]["samples"]:
        ev["coverage"]["samples"] = ["none"]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rp = "evidence/%s.json" % pid
    if not os.environ.get("SA_NOEVIDENCE"):
        with open(os.path.join(ROOT, rp), "w") as f:
            json.dump(ev, f, indent=1)
    if viol:
        for o in viol:
            print("  %s: %s" % (":".join(map(str, o.where)) if o.where else "?", o.msg))
            print("    rule %s, instance %s%s" % (o.rule, o.inst, (" in " + o.fn) if o.fn else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.stdout.flush()
        os._exit(1)
    print("OK property=%s obligations=%d functions=%d paths=%d %.1fs" % (pid, len(obs), len(ctx.analysed), ctx.paths, wall))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(2)
