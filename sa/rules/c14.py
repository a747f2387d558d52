"""C14 new tokens are chosen from statistics that contain pair counts"""
from steps import *
import c13

RULE = ("every call, on any path of an optimisation step, of a function that makes a token set out of pair counts: the statistics it is given are the result of a tokenisation, or of a "
        "lookup all of whose paths return the result of a tokenisation with its pair counts untouched; no other code of the optimiser reads pair counts")
TECHNIQUE = "value provenance over the step's summary (abstract interpretation of MIR with value numbering), call-graph reachability of the readers of the pair counts"


def check(ctx):
    s = steps(ctx)
    k = 0
    full = {}
    for p in s.paths:
        for e, _ in flat_events(p.events):
            if e.name not in s.pickers:
                continue
            k += 1
            st = s_arg(e)
            ok = st.op == "call" and (st.a[0] == s.tok or st.a[0] in s.lookups and keeps_pairs(ctx, s, st.a[0], full))
            ctx.ob("picked from", "statistics", ok, e.span, "a token is picked from %s, which may lack the pair counts" % (
                ("the result of " + st.a[0]) if st.op == "call" else show(st)[:160]), s.step)
    ctx.floor("calls that pick a token", k, 3)
    only_readers(ctx, s)


def s_arg(e):
    return e.args[0]


def keeps_pairs(ctx, s, n, memo):
    """does every path of a lookup return what a tokenisation returned, pair counts included"""
    if n in memo:
        return memo[n]
    ps, _ = ctx.run(n, tuple(sorted({s.tok, s.nm["TokenSet::to_json"], s.nm["TokenSet::sort"]})))
    ok = bool(ps)
    for p in ps:
        v = p.val
        good = v.op == "call" and v.a[0] == s.tok
        if not good and v.op == "with":
            good = c13.measured(ctx, v, s.tok, sym("arg", 0)) is not None and whole(v, s.tok)
        ok = ok and good
    memo[n] = ok
    return ok


def whole(v, tok):
    b = v
    while b.op == "with":
        if any(f == "pair_counts" for f, _ in b.a[1]):
            return False
        b = b.a[0]
    return b.op == "call" and b.a[0] == tok


def only_readers(ctx, s):
    """pair counts are read while tokenising, by the lookups (which may drop them), and by the pickers"""
    cr = crate(ctx)
    live = cr.live()
    allowed = {s.fs[n].d["key"] for n in s.pickers} | {s.fs[s.tok].d["key"]} | {s.fs[n].d["key"] for n in s.lookups}
    reads(ctx, s.fs[s.step].d["key"], "pair_counts")
    n = 0
    for key in sorted(ctx._mentions["pair_counts"]):
        if key not in live:
            continue
        n += 1
        name = cr.name_of.get(key, key)
        derived = "TokenStats" in name      # methods and derived traits of the statistics themselves
        ok = key in allowed or derived or cr.only_from(key, allowed)
        ctx.ob("readers", name.split("::")[-1], ok, ctx.prog.fns[key]["span"], "%s reads pair counts although nothing ensures that they are there" % name, name)
    ctx.floor("functions that read pair counts", n, 3)
