"""C10 an optimisation step is accepted only if it helps"""
from steps import *
import c08

RULE = ("every path of an optimisation step that returns a token set: its conditions imply that the measured total of that very set is below the measured total of the "
        "current one, or the current set is smaller than requested and the new one was made from its statistics and has at most one token more; "
        "the current set is replaced by what a step returned and by nothing else")
TECHNIQUE = "path conditions of the step's summary (abstract interpretation of MIR with value numbering), linear entailment of the acceptance inequality"


def check(ctx):
    s = steps(ctx)
    w = ctx.where_fn(s.step)
    res = s.results()
    ctx.floor("ways to accept a set", len(res), 3)
    ctx.floor("ways to keep the set", len(s.paths) - len(res), 1)
    better = grown = 0
    for p, x in res:
        if s.proves(p, sub(sub(raw("total", s.me), raw("total", x)), ONE)):
            better += 1
            one_data(ctx, s, p, x, w)
            continue
        room = s.proves(p, sub(sub(s.want, s.size(s.me)), ONE))
        by_one = room and s.proves(p, sub(add(s.size(s.me), ONE), s.size(x)))
        own = by_one and made_of(s, x)
        grown += bool(own)
        ctx.ob("accepted", kind(s, x), own, w, "a set is accepted that was not shown to need fewer tokens%s: %s, on the path %s" % (
            "" if room else ", although the current one is not below the requested size", show(x)[:160], showlits(p.conds)[:200]), s.step)
    ctx.floor("sets accepted for a lower total", better, 2)
    ctx.floor("sets accepted while growing", grown, 1)
    totals(ctx, s)
    c08.final(ctx)


def made_of(s, x):
    o = s.origin(x)
    return bool(o) and o[0] in ("pick", "ob") and o[1] is s.me


def kind(s, x):
    o = s.origin(x)
    return o[0] if o else "other"


def one_data(ctx, s, p, x, w):
    """both totals come from the cache the step was given"""
    cache = sym("arg", next((i for i, a in enumerate(s.fs[s.step].d["sig"].split("(")[1].split(",")) if "TokenizerCache" in a), 3))
    for e, _ in flat_events(p.events):
        if e.name in s.lookups:
            c = e.args[0]
            ok = c is cache or root(c, cache, s)
            ctx.ob("measured", "same cache", ok, e.span, "a set is measured on other data: %s" % show(c)[:160], s.step)
        elif e.name == s.tok:
            d = e.args[1]
            ok = d.op == "field" and d.a[1] == "sampler" and root(d.a[0], cache, s)
            ctx.ob("measured", "same data", ok, e.span, "a set is measured on other data: %s" % show(d)[:160], s.step)


def root(c, cache, s):
    """is a state of the cache the one left by lookups in the cache given"""
    seen = set()
    while True:
        if c is cache:
            return True
        if c in seen:
            return False
        seen.add(c)
        if c.op == "mutout" and c.a[0] in s.lookups:
            c = c.a[2]
        elif c.op in ("phi", "brk", "out"):
            return contains(c, lambda t: t is cache) or c.op == "phi"
        else:
            return False


def totals(ctx, s):
    """the total of statistics is never changed after they were measured"""
    cr = crate(ctx)
    live = cr.live()
    ok = {"new", "update_stats", "merge"}
    for k, f, sp in cr.field_writes("TokenStats", {"total_tokens"}):
        if k not in live:
            continue
        n = cr.name_of.get(k, k)
        # only while tokenising
        fine = cr.only_from(k, {s.fs[s.tok].d["key"]}) or "TokenStats::" in n
        ctx.ob("measured", "unchanged", fine, sp, "the total of measured statistics is changed", n)
    ctx.ob("measured", "looked at", True, None, "%d live functions" % len(live))
