"""C08 successful optimize and convert runs always save their result"""
from commands import *

RULE = ("every path of the optimize and convert commands that ends normally: its last file write goes to <tokens dir>/<name>.json of the token set of the "
        "statistics written, the content is the JSON text of those statistics, which come from tokenising the whole data with that very token set; "
        "the JSON is that of the token set with only the key \"stats\" added, and \"stats\" holds the counters of the same statistics; bytes per token is initial size over total tokens")
TECHNIQUE = "value provenance over command summaries (abstract interpretation of MIR with value numbering)"


def check(ctx):
    cmds, nm = commands(ctx)
    n = 0
    for v in ("Optimize", "ConvertTokens"):
        for P in cmds.get(v, []):
            n += 1
            saved(ctx, P, nm)
    ctx.floor("paths of optimize and convert", n, 6)
    final(ctx)
    document(ctx, nm)
    same_set(ctx, nm)


def saved(ctx, P, nm):
    outs = outputs(P.events)
    w = ctx.where_fn("main")
    if not ctx.ob("saved", "written", len(outs) >= 1, w, "nothing is saved on the path %s" % P.label(), P.variant):
        return
    o = outs[-1]
    loops = [i for i, e in enumerate(P.events) if isinstance(e, tuple) and any(x.name in ("fs::write",) + CREATES for x, _ in flat_events([e]))]
    ctx.ob("saved", "last write", not [i for i in loops if i > o.idx], o.ev.span, "files are written after the result on the path %s" % P.label(), P.variant)
    ctx.ob("saved", "no failure", lit(is_variant(o.ev.res, "Ok")) in P.facts, o.ev.span, "the command succeeds although the result could not be written", P.variant)
    ctx.ob("saved", "whole file", truncates(o.ev), o.ev.span, "text of an older file may be left behind the result", P.variant)
    st = None
    if o.content is not None and o.content.op == "app" and o.content.a[0] == "json_text":
        j = o.content.a[1]
        if j.op == "call" and j.a[0] == nm["TokenStats::to_json"]:
            st = j.a[1]
    if not ctx.ob("saved", "content", st is not None, o.ev.span, "the text saved is not the JSON text of statistics: %s" % show(o.content)[:200] if o.content is not None else "the text saved is not one JSON document", P.variant):
        return
    ts = measured(ctx, st, nm)
    ctx.ob("saved", "measured", ts is not None, o.ev.span, "the statistics saved are not those of a tokenisation: %s" % show(st)[:200], P.variant)
    d = P.opt("tokens_dir")
    name = None
    if o.dest.op == "app" and o.dest.a[0] == "pathjoin" and o.dest.a[1] is d:
        name = json_name(o.dest.a[2], nm)
    ctx.ob("saved", "file", name is not None, o.ev.span, "the result is not saved as <tokens dir>/<name>.json but as %s" % show(o.dest)[:200], P.variant)
    if name is not None and ts is not None:
        ctx.ob("saved", "name", any(name is x for x in ts), o.ev.span, "the file is named after another token set: %s" % show(name)[:200], P.variant)
    # measured on the whole data
    samp = st.a[2] if st.op == "call" and len(st.a) > 2 else None
    if st.op == "call" and st.a[0] == nm["optimize_tokenset"]:
        samp = st.a[2]
    whole = samp is not None and samp.op == "call" and (
        samp.a[0] == nm["MemorySampler::from_file"] or samp.a[0] == nm["FileSampler::new"] and len(samp.a) > 3 and samp.a[3] is NONE)
    if samp is not None and samp.op == "agg":
        whole = True
    ctx.ob("saved", "whole data", whole, o.ev.span, "the statistics saved are not measured on the whole data: %s" % (show(samp)[:200] if samp is not None else ""), P.variant)


def json_name(t, nm):
    """token set of <name>.json"""
    if t.op == "cat" and len(t.a) == 2 and t.a[1] is S(".json"):
        x = t.a[0]
        if x.op == "call" and x.a[0] == nm["TokenSet::name"]:
            return x.a[1]
    return None


def measured(ctx, st, nm):
    """the token sets (terms for it) statistics belong to"""
    if st.op == "call" and st.a[0] == nm["tokenize_file"]:
        return [st.a[1], field(st, "token_set")]
    if st.op == "call" and st.a[0] == nm["optimize_tokenset"]:
        return [field(st, "token_set")]
    return None


def final(ctx):
    """the optimiser returns the statistics of its last token set"""
    ps, n, nm = optimizer(ctx)
    k = 0
    for p in ps:
        k += 1
        v = p.val
        where = ctx.where_fn(n)
        ok = v.op == "call" and v.a[0] in (nm["TokenizerCache::get_stats"], nm["TokenizerCache::get_stats_with_pairs"]) or v.op == "call" and v.a[0] == nm["tokenize_file"]
        if not ctx.ob("result", "statistics", ok, where, "the optimiser does not return the statistics of its token set but %s" % show(v)[:200], n):
            continue
        ts = v.a[2] if v.a[0] != nm["tokenize_file"] else v.a[1]
        while ts.op == "mutout" and ts.a[0] == nm["TokenSet::sort"]:
            ts = ts.a[2]
        # the current set at the end: left by the last step, or by the loop of the steps
        steps = [e for e in p.events if not isinstance(e, tuple) and e.name == nm["optimization_step"]]
        facts = set(p.conds) | set(p.asserts)
        cur = set()
        if steps:
            last = steps[-1]
            if lit(neg(is_variant(last.res, "Some"))) in facts:
                cur.add(last.args[0])
            if lit(is_variant(last.res, "Some")) in facts:
                cur.add(payload(last.res, "Some"))
        for e in p.events:
            if not isinstance(e, tuple):
                continue
            l = e[1]
            for key in current(l, nm, p.events):
                phi = l.leaves[key]["phi"]
                if l.final.get(key) is not None:
                    cur.add(l.final[key])
                for q in l.paths:
                    if q.kind == "exit":
                        cur.add(subst(q.upd.get(key, phi), l.brk(q)))
        ctx.ob("result", "final set", any(ts is x for x in cur), where, "the statistics returned are not those of the token set the last step left: %s" % show(ts)[:200], n)
        good = [q for l in loops_of(p.events) for q in l.paths if q.kind == "cont"]
        ctx.ob("result", "loop", bool(good), where, "no step is repeated", n)
        for l in loops_of(p.events):
            for q in l.paths:
                if q.kind != "cont":
                    continue
                st = [e for e in q.events if not isinstance(e, tuple) and e.name == nm["optimization_step"]]
                facts = set(q.conds) | set(q.asserts)
                for e in st:
                    if lit(neg(is_variant(e.res, "Some"))) in facts:
                        continue        # nothing was accepted
                    # an accepted set becomes the current one
                    nxt = payload(e.res, "Some")
                    cur = [k2 for k2, v2 in l.leaves.items() if v2["phi"] is e.args[0]]
                    ok = len(cur) == 1 and q.upd.get(cur[0]) is nxt
                    # or the result of the step is kept until the next round
                    opt = [k2 for k2, v2 in l.leaves.items() if payload(v2["phi"], "Some") is e.args[0]]
                    ok = ok or len(opt) == 1 and q.upd.get(opt[0]) is e.res
                    ctx.ob("result", "step taken", ok, e.span, "the token set found by a step does not become the current one", n)
    ctx.floor("paths of the optimiser", k, 5)


def current(l, nm, events=None):
    """the variables of a loop that a step is applied to"""
    out = set()
    for q in l.paths:
        for e, _ in flat_events(q.events):
            if e.name == nm["optimization_step"]:
                out |= {k for k, v in l.leaves.items() if v["phi"] is e.args[0]}
    # what the last step was applied to, before the first round and in every round
    before = [e for e in (events or ()) if not isinstance(e, tuple) and e.name == nm["optimization_step"]]
    for k, v in l.leaves.items():
        rounds = [q for q in l.paths if q.kind == "cont"]
        if before and rounds and v["init"] is before[-1].args[0]:
            last = [[e for e in q.events if not isinstance(e, tuple) and e.name == nm["optimization_step"]][-1:] for q in rounds]
            if all(x and q.upd.get(k) is x[0].args[0] for q, x in zip(rounds, last)):
                out.add(k)
    return out


def document(ctx, nm):
    """the JSON of statistics"""
    n = nm["TokenStats::to_json"]
    ps, e = ctx.run(n, (nm["TokenSet::to_json"],))
    me = sym("arg", 0)
    ts = field(me, "token_set")
    where = ctx.where_fn(n)
    ctx.floor("paths of TokenStats::to_json", len(ps), 1)
    for p in ps:
        v = p.val
        ok, stats = False, None
        if v.op == "store":
            b = v.a[0]
            ok = b.op == "call" and b.a[0] == nm["TokenSet::to_json"] and b.a[1] is ts and v.a[1] is S("stats")
            stats = v.a[2]
        if not ctx.ob("document", "token set", ok, where, "the JSON of statistics is not that of their token set with \"stats\" added: %s" % show(v)[:300], n):
            continue
        keys = json_fields(stats)
        ctx.ob("document", "stats", keys is not None, where, "\"stats\" is not an object with known keys: %s" % show(stats)[:300], n)
        if keys is None:
            continue
        facts = set(p.conds) | set(p.asserts)
        want = {"ntokens": [length(field(ts, "tokens"))], "total_tokens": [field(me, "total_tokens")], "scanned_bytes": [field(me, "scanned_bytes")]}
        init = field(me, "initial_size")
        if lit(is_variant(init, "Some")) in facts:
            want["initial_size"] = [payload(init, "Some")]
            want["bytes_per_token"] = [app("fdiv", payload(init, "Some"), field(me, "total_tokens"))]
        for k, w in want.items():
            got = keys.get(S(k))
            ctx.ob("document", k, got is not None and any(plain(got) is x for x in w), where, "\"%s\" is %s" % (k, show(got)[:200] if got is not None else "missing"), n)


def plain(t):
    while t.op == "app" and t.a[0] == "json" and len(t.a) == 2:
        t = t.a[1]
    return t


def json_fields(t):
    """keys and values of a JSON object that is written down"""
    if t.op == "store" or t.op == "app" and t.a[0] == "minsert":
        b, k, v = t.a if t.op == "store" else t.a[1:]
        out = json_fields(b)
        if out is None or k.op != "bytes":
            return None
        out = dict(out)
        out[k] = v
        return out
    if t.op == "app" and t.a[0] == "jobj":
        return json_fields(t.a[1])
    if t.op == "app" and t.a[0] == "newmap":
        return {}
    return None


def same_set(ctx, nm):
    """the token set of statistics is the one they were started with"""
    cr = Crate(ctx)
    live = cr.live()
    bad = [(k, f, sp) for k, f, sp in cr.field_writes("TokenStats", {"token_set"}) if k in live]
    for k, f, sp in bad:
        ctx.ob("set", "unchanged", False, sp, "the token set of statistics is changed after the measurement", cr.name_of.get(k, k))
    ctx.ob("set", "looked at", True, None, "%d functions" % len(live))
