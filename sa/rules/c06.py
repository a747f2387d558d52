"""C06 no I/O failure is swallowed"""
import re
from ctx import *
from crate import Crate

RULE = ("for every call, in a function reachable from main, that can fail with an I/O error: on each path of the summary of the function "
        "that ends normally the result was found to be Ok, or the function itself returns a failure; text written through a buffer is "
        "flushed, successfully, after the last write; no partial write, no exit with status 0, no panic is caught")

ERR = re.compile(r"^(std::io::Error|std::io::error::Error|serde_json::Error|serde_json::error::Error|tempfile::.*Error.*|std::boxed::Box<dyn .*Error.*>|"
                 r"anyhow::Error|std::io::IntoInnerError<.*>)$")
STD = ("std::io::Stdout", "std::io::StdoutLock", "std::io::Stderr", "std::io::StderrLock")
NOT_IO = ("available_parallelism",)
LAZY = ("flatten", "filter_map", "map_while", "flat_map", "take_while", "skip_while", "filter")
BUFFERS = ("BufWriter", "LineWriter")
WRITES = ("io::write_all", "io::write_fmt", "io::write_str", "io::write", "serde_json::to_writer")


def last_arg(ty):
    """error type of a Result type"""
    m = re.match(r"^std::result::Result<(.*)>$", ty)
    if not m:
        return None
    s, d, cut = m.group(1), 0, 0
    for i, ch in enumerate(s):
        if ch in "<([":
            d += 1
        elif ch in ">)]" and s[i - 1:i + 1] != "->":
            d -= 1
        elif ch == "," and d == 0:
            cut = i + 1
    return s[cut:].strip()


def is_source(ctx, rec, call):
    """a call that does I/O and reports failure through its result"""
    if rec["key"] in ctx.prog.fns or rec["res"] in ctx.prog.fns:
        return True
    k = rec["path"].replace("core::", "std::").replace("alloc::", "std::")
    if rec["name"] in NOT_IO:
        return False
    if any(t.lstrip("&").replace("mut ", "").split("<")[0] in STD for t in call.get("argtys") or ()):
        return False
    if rec["trait"]:
        return rec["trait"].split("::")[-1] in ("Read", "Write", "BufRead", "Seek")
    if "serde_json::" in k:
        return rec["name"].startswith(("from_reader", "to_writer"))
    return k.startswith(("std::fs::", "std::io::", "tempfile::", "<std::fs", "<std::io")) or "::fs::" in k or "::io::" in k


def sites(ctx, cr, live):
    out = []
    for k in sorted(live):
        f = ctx.prog.fns[k]
        for rec, call in cr.sites[k]:
            if call["dest"][1]:
                continue
            e = last_arg(f["locals"][call["dest"][0]][0])
            if e and ERR.match(e) and is_source(ctx, rec, call):
                out.append((k, rec, call))
    return out


def owner(ctx, cr, k):
    """the function a closure is in"""
    seen = set()
    while k not in cr.name_of and k not in seen:
        seen.add(k)
        k = ctx.prog.fns[k]["parent"] if ctx.prog.fns[k]["parent"] in ctx.prog.fns else k.rsplit("::{closure", 1)[0]
    return k


def handled(e, facts, val):
    """None if the failure of the event cannot get lost on this path"""
    r = e.res
    if r is None:
        return "the result is dropped"
    ok, bad = lit(is_variant(r, "Ok")), lit(is_variant(r, "Err"))
    if ok in facts:
        return None
    if bad in facts:
        if val is not None and (val.op == "agg" and val.a[1] == "Err" or val is r):
            return None
        return "the function goes on after a failure"
    if val is not None and (val is r or returns(val, r)):
        return None
    return "the result is not looked at"


def returns(val, r):
    """the value is the result, with its success value replaced"""
    if val.op == "app" and val.a[0] in ("map", "map_err", "result_map", "result_map_err", "and"):
        return returns(val.a[1], r)
    return val is r


def check(ctx):
    cr = Crate(ctx)
    live = cr.live()
    ss = sites(ctx, cr, live)
    fns = {}
    for k, rec, call in ss:
        fns.setdefault(owner(ctx, cr, k), []).append((rec, call))
    ctx.floor("calls that can fail with an I/O error", len(ss), 12)
    for k, calls in sorted(fns.items()):
        n = cr.name_of.get(k)
        if n is None:
            ctx.ob("analysis", k, False, ctx.prog.fns[k]["span"], "no name for %s" % k, k)
            continue
        opq = others(ctx, n)
        one(ctx, n, opq, calls)
    whole_program(ctx, cr, live)


def others(ctx, n):
    return tuple(sorted(x for x in ctx._names if x != n and x != "main"))


def flushes(ctx, n, i):
    """the function flushes the stream it is given before it ends normally"""
    memo = ctx.__dict__.setdefault("_flushes", {})
    if (n, i) not in memo:
        memo[(n, i)] = False
        ps, _ = ctx.run(n, others(ctx, n))
        good = [p for p in ps if not (p.val.op == "agg" and p.val.a[1] == "Err")]
        memo[(n, i)] = bool(good) and all(
            any(not isinstance(e, tuple) and e.name == "io::flush" and contains(e.args[0], lambda x: x is sym("arg", i) or x.op == "mref" and x.a[0] == ("P", i)) for e in p.events) for p in good)
    return memo[(n, i)]


def tail(name):
    t = name.split("::")[-1]
    return "from" if t in ("from_reader", "from_slice", "from_str") else "to_writer" if t == "to_writer_pretty" else t


def one(ctx, n, opq, calls):
    ps, _ = ctx.run(n, opq)
    if not ps and _ is None:
        return
    seen = set()
    spans = {}
    for r, c in calls:
        spans.setdefault((tuple(map(str, c["span"])), tail(r["name"])), (r, c))

    def look(events, facts, val, kind):
        for e in events:
            if isinstance(e, tuple):
                for q in e[1].paths:
                    # an iteration that leaves the loop is judged where the loop was left
                    if q.kind == "exit":
                        mark(q.events)
                        continue
                    look(q.events, facts | set(q.conds) | set(q.asserts), None, q.kind)
                continue
            sp = (tuple(map(str, e.span)), tail(e.name)) if e.span else None
            if sp not in spans:
                continue
            seen.add(sp)
            rec, c = spans[sp]
            why = handled(e, facts, val)
            ctx.ob("result", rec["name"], why is None, e.span, "a failure of %s is lost: %s (path %s)" % (rec["name"], why, showlits(list(facts))[:200]), n)
            if e.name == "io::write":
                used = any(contains(a, lambda x: x is payload(e.res, "Ok")) for a, _ in facts)
                ctx.ob("result", "partial write", used, e.span, "write may write only a part of the data", n)

    def mark(events):
        for e, _ in flat_events(events):
            if e.span:
                seen.add((tuple(map(str, e.span)), tail(e.name)))

    for p in ps:
        look(p.events, set(p.conds) | set(p.asserts), p.val, "ret")
        buffers(ctx, n, p)
    for sp, (rec, c) in spans.items():
        ctx.ob("coverage", rec["name"], sp in seen, c["span"], "the call of %s is on no analysed path" % rec["name"], n)


def buffers(ctx, n, p):
    """text written through a buffer is flushed at the end"""
    failed = p.val.op == "agg" and p.val.a[1] == "Err"
    facts = set(p.conds) | set(p.asserts)
    last = None
    dirty = False

    def buffered(t, inits):
        for x in walk(t):
            if x.op == "app" and x.a[0] in BUFFERS:
                return True
            if x in inits:
                return True
        return False

    def go(events, inits, top):
        nonlocal last, dirty
        for e in events:
            if isinstance(e, tuple):
                L = e[1]
                more = set(inits)
                for v in L.leaves.values():
                    if buffered(v["init"], inits):
                        more.add(v["phi"])
                for q in L.paths:
                    go(q.events, more, False)
                continue
            if e.name == "drop" or not e.args:
                continue
            if e.name in WRITES and buffered(e.args[0], inits):
                dirty = True
                last = e
            elif e.name in ctx._names and any(buffered(a, inits) for a in e.args):
                if not all(flushes(ctx, e.name, i) for i, a in enumerate(e.args) if buffered(a, inits)):
                    dirty = True
                    last = e
                elif top:
                    dirty = False
            elif e.name in ("io::flush", "io::into_inner") and buffered(e.args[0], inits):
                dirty = False if top else dirty

    go(p.events, set(), True)
    if failed:
        return
    if last is not None:
        ctx.ob("flush", "buffer", not dirty, last.span, "text written through a buffer is not flushed, so a failure to write it is lost", n)


def whole_program(ctx, cr, live):
    for k in sorted(live):
        n = cr.name_of.get(owner(ctx, cr, k), k)
        for rec, call in cr.sites[k]:
            nm = rec["name"]
            path = rec["path"]
            if nm == "exit" and "process" in path:
                a = call["args"][0]
                ok = a[0] == "k" and a[1].get("k") == "int" and a[1]["v"] != 0
                ctx.ob("exit", "status", ok, call["span"], "the program exits with a status that may be 0", n)
            if nm == "catch_unwind":
                ctx.ob("exit", "panic", False, call["span"], "a failure is caught", n)
            if nm in LAZY and any(re.search(r"std::io::(Lines|Split|Bytes)<", str(t)) for t in (rec.get("args") or ())):
                ctx.ob("result", nm, False, call["span"], "a failure to read is filtered out by %s" % nm, n)
    ctx.ob("exit", "looked at", True, None, "%d functions" % len(live))

