"""C03 a dying worker surfaces as a failure"""
from ctx import *
import c02

RULE = ("channel-end ownership in the thread that starts the workers: whenever it blocks on sending a job or receiving a result, "
        "it owns no channel end that would keep the operation blocked once the workers are gone; every received result is "
        "required to be present; workers do not catch panics")


def owned_captures(fns, clos):
    """captures a closure value owns: those taken by value and not themselves references"""
    fn = fns.get(clos.a[0])
    if fn is None:
        return list(clos.a[1:])
    ref = set()
    for name, (_, projs, ty) in fn["upvars"] if isinstance(fn, dict) else ():
        i = next((x[2] for x in projs if x[0] == "."), None)
        if i is not None and (projs[-1] == ["*"] or ty.startswith("&")):
            ref.add(i)
    return [a for i, a in enumerate(clos.a[1:]) if i not in ref]


def chan_ends(v, op, chan, fns={}):
    """does the live value v own an end of the channel (ends inside spawned workers are theirs)"""
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "ev":
            continue
        if x.op in ("fold", "out", "brk", "build", "call"):
            # results computed from a channel do not own it, collections may
            if x.op != "build":
                continue
        if x.op == op and x.a[0] is chan:
            return True
        if x.op in ("rx", "tx"):
            continue
        stack.extend(owned_captures(fns, x) if x.op == "clos" else x.a)
    return False


def check(ctx):
    fn = c02.ENTRY
    ps, eng = ctx.run(fn, c02.OPQ, track_live=True)
    w = ctx.where_fn(fn)
    nsend = nrecv = 0
    for p in ps:
        spawns = c02.named(p.events, "thread::spawn")
        if not spawns:
            continue
        scoped = all(e.clos == "scoped" for e, _ in spawns)
        jobs = set()
        for e, ls in c02.named(p.events, "mpsc::send"):
            tx = e.args[0]
            if tx.op != "tx":
                ctx.ob("blocked", "send", False, e.span, "sends on an unknown channel %s" % show(tx), fn)
                continue
            nsend += 1
            jobs.add(tx.a[0])
            own = [r for r, v in (e.live or {}).items() if live_type(ctx, eng, r, v) and chan_ends(v, "rx", tx.a[0], ctx.prog.fns)]
            ctx.ob("blocked", "send to workers", not own or "sync" not in tx.a[2], e.span,
                   "while sending jobs this thread itself still owns the receiving end: if the workers die it blocks forever", fn)
        recvs = [(e, e.args[0], ls) for e, ls in c02.named(p.events, "mpsc::recv")]
        for e, rx, ls in recvs:
            nrecv += 1
            own = [r for r, v in (e.live or {}).items() if live_type(ctx, eng, r, v) and chan_ends(v, "tx", rx.a[0], ctx.prog.fns)] if rx.op == "rx" else [1]
            ctx.ob("blocked", "receive results", not own, e.span,
                   "while waiting for results this thread itself still owns a sending end: if a worker dies it blocks forever", fn)
            held = [j for j in jobs if any(live_type(ctx, eng, r, v) and chan_ends(v, "tx", j, ctx.prog.fns) for r, v in (e.live or {}).items())]
            ctx.ob("blocked", "job channel closed", not held, e.span,
                   "while waiting for results the job channel is still open: the workers never finish", fn)
            q = p
            for L in ls:
                for x in L.paths:
                    if any(y is e for y in x.events):
                        q = x
            got = lit(is_variant(e.res, "Ok"))
            ctx.ob("missing", "result", got in q.asserts or got in q.conds and q.kind != "exit", e.span,
                   "a result that never arrives is not turned into a failure", fn)
        it = [x for e, ls in flat_events(p.events) for a in e.args for x in walk(a) if x.op == "app" and x.a[0] == "recvs"]
        if not recvs and it:
            # results taken until the channel closes: a missing one shows only when joining
            nrecv += 1
            joins = c02.named(p.events, "thread::join")
            ok = scoped and not joins or joins and all(joined_ok(p, e, ls) for e, ls in joins)
            ctx.ob("missing", "join", ok, joins[0][0].span if joins else w, "a worker that dies is not noticed: its join result is ignored", fn)
        elif not recvs:
            joins = c02.named(p.events, "thread::join")
            nrecv += len(joins)
            for e, ls in joins:
                ctx.ob("missing", "join", joined_ok(p, e, ls), e.span, "the join result of a worker is ignored", fn)
        for e, ls in spawns:
            clos = e.args[0]
            if clos.op != "clos":
                continue
            try:
                qs = ctx.engine(c02.OPQ).run(None, [clos], key=clos.a[0])
            except Exception as x:
                ctx.ob("analysis", "worker", False, e.span, "no summary of the worker: %s" % x, fn)
                continue
            ctx.paths += len(qs)
            caught = [y for q in qs for y, _ in flat_events(q.events) if "catch_unwind" in y.name]
            caught += [1 for q in qs for t in [q.val] + [a for y, _ in flat_events(q.events) for a in y.args] for z in walk(t)
                       if z.op == "app" and "catch_unwind" in str(z.a[0])]
            ctx.ob("missing", "panic caught", not caught, e.span, "the worker catches its own panic and goes on with partial results", fn)
    ctx.floor("blocking sends of jobs", nsend, 1)
    ctx.floor("blocking receives or joins", nrecv, 1)
    # nothing else in the program catches panics of the tokeniser
    for f in ctx.prog.fns.values():
        for b in f["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[1].get("fn") and "catch_unwind" in str(t[1]["fn"].get("path", "")):
                ctx.ob("missing", "catch_unwind", False, t[1]["span"], "a panic is caught in %s" % f["path"], f["path"])


def joined_ok(p, e, ls):
    q = p
    for L in ls:
        for x in L.paths:
            if any(y is e for y in x.events):
                q = x
    got = lit(is_variant(e.res, "Ok"))
    return got in q.asserts or got in q.conds and q.kind != "exit"


def live_type(ctx, eng, root, v):
    """does the root own its value (not a reference local)"""
    if root[0] != "L":
        return True
    ty = eng.frame_types.get((root[1], root[2]), "")
    return not ty.startswith("&")
