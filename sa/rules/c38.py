"""C38 long optimisations save what they have reached"""
from commands import *
import linear

RULE = ("every round of the optimiser's loop in which a step found a better set: the set is written as JSON to <tokens dir>/<its name>.json and the time of the last save becomes the time measured in the round, or "
        "the path's conditions say that no more than a minute has passed since the last save, whose time is left alone; the time of the last save is measured before the first round")
TECHNIQUE = "command and optimiser summaries (abstract interpretation of MIR with value numbering): typestate of the time of the last save over the rounds of the loop"

MINUTE = 60 * 10 ** 9
UNITS = {"secs": 10 ** 9, "millis": 10 ** 6, "micros": 10 ** 3, "nanos": 1, "mins": MINUTE, "hours": 60 * MINUTE}


def check(ctx):
    ps, n, nm = optimizer(ctx)
    step = nm["optimization_step"]
    w = ctx.where_fn(n)
    f = ctx.fn(n)
    dirs = [i for i, t in enumerate(args_of(f)) if t in ("&std::path::Path", "&std::path::PathBuf", "std::path::PathBuf")]
    if not ctx.ob("saved", "directory", len(dirs) == 1, w, "the optimiser takes %d paths" % len(dirs), n):
        return
    d = sym("arg", dirs[0])
    k = due = 0
    for p in ps:
        for e in p.events:
            if not isinstance(e, tuple) or not any(x.name == step for q in e[1].paths for x, _ in flat_events(q.events)):
                continue
            L = e[1]
            for q in L.paths:
                facts = set(q.conds) | set(q.asserts)
                own = [x for x in q.events if not isinstance(x, tuple) and x.name == step]
                outs = outputs(q.events)
                for o in outs:
                    k += 1
                    found = [x for x in own if position(q.events, x) < o.idx][-1:]
                    cur = {payload(x.res, "Some") for x in found if x.res is not None} or {x.args[0] for x in own[:1]}
                    written(ctx, o, d, cur, facts, nm, w, n)
                if q.kind != "cont" or own and not outs and all(x.res is not None and lit(neg(is_variant(x.res, "Some"))) in facts for x in own):
                    continue        # no set was found
                due += 1
                if outs:
                    took(ctx, L, q, w, n)
                else:
                    recent(ctx, L, q, facts, w, n)
    ctx.floor("rounds of the optimiser", due, 2)
    ctx.floor("saves while optimising", k, 1)
    cmds, nm1 = commands(ctx)
    m = 0
    for P in cmds.get("Optimize", []):
        for e, _ in flat_events(P.events):
            if e.name == nm1["optimize_tokenset"]:
                m += 1
                ctx.ob("saved", "tokens dir", e.args[dirs[0]] is P.opt("tokens_dir"), e.span, "what the optimiser reaches is saved in %s instead of the tokens directory" % show(e.args[dirs[0]])[:100], P.variant)
    ctx.floor("optimisations the command makes", m, 2)


def position(events, x):
    return [i for i, e in enumerate(events) if e is x][0]


def args_of(f):
    s = f.d["sig"]
    s = s[s.index("(") + 1:]
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "(<[":
            depth += 1
        if c in ")>]":
            if depth == 0:
                break
            depth -= 1
        if c == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def written(ctx, o, d, cur, facts, nm, w, n):
    ctx.ob("saved", "no failure", o.ev.res is not None and lit(is_variant(o.ev.res, "Ok")) in facts, o.ev.span, "the optimisation goes on although the set could not be saved", n)
    ts = None
    if o.content is not None and o.content.op == "app" and o.content.a[0] == "json_text":
        j = o.content.a[1]
        if j.op == "call" and j.a[0] == nm["TokenSet::to_json"]:
            ts = j.a[1]
    if not ctx.ob("saved", "content", ts is not None, o.ev.span, "what is saved while optimising is not the JSON text of a token set: %s" % show(o.content)[:200], n):
        return
    ctx.ob("saved", "set", ts in cur, o.ev.span, "the set saved while optimising is not the one just found: %s" % show(ts)[:200], n)
    name = None
    if o.dest.op == "app" and o.dest.a[0] == "pathjoin" and o.dest.a[1] is d:
        x = o.dest.a[2]
        if x.op == "cat" and len(x.a) == 2 and x.a[1] is S(".json") and x.a[0].op == "call" and x.a[0].a[0] == nm["TokenSet::name"]:
            name = x.a[0].a[1]
    ctx.ob("saved", "file", name is ts, o.ev.span, "the set is saved as %s instead of <tokens dir>/<its name>.json" % show(o.dest)[:200], n)


# ---- time
def is_now(t):
    return t.op == "ev" and t.a[0].startswith("std::time::") and t.a[0].endswith("::now")


def clocks(L):
    """variables of the loop that hold a time measured before it"""
    return {k: v for k, v in L.leaves.items() if is_now(v["init"]) or deadline(v["init"])}


def took(ctx, L, q, w, n):
    c = clocks(L)
    for k, v in c.items():
        x = q.upd.get(k, v["phi"])
        ctx.ob("time", "after a save", x is v["phi"] or (deadline if deadline(v["init"]) else is_now)(x), w, "after a save its time is taken to be %s" % show(x)[:100], n)


def recent(ctx, L, q, facts, w, n):
    """not saved: a minute has not passed since the last save"""
    ok = False
    for k, v in clocks(L).items():
        if q.upd.get(k, v["phi"]) is not v["phi"]:
            continue
        if any(within(a, p, v["phi"], v["init"]) for a, p in facts):
            ok = True
    ctx.ob("time", "no save", ok, w, "a set found by a step is not saved although more than a minute may have passed since the last save: %s" % showlits(facts)[:300], n)


def within(a, p, last, init):
    """the condition says that no more than a minute has passed since last"""
    if a.op == "app" and a.a[0] == "lt":
        x, y = a.a[1], a.a[2]
        if not p and elapsed(y, last) or p and elapsed(x, last):
            t = duration(x if not p else y)
            return t is not None and t <= MINUTE
        # a time later than last + a minute
        if not p and is_now(y) and due(x, last, init) or p and is_now(x) and due(y, last, init):
            return True
        return False
    if a.op in ("pos", "eq0"):
        for x in {y for y in walk(a) if y.op in ("app", "call") and isinstance(y.a[0], str) and "::as_" in y.a[0] and elapsed(y.a[1], last)}:
            u = next((v for m, v in UNITS.items() if y_name(x).startswith("as_" + m)), None)
            # the last whole unit of the minute, exactly: more than a minute is at least 60 whole seconds
            if u and linear.entails([(a, p)], sub(I(MINUTE // u), x)):
                return True
    return False


def y_name(x):
    return x.a[0].split("::")[-1]


def elapsed(t, last):
    """time since last"""
    if t.op == "ev" and t.a[0].endswith("::elapsed"):
        return t.a[1][0] is last
    if t.op == "payload":
        return elapsed(t.a[0], last)
    if t.op == "app" and isinstance(t.a[0], str) and (t.a[0] == "Sub::sub" or t.a[0].split("::")[-1] in ("duration_since", "saturating_duration_since", "checked_duration_since")):
        return is_now(t.a[1]) and t.a[2] is last
    return False


def due(t, last, init):
    """the time of the next save: last and no more than a minute, or kept as such"""
    return deadline(t, lambda x: x is last) or t is last and deadline(init)


def deadline(t, start=is_now):
    """a time and no more than a minute"""
    if t.op == "app" and t.a[0] == "Add::add" and start(t.a[1]):
        x = duration(t.a[2])
        return x is not None and x <= MINUTE
    return False


def duration(t):
    """nanoseconds, or None"""
    if t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("std::time::Duration::"):
        m = t.a[0].split("::")[-1]
        if m.startswith("from_") and m[5:] in UNITS and isint(t.a[1]):
            return t.a[1].a[0] * UNITS[m[5:]]
        if m == "new" and isint(t.a[1]) and isint(t.a[2]):
            return t.a[1].a[0] * 10 ** 9 + t.a[2].a[0]
    return None
