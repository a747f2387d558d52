"""C15 no token created by the optimiser continues past a paragraph break"""
from steps import *
import c11
import automaton

RULE = ("every path of a function that makes a token set with a new token out of statistics: the string added is one for which the validity test was true on that path; "
        "the test is false exactly for a string with two newlines followed by another byte somewhere; every other string an optimisation step adds is one byte "
        "or a string of the set it started from")
TECHNIQUE = "path conditions of the function summaries (abstract interpretation of MIR with value numbering); who adds tokens: call graph"
NL = 10


def check(ctx):
    s = steps(ctx)
    add = c11.adder(ctx)
    ctx.floor("functions that pick a token", len(s.pickers), 1)
    valid = set()
    for n in s.pickers:
        val = [v for v in c11.validators(ctx, n) if is_test(ctx, v)]
        valid |= set(val)
        ps, _ = ctx.run(n, (add,) + tuple(val))
        w = ctx.where_fn(n)
        k = 0
        for p in ps:
            if p.val is NONE:
                continue
            x = c11.token_set_in(p.val)
            made = x is not None and x.op == "mutout" and x.a[0] == add
            for e, _l in flat_events(p.events):
                if e.name != add:
                    continue
                k += 1
                t = e.args[1]
                ctx.ob("added", "valid", is_valid(t, p, val) or chosen_valid(ctx, n, add, t, val), e.span, "a token is added that was not tested for a paragraph break: %s" % show(t)[:160], n)
            ctx.ob("added", "set", made, w, "the token set made is %s" % show(x if x is not None else p.val)[:160], n)
        ctx.floor("tokens added by %s" % n, k, 1)
    others(ctx, s, add)


def is_valid(t, p, val):
    facts = set(p.conds) | set(p.asserts)
    if any(lit(raw("call", v, t)) in facts for v in val):
        return True
    # the test written out in place
    return any(not q and no_break(a, t) for a, q in facts)


def chosen_valid(ctx, n, add, t, val):
    """the string is that of an element chosen among those that pass the test"""
    import best
    import c35
    r = c35.Picker(ctx, n, add).resolve(t)
    if r is None:
        return False
    _, conds, x = r[:3]
    return any(q and any(a is raw("call", v, x) for v in val) or not q and no_break(a, x) for a, q in best.real(conds))


def no_break(a, t):
    """'there is a position with two newlines and another byte after them' for the string t"""
    if a.op != "exists" or len(a.a[1]) != 1:
        return False
    bv = raw("bv", a.a[0])
    return position_set(a.a[1][0], [a.a[2]] if isinstance(a.a[2], frozenset) else a.a[2], bv, t)


def position_set(trips, cases, bv, t):
    """does bv range over all positions and do the cases say: newline, newline, something else"""
    for off in (0, -1, -2):
        want = {lit(eq_int(idx(t, add(bv, I(off))), I(NL))), lit(eq_int(idx(t, add(bv, I(off + 1))), I(NL))), lit(neg(eq_int(idx(t, add(bv, I(off + 2))), I(NL))))}
        for c in cases:
            if set(c) == want and len(list(cases)) == 1:
                d = sub(trips, sub(length(t), I(2)))
                if off == 0 and isint(d) and d.a[0] >= 0:
                    return True
    return False


def is_test(ctx, v):
    """is v true exactly for strings without a byte after two newlines"""
    ps, _ = ctx.run(v)
    t = sym("arg", 0)
    w = ctx.where_fn(v)
    if not ctx.ob("test", "paths", bool(ps), w, "no summary of the validity test", v):
        return False
    try:
        bad = automaton.agree([(p.conds, p.val) for p in ps], t, 0, break_step, lambda q: q < 3)
    except automaton.NotFinite:
        bad = None
    if bad is not None:
        # a scan of the bytes: compared with the reference automaton for all strings
        return ctx.ob("test", "scan", bad is True, w, "the validity test answers wrongly for the bytes %s" % (bad,), v)
    ok = True
    for p in ps:
        facts = set(p.conds) | set(p.asserts)
        val = p.val
        good = False
        if val is TRUE or val is FALSE:
            short = any(too_short(a, q, t) for a, q in facts)
            for a, q in facts:
                if no_break(a, t) and q == (val is FALSE):
                    good = True
            good = good or short and val is TRUE
        else:
            # the value itself is the quantified condition
            a, q = lit(val) if isinstance(lit(val), tuple) else (val, True)
            good = no_break(a, t) and not q
        ok = ctx.ob("test", "true" if val is TRUE else "false" if val is FALSE else "value", good, w, "the validity test answers %s under %s" % (show(val)[:80], showlits(p.conds)[:200]), v) and ok
    return ok


def break_step(q, b):
    """newlines just seen (0, 1, 2 or more), 3: a paragraph break with something after it was seen"""
    if q == 3:
        return 3
    if b == NL:
        return min(q + 1, 2)
    return 3 if q == 2 else 0


def too_short(a, q, t):
    """a fact that the string has fewer than three bytes"""
    if a.op != "pos":
        return False
    return linear.entails([(a, q)], sub(I(2), length(t)), depth=1)


def others(ctx, s, add):
    """strings added elsewhere in a step: single bytes, or strings of the set at hand"""
    cr = crate(ctx)
    live = cr.live()
    step = cr.reach([s.fs[s.step].d["key"]])
    k = 0
    pick = {s.fs[n].d["key"] for n in s.pickers}
    akey = s.fs[add].d["key"]
    todo = {}
    for key in sorted(cr.back.get(akey, ())):
        if key not in live or key not in step or key in pick or cr.only_from(key, pick):
            continue
        todo.setdefault(cr.name_of.get(key.split("::{closure")[0]), []).append(key)
    for n, keys in sorted(todo.items(), key=lambda x: str(x[0])):
        if n is None:
            ctx.ob("other", "closure", False, ctx.prog.fns[keys[0]]["span"], "tokens are added in a closure", keys[0])
            continue
        seen = set()
        sp = c11.splitters(ctx) | c11.encoders(ctx) | c11.makers(ctx)
        ps, _ = ctx.run(n, tuple(sorted({add} | sp - {n})))
        for p in ps:
            for e, ls in flat_events(p.events):
                if e.name != add:
                    continue
                k += 1
                seen.add(tuple(e.span))
                t = e.args[1]
                one = length(t) is ONE
                own = t.op == "payload" and t.a[1] == "Str" and t.a[0].op == "idx" and t.a[0].a[0].op == "field" and t.a[0].a[0].a[1] == "tokens" and given(t.a[0].a[0].a[0])
                ctx.ob("other", "string", one or own, e.span, "the optimiser adds %s, which is neither a single byte nor a token it had" % show(t)[:160], n)
        # what a closure adds is seen where the closure is called
        for key in keys:
            for rec, call in cr.sites[key] if "{closure" in key else ():
                if akey in (rec["res"], rec["key"]):
                    ctx.ob("other", "closure", tuple(call["span"]) in seen, call["span"], "tokens are added in a closure that is not followed", n)
    ctx.floor("other tokens added", k, 3)


def given(x):
    """an argument, or the token set of statistics given"""
    return x.op == "sym" or x.op == "field" and x.a[1] == "token_set" and x.a[0].op == "sym"
