"""C16 re-optimising single bytes keeps the rest of the token set"""
from steps import *
import c11

RULE = ("every path of every function that chooses single bytes: the set it returns is the one of the statistics given, or has that set's processing mode and paragraph flag and "
        "contains each of its tokens longer than one byte; an optimisation step uses what such a function returns as it is")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering): fields and token list of the returned set as terms over the set given"


def check(ctx):
    s = steps(ctx)
    ctx.floor("ways to choose single bytes", len(s.impls), 3)
    for n in s.impls:
        keeps(ctx, n)
    k = 0
    w = ctx.where_fn(s.step)
    for p, x in s.results():
        k += 1
        ctx.ob("used", "as returned", s.origin(x) is not None, w, "a step changes the set it was given to %s" % show(x)[:200], s.step)
    ctx.floor("sets a step returns", k, 3)


def keeps(ctx, n):
    st = sym("arg", 0)
    ts = field(st, "token_set")
    ps, _ = ctx.run(n, tuple(sorted(c11.makers(ctx))))
    w = ctx.where_fn(n)
    k = 0
    for p in ps:
        k += 1
        if p.val is ts:
            ctx.ob("kept", "set", True, w, "", n)
            continue
        for f in ("processing", "split_paragraphs"):
            for v in values(ctx, field(p.val, f)):
                ctx.ob("kept", f, v is field(ts, f), w, "choosing single bytes sets %s to %s" % (f, show(v)[:120]), n)
        ctx.ob("kept", "longer tokens", has_long(field(p.val, "tokens"), ts), w, "a token longer than one byte may be lost when single bytes are chosen: %s" % showlits(p.conds)[:120], n)
    ctx.floor("paths of %s" % n, k, 1)


def has_long(t, ts):
    toks = field(ts, "tokens")
    parts = []
    st = [t]
    while st:
        x = st.pop()
        if x.op == "cat":
            st += list(x.a)
        elif x.op == "push":
            st.append(x.a[0])
        elif x.op == "build":
            st.append(x.a[1])
            parts.append(x)
    for b in parts:
        if list(b.a[2]) != [length(toks)]:
            continue
        bv = raw("bv", b.a[0])
        covers = set()
        for conds, els in b.a[3]:
            r = long_or_all(conds, toks, bv)
            if r and any(is_token(e, idx(toks, bv)) for e in els):
                return True
    return False


def long_or_all(conds, toks, bv):
    """is the condition implied by 'a string of more than one byte'"""
    e = idx(toks, bv)
    s = payload(e, "Str")
    ok = {lit(is_variant(e, "Str")), lit(pos(sub(length(s), ONE))), lit(pos(length(s))), lit(neg(eq_int(length(s), ONE))), lit(neg(eq_int(length(s), ZERO)))}
    return all((a, q) in ok for a, q in conds)


def is_token(x, e):
    if x is e:
        return True
    return x.op == "agg" and str(x.a[0]).endswith("Token") and str(x.a[1]) == "Str" and x.a[3] is payload(e, "Str")


def values(ctx, v, depth=0):
    """the possible values of a field of the best of several sets"""
    if depth > 4:
        return [v]
    cs = c11.loop_cases(v)
    if cs:
        return [y for x, _ in cs for y in values(ctx, x, depth + 1)]
    if v.op == "field" and v.a[0].op == "call" and ctx.has(v.a[0].a[0]) and v.a[0].a[0] in c11.makers(ctx):
        n = v.a[0].a[0]
        ps, _ = ctx.run(n, tuple(sorted(c11.splitters(ctx) | c11.encoders(ctx))))
        out = []
        for p in ps:
            out += values(ctx, subst(field(p.val, v.a[1]), {sym("arg", i): a for i, a in enumerate(v.a[0].a[1:])}), depth + 1)
        return out or [v]
    return [v]
