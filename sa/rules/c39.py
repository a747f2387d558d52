"""C39 optimised token sets are saved in one canonical order"""
from commands import *
import c18

RULE = ("every path on which the optimiser returns: the token set measured last, which is the one saved, was passed through sorting after the last step; sorting orders the tokens by their order and the sequences "
        "by their strings; the order of tokens puts extension tokens first, by number, and then strings, byte by byte")
TECHNIQUE = "value provenance over the optimiser's summary; summaries of the comparison functions (abstract interpretation of MIR with value numbering)"


def check(ctx):
    result(ctx)
    sorting(ctx)
    token_order(ctx)
    sequence_order(ctx)


def result(ctx):
    ps, n, nm = optimizer(ctx)
    w = ctx.where_fn(n)
    k = 0
    for p in ps:
        v = p.val
        if v.op != "call":
            ctx.ob("result", "statistics", False, w, "the optimiser returns %s" % show(v)[:200], n)
            continue
        k += 1
        ts = v.a[1] if v.a[0] == nm["tokenize_file"] else v.a[2]
        ok = ts.op == "mutout" and ts.a[0] == nm["TokenSet::sort"] or sorts_itself(ctx, v.a[0], nm)
        ctx.ob("result", "sorted", ok, w, "the token set returned is not the sorted one: %s" % show(ts)[:200], n)
    ctx.floor("paths of the optimiser", k, 5)


def sorts_itself(ctx, fn, nm):
    """a lookup that sorts what it is given: what it measures, and what it looks for, is the sorted set (an entry of the cache is of the very set it is looked up with: C13)"""
    opq = (nm["tokenize_file"], nm["TokenSet::sort"], nm["TokenSet::to_json"])
    if fn in opq:
        return False
    ps, _ = ctx.run(fn, opq)
    srt = lambda x: x.op == "mutout" and x.a[0] == opq[1] and x.a[2] is sym("arg", 1)
    for p in ps:
        uses = [x for x in walk(p.val) if x.op == "call" and x.a[0] in (opq[0], opq[2])]
        if not uses or not all(srt(x.a[1]) for x in uses):
            return False
        if not contains(p.val, lambda x: "mget" in (x.op, x.a[0] if x.op == "app" else None)) and not any(x.a[0] == opq[0] for x in uses):
            return False
    return bool(ps)


def sorting(ctx):
    fn = ctx.role(c18.SORT, "fn(&mut tokenset::TokenSet)")
    ps, _ = ctx.run(fn)
    a = sym("arg", 0)
    T0 = field(a, "tokens")
    w = ctx.where_fn(fn)
    ctx.floor("ways through sorting", len(ps), 1)
    for p in ps:
        facts = set(p.conds) | set(p.asserts)
        r = p.upd.get(("P", 0), a)
        T1 = field(r, "tokens")
        P = c18.rearrangement(T1, T0)
        ok = P is not None and (P[0] == "sorted" or P[0] == "perm" and c18.sorted_idx(P[1], T0))
        ctx.ob("sort", "tokens", ok or few(length(T0), facts), w, "afterwards the tokens are not in order: %s" % show(T1)[:200], fn)
        S1 = field(r, "sequences")
        ctx.ob("sort", "sequences", in_order(S1) or few(length(field(a, "sequences")), facts), w,
               "afterwards the sequences are not in order of their strings: %s" % show(S1)[:200], fn)


def few(n, facts):
    """at most one element"""
    return lit(le(n, ONE)) in facts or lit(neg(pos(n))) in facts


def in_order(t):
    """a list of sequences in order of their strings"""
    if t.op == "app" and t.a[0] == "sorted":
        return True
    if t.op == "app" and t.a[0] == "sorted_by":
        lam = t.a[2]
        if lam.op != "lam" or len(lam.a[2]) != 1:
            return False
        n, h, cases = lam.a
        (conds, body), = list(cases)
        v = [raw("bv", h, k) for k in range(n)]
        if conds:
            return False
        if n == 1:
            return body is field(v[0], "string") or body is v[0]
        if body.op == "cmp" or body.op == "app" and body.a[0] == "cmp":
            return tuple(body.a[-2:]) in ((field(v[0], "string"), field(v[1], "string")), (v[0], v[1]))
        return False
    if t.op == "mapupd":
        return in_order(t.a[1])
    if t.op == "build" and t.a[1] is EMPTY and len(t.a[3]) == 1 and not t.a[3][0][0] and len(t.a[3][0][1]) == 1:
        el = t.a[3][0][1][0]
        s = field(el, "string")
        if s.op == "field" and s.a[0].op == "idx" and s.a[0].a[1] is raw("bv", t.a[0]):
            return in_order(s.a[0].a[0])
    return False


def compares(ctx, ty):
    """the paths of the comparison functions of a type: (function, path, the ordering it gives)"""
    a, b = sym("arg", 0), sym("arg", 1)
    n = 0
    for fn in ("<%s as Ord>::cmp" % ty, "<%s as PartialOrd>::partial_cmp" % ty):
        if not ctx.has(fn):
            continue
        ps, _ = ctx.run(fn)
        for p in ps:
            n += 1
            v = p.val
            if fn.endswith("partial_cmp"):
                v = payload(v, "Some")
                if v.op in ("cmp", "app") and tuple(v.a[-2:]) == (a, b) and (v.op == "cmp" or v.a[0] == "cmp"):
                    continue        # as the total order
            yield fn, p, v
    ctx.floor("ways to compare two of %s" % ty, n, 1)


def token_order(ctx):
    a, b = sym("arg", 0), sym("arg", 1)
    for fn, p, v in compares(ctx, "Token"):
        facts = set(p.conds) | set(p.asserts)
        va, vb = c18.variant_of(a, facts), c18.variant_of(b, facts)
        if va == vb and va is not None:
            ok = v.op in ("cmp", "app") and (v.op == "cmp" or v.a[0] == "cmp") and tuple(v.a[-2:]) == (payload(a, va), payload(b, vb))
        else:
            want = {("Ext", "Str"): "Less", ("Str", "Ext"): "Greater"}.get((va, vb))
            ok = want is not None and (v.op == "agg" and v.a[1] == want or by_number(v, a, b, va, vb) == want)
        ctx.ob("order", "tokens", ok, ctx.where_fn(fn), "%s and %s compare as %s" % (va, vb, show(v)[:200]), fn)


def by_number(v, a, b, va, vb):
    """the order of two variants when their numbers are compared"""
    if not (v.op == "cmp" or v.op == "app" and v.a[0] == "cmp"):
        return None
    x, y = v.a[-2:]
    if x.op != "discr" or y.op != "discr" or x.a[0] is not a or y.a[0] is not b:
        return None
    nx = [k for k, n in x.a[1] if n == va]
    ny = [k for k, n in y.a[1] if n == vb]
    if len(nx) != 1 or len(ny) != 1 or nx == ny:
        return None
    return "Less" if nx < ny else "Greater"


def sequence_order(ctx):
    a, b = field(sym("arg", 0), "string"), field(sym("arg", 1), "string")
    for fn, p, v in compares(ctx, "Sequence"):
        while v.op == "cmpthen" or v.op == "app" and v.a[0] == "cmpthen":
            v = v.a[-2]
        ok = v.op in ("cmp", "app") and (v.op == "cmp" or v.a[0] == "cmp") and tuple(v.a[-2:]) == (a, b)
        # the strings are the same, or decide
        for x, q in set(p.conds) | set(p.asserts):
            if x.op == "is" and (x.a[0].op == "cmp" or x.a[0].op == "app" and x.a[0].a[0] == "cmp") and tuple(x.a[0].a[-2:]) == (a, b):
                if q and x.a[1] == "Equal":
                    ok = True
                elif q and v.op == "agg" and v.a[1] == x.a[1]:
                    ok = True
                elif not q and x.a[1] == "Equal" and v is x.a[0]:
                    ok = True
        ctx.ob("order", "sequences", ok, ctx.where_fn(fn), "two sequences compare as %s" % show(v)[:200], fn)
