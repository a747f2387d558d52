"""C42 byte codes follow the frequencies"""
from steps import *
import best
import c11
import c29
import linear
from best import J, K

RULE = ("the functions that split byte counts: the part of a byte has the count of the byte, the part that replaces two neighbours the sum of both; two are joined as long as there are more parts than asked for and only then, "
        "and they are at the position with the least sum of the counts of two neighbours, among all positions of the list (a scan that keeps the least so far, or the minimum of a sequence, by a key that is that sum). "
        "The functions that name the top byte of a part: for a part of one byte the byte with its count; for a part of two the top byte and its count of one of them, taken together, "
        "of one whose count is at least that of the other, on every path")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering): structural induction over parts, least-so-far scans and minima by key, linear entailment of path conditions"


def check(ctx):
    sp = c11.splitters(ctx)
    ctx.floor("functions that split byte counts", len(sp), 1)
    for n in sorted(sp):
        splitter(ctx, n)


def splitter(ctx, n):
    w = ctx.where_fn(n)
    ps, _ = ctx.run(n, c29.node_functions(ctx, n))
    A, k = sym("arg", 0), sym("arg", 1)
    used, shapes, merges = set(), set(), 0
    for p in ps:
        v = p.val
        ok = v.op == "build" and len(v.a[3]) == 1 and len(v.a[3][0][1]) == 1
        x = v.a[3][0][1][0] if ok else None
        ok = ok and x.op == "call" and len(x.a) == 2 and x.a[1].op == "idx"
        if not ctx.ob("parts", "result", ok, w, "the parts are not turned into the result by one function: %s" % show(v)[:160], n):
            continue
        used.add(x.a[0])
        nodes = x.a[1].a[0]
        ends = [(L, key, l) for L in loops_of(p.events, deep=False) if not L.trips for key, l in L.leaves.items()
                if nodes.op == "brk" and isinstance(nodes.a[1], int) and nodes.a[0].a[2][nodes.a[1]] is l["init"]]
        if not ctx.ob("parts", "merging", len(ends) == 1, w, "the parts are not the result of one merging loop: %s" % show(nodes)[:120], n):
            continue
        L, key, l = ends[0]
        one(ctx, n, l["init"], A, L.span, shapes)
        phi = l["phi"]
        more = sub(length(phi), k)
        for q in L.paths:
            nums = [c for c in q.conds if c[0].op in ("pos", "eq0")]
            if q.kind in ("exit", "done"):
                ctx.ob("parts", "few enough", linear.entails(nums, sub(ZERO, more), nonneg=c29.anything), L.span, "parts are no more joined although there may be more than asked for: %s" % showlits(nums)[:160], n)
            if q.kind != "cont":
                continue
            merges += 1
            ctx.ob("parts", "too many", linear.entails(nums, sub(more, ONE), nonneg=c29.anything), L.span, "parts are joined although there may be no more than asked for: %s" % showlits(nums)[:160], n)
            joined(ctx, n, q.upd.get(key, phi), phi, L.span, shapes)
    ctx.floor("%s: ways to join two parts" % n, merges, 1)
    counts = {c for _, c in shapes}
    if ctx.ob("parts", "one count", len(counts) == 1, w, "parts keep their count in %s" % ", ".join(sorted(counts)), n):
        for f in sorted(used):
            part(ctx, f, counts.pop())


def one(ctx, n, t, A, w, shapes):
    ok = t.op == "build" and len(t.a[3]) == 1 and len(t.a[3][0][1]) == 1
    x = t.a[3][0][1][0] if ok else None
    cf = [f for f, v in zip(x.a[2], x.a[3:]) if v is field(idx(A, raw("bv", t.a[0])), "1")] if ok and x.op == "agg" else []
    ctx.ob("parts", "count of a byte", len(cf) == 1, w, "the part of a byte does not have the count of the byte: %s" % show(t)[:160], n)
    shapes.update(("leaf", f) for f in cf)


def joined(ctx, n, x, phi, w, shapes):
    found = False
    for y in walk(x):
        if y.op != "agg":
            continue
        f, c = c29.variant_field(y)
        if f is None or len(c.a) != 5:
            continue
        a, b = c.a[3], c.a[4]
        if a.op != "idx" or a.a[0] is not phi or b is not idx(phi, add(a.a[1], ONE)):
            continue
        found = True
        cf = [g for g, v in zip(y.a[2], y.a[3:]) if g != f and v is add(field(a, g), field(b, g))]
        if ctx.ob("parts", "count of two", len(cf) == 1, w, "the part made of two does not have the sum of their counts: %s" % show(subst(y, {phi: sym("parts"), a.a[1]: sym("i")}))[:260], n):
            shapes.add(("inner", cf[0]))
            def pair(i, g=cf[0]):
                return add(field(idx(phi, i), g), field(idx(phi, add(i, ONE)), g))
            why = least(a.a[1], phi, pair)
            ctx.ob("parts", "least pair", why is None, w, "the two parts joined are not known to be the neighbours that occur least: %s" % why, n)
    ctx.ob("parts", "join", found, w, "joining does not put two neighbours into one part: %s" % show(subst(x, {phi: sym("parts")}))[:200], n)


def least(i, phi, pair):
    """None when position i has the least pair(i) of all 0 <= i < len - 1; else what was not understood"""
    n = sub(length(phi), ONE)
    base, sel = i, []
    while True:
        if base.op == "out" or base.op == "payload" and base.a[0].op in ("out", "app") or base.op == "app":
            break
        if base.op == "field":
            sel.append(base.a[1])
            base = base.a[0]
        elif base.op == "payload":
            base = base.a[0]
        else:
            return "it is %s" % show(subst(i, {phi: sym("parts")}))[:160]

    def pick(e):
        for s in reversed(sel):
            e = field(e, s)
        return e
    if base.op == "payload" and base.a[0].op == "app" and base.a[0].a[0] in ("min_by_key", "min_by", "min", "max_by_key", "max_by", "max"):
        # key over an element
        r = base.a[0]
        S = best.unsort(r.a[1])
        if S.op == "build" and len(S.a[2]) > 1 and n in S.a[2] and all(linear.entails([], sub(t, n), nonneg=c29.anything) for t in S.a[2]):
            S = raw("build", S.a[0], S.a[1], (n,), S.a[3])
        e = best.elements(S)
        if e is None:
            return "the sequence searched is %s" % show(subst(r.a[1], {phi: sym("parts")}))[:160]
        trips, cs, elem = e
        k0 = pick(elem)
        if k0 is rev(n, J):
            elem, k0 = subst(elem, {J: rev(n, J)}), J
        if list(trips) != [n] or best.real(cs) or k0 is not J:
            return "the positions searched are not all: %s" % show(subst(tup(*trips, k0), {phi: sym("parts")}))[:160]
        lam = r.a[2] if len(r.a) > 2 else None
        cmp_ = best.keyed(lam) if lam is not None and getattr(lam, "op", "") == "lam" else (lambda a, b: (a, b))
        d = best.descends(cmp_(elem, subst(elem, {J: K})), pair(J), pair(K))
        up = r.a[0].startswith("min")
        if d is None or d == up:
            return "the order is %s" % show(subst(r, {phi: sym("parts")}))[:200]
        return None
    o = base.a[0] if base.op == "payload" else base
    if o.op == "out" and o.a[0].op == "fold":
        F, leaf = o.a
        if len(F.a[1]) != 1 or not isinstance(leaf, int) or F.a[4]:
            return "the positions searched may end early: %s" % show(subst(raw("fold", F.a[0], F.a[1], (), (), F.a[4]), {phi: sym("parts")}))[:160]

        def cand(v):
            u = v
            if base.op == "payload":
                u = payload(u, base.a[1])
            u = pick(u)
            return scale(pair(J), -1) if u is J else None
        F = turned(F, n, lambda v: pick(payload(v, base.a[1]) if base.op == "payload" else v), leaf)
        if list(F.a[1]) == [n]:
            r = best.scan(F, leaf, cand)
            if r is not None and not r[1]:
                return None
        if kept_least(F, leaf, n, pair, base, pick):
            return None
        return "the search is %s" % show(subst(F, {phi: sym("parts")}))[:300]
    return "it is %s" % show(subst(i, {phi: sym("parts")}))[:160]


def rev(n, j):
    return sub(sub(n, ONE), j)


def turned(F, n, at, leaf):
    """a scan from the last position to the first as one from the first to the last (the order does not matter for which is least but for ties)"""
    bv = raw("bv", F.a[0])
    if any(at(v[leaf]) is rev(n, bv) for _, v in F.a[3]):
        m = {bv: rev(n, bv)}
        return raw("fold", F.a[0], F.a[1], F.a[2], frozenset((frozenset(best.ls(a, p, m) for a, p in c), tuple(subst(v, m) for v in vs)) for c, vs in F.a[3]), F.a[4])
    return F


def kept_least(F, leaf, n, pair, base, pick):
    """a scan that starts with the first pair, or with a count no pair can exceed, and keeps the least"""
    h = F.a[0]
    bv = raw("bv", h)
    phis = [raw("phi", h, i) for i in range(len(F.a[2]))]
    for k in (0, 1):
        if F.a[1][0] is not sub(n, I(k)):
            continue
        at = add(bv, I(k)) if k else bv
        c = pair(at)
        for m in range(len(phis)):
            ok = moved = False
            old = phis[m]
            if m == leaf:
                old = pair(pick(payload(old, base.a[1]) if base.op == "payload" else old))
            for conds, vals in F.a[3]:
                facts = numbers(conds)
                if all(v is ph for v, ph in zip(vals, phis)):
                    ok = linear.entails(facts, sub(c, old), nonneg=c29.anything)
                else:
                    v = vals[leaf]
                    u = pick(payload(v, base.a[1]) if base.op == "payload" else v)
                    ok = u is at and (vals[m] is c or m == leaf) and linear.entails(facts, sub(old, c), nonneg=c29.anything)
                    moved = True
                if not ok:
                    break
            if not ok or not moved:
                continue
            i0, m0 = F.a[2][leaf], F.a[2][m]
            first = pair(ZERO)
            u0 = pick(payload(i0, base.a[1]) if base.op == "payload" else i0)
            if u0 is not ZERO:
                continue
            if m == leaf or m0 is first:
                return True
            if k == 0 and m0.op == "int" and m0.a[0] >= 2 ** 64 - 1:
                return True
    return False


def part(ctx, f, count):
    """the top byte of a part and its count"""
    w = ctx.where_fn(f)
    ps, _ = ctx.run(f)
    nd = sym("arg", 0)
    tops = set()
    seen = set()
    for p in ps:
        v = p.val
        calls = sorted({x for x in walk(v) if x.op == "call" and x.a[0] == f}, key=lambda x: x.id)
        if not calls:
            seen.add("one")
            if not ctx.ob("top", "record", v.op == "agg", w, "what is known of a part is %s" % show(v)[:160], f):
                continue
            cf = [g for g, x in zip(v.a[2], v.a[3:]) if x is field(nd, count)]
            ctx.ob("top", "count of a byte", len(cf) == 1, w, "the count of the top byte of a part of one byte is not that of the part: %s" % show(v)[:200], f)
            tops.update(cf)
    if not ctx.ob("top", "one count", len(tops) == 1, w, "counts of top bytes are in %s" % ", ".join(sorted(tops)), f):
        return
    g = tops.pop()
    for p in ps:
        v = p.val
        calls = sorted({x for e in [v] + [a for a, _ in p.conds] for x in walk(e) if x.op == "call" and x.a[0] == f}, key=lambda x: x.id)
        if not calls:
            continue
        seen.add("two")
        if not ctx.ob("top", "two parts", len(calls) == 2, w, "a part is made of %d others: %s" % (len(calls), show(v)[:160]), f):
            continue
        one_, two = calls
        ok = all(more_frequent(x, facts, one_, two, g, ctx) for x, facts in cases_of(v, p.conds, one_, two, g))
        ctx.ob("top", "more frequent", ok, w, "the top byte of a part made of two and its count are not those of the one whose top occurs more often: %s when %s" % (show(v)[:200], showlits(p.conds)[:160]), f)
    ctx.ob("top", "kinds", seen == {"one", "two"}, w, "only parts of %s are known" % ", ".join(sorted(seen)), f)


def numbers(conds):
    """the conditions on numbers, comparisons by their order among them"""
    out = []
    for a, p in conds:
        if a.op in ("pos", "eq0"):
            out.append((a, p))
        elif a.op == "is" and a.a[0].op == "app" and a.a[0].a[0] == "cmp":
            x, y = a.a[0].a[1], a.a[0].a[2]
            d = {"Greater": sub(x, y), "Less": sub(y, x)}.get(str(a.a[1]))
            if d is not None:
                out.append(lit(pos(d)) if p else lit(neg(pos(d))))
            elif p:
                out.append(lit(eq_int(x, y)))
    return out


def cases_of(v, conds, one_, two, g):
    """a value by cases of what a choice among the two parts takes"""
    facts = numbers(conds)
    for z in best.choices_in(v):
        r = z.a[0]
        if z.op != "payload" or r.op != "app" or r.a[1].op != "list" or set(r.a[1].a) != {one_, two}:
            continue
        cmp_ = best.keyed(r.a[2]) if len(r.a) > 2 and getattr(r.a[2], "op", "") == "lam" else (lambda a, b: (a, b))
        d = best.descends(cmp_(one_, two), field(one_, g), field(two, g))
        if d is None:
            continue
        most = d == r.a[0].startswith("min")
        return [(subst(v, {z: a}), facts + [lit(neg(pos(sub(field(b, g), field(a, g)) if most else sub(field(a, g), field(b, g)))))]) for a, b in ((one_, two), (two, one_))]
    return [(v, facts)]


def more_frequent(v, facts, one_, two, g, ctx):
    big = [x for x in (app("max", field(one_, g), field(two, g)), app("max", field(two, g), field(one_, g)), raw("max", field(one_, g), field(two, g)), raw("max", field(two, g), field(one_, g)))]
    for a, b in ((one_, two), (two, one_)):
        if not linear.entails(facts, sub(field(a, g), field(b, g)), nonneg=c29.anything):
            continue
        c = field(v, g)
        if (c is field(a, g) or c in big) and any(field(v, x) is field(a, x) for x in top_names(ctx)):
            return True
    return False


def top_names(ctx):
    """the field of a part that is used as the byte with a code of its own (what the structural check of parts finds)"""
    got = getattr(ctx, "_part42", None)
    if got is None:
        quiet = Quiet(ctx)
        for n in sorted(c11.splitters(ctx)):
            c29.splitter(quiet, n)
        got = ctx._part42 = getattr(quiet, "_part", None)
    return [got[1]] if got else []


class Quiet:
    """a context whose obligations are decided elsewhere"""
    def __init__(self, ctx):
        self.__dict__["_c"] = ctx

    def ob(self, rule, what, ok, *a, **k):
        return ok

    def floor(self, *a, **k):
        return True

    def __getattr__(self, x):
        return getattr(self._c, x)
