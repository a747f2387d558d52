"""C18 sequences keep naming the same tokens when tokens move"""
from ctx import *
from crate import Crate
from rules.c19 import JUDGED

RULE = ("the summaries of the methods that move tokens are split into the rearrangement of the token list and the renumbering of the "
        "sequences' token references; the renumbering has to be the inverse of the rearrangement on every path (for removal: also "
        "every path has compared every reference of every sequence with the removed number and found none); "
        "no other function moves tokens")

SORT = "TokenSet::sort"
REMOVE = "TokenSet::remove_token"


def strip_sort(t):
    while t.op == "app" and t.a[0] in ("sorted", "sorted_by", "reversed"):
        t = t.a[1]
    return t


def renumbering(seqs, old):
    """the value is the old sequences, possibly in another order, with each token reference t replaced ->
    function from a token-reference term to its replacement, or None"""
    t = strip_sort(seqs)
    if t is old:
        return lambda x: x
    if t.op == "mapupd":
        h, init, trips, el = t.a
        base = strip_sort(init)
    elif t.op == "build" and len(t.a[3]) == 1 and not t.a[3][0][0] and len(t.a[3][0][1]) == 1 and t.a[1] is EMPTY:
        h, init, trips, cases = t.a
        el = cases[0][1][0]
        base = None
    else:
        return None
    bv = raw("bv", h)
    # el = the sequence at bv with only its tokens replaced
    if base is None:
        s = field(el, "string") if el.op in ("agg", "with") else None
        while s is not None and s.op in ("field",):
            s = s.a[0]
            break
        if s is None or s.op != "idx" or s.a[1] is not bv:
            return None
        base = strip_sort(s.a[0])
        src = s
        if list(trips) != [length(s.a[0])]:
            return None
    else:
        src = idx(init, bv)
        if list(trips) != [length(init)]:
            return None
    if base is not old:
        return None
    if field(el, "string") is not field(src, "string"):
        return None
    tk, tk0 = field(el, "tokens"), field(src, "tokens")
    if tk is tk0:
        return lambda x: x
    if tk.op == "mapupd":
        h2, init2, trips2, e2 = tk.a
        if init2 is not tk0:
            return None
    elif tk.op == "build" and tk.a[1] is EMPTY and len(tk.a[3]) >= 1 and all(len(c[1]) == 1 for c in tk.a[3]) and \
            exhaustive([list(c[0]) for c in tk.a[3]]):
        h2, init2, trips2, cs = tk.a
        e2 = mk_sel([(c[0], c[1][0]) for c in cs])
    else:
        return None
    if list(trips2) != [length(tk0)]:
        return None
    x0 = idx(tk0, raw("bv", h2))
    mark = raw("ref")
    r = subst(e2, {x0: mark})
    if contains(r, lambda z: z is tk0 or (z.op == "bv" and z.a[0] in (h, h2) and not closed(r, z))):
        return None
    return lambda x: subst(r, {mark: x})


def closed(r, bv):
    """is every occurrence of the bound variable inside its binder"""
    def go(t, bound):
        if t is bv:
            return bound
        b = bound or (t.op in ("build", "mapupd", "fold", "exists", "sum", "lam") and t.a[0] == bv.a[0])
        return all(go(x, b) for x in subterms(t))
    return go(r, False)


def subterms(t):
    def f(a):
        for x in a:
            if isinstance(x, T):
                yield x
            elif isinstance(x, (tuple, frozenset)):
                yield from f(tuple(x))
    return f(t.a)


REF = raw("ref")


def check(ctx):
    sort_check(ctx)
    remove_check(ctx)
    order_check(ctx)
    c = Crate(ctx)
    key = lambda n: ctx.fn(n).d["key"] if ctx.has(n) else None
    allowed = {key(n) for n in JUDGED + (ctx.role("TokenSet::add_token", "fn(&mut tokenset::TokenSet, &[u8]) -> usize"),)} - {None}
    n = 0
    live = c.live()
    for k, f, sp in c.field_writes("TokenSet", ("tokens",)) + c.field_writes("Sequence", ("tokens", "string")):
        if k not in live and k not in allowed:
            continue
        n += 1
        ctx.ob("mover", c.name_of.get(k, k), c.only_from(k, allowed), sp,
               "the tokens of a token set, or what a sequence refers to, are changed in place outside the methods that keep them in step",
               c.name_of.get(k, k))
    ctx.floor("in-place changes of tokens or references", n, 3)


def others(ctx, rule, fn, r, a):
    for f, _ in ctx.fields("TokenSet"):
        if f not in ("tokens", "sequences"):
            ctx.ob(rule, "keeps", field(r, f) is field(a, f), ctx.where_fn(fn), "%s changes" % f, fn)


def sort_check(ctx):
    fn = ctx.role(SORT, "fn(&mut tokenset::TokenSet)")
    ps, _ = ctx.run(fn)
    a = sym("arg", 0)
    T0 = field(a, "tokens")
    w = ctx.where_fn(fn)
    ctx.floor("ways through sorting", len(ps), 1)
    for p in ps:
        r = p.upd.get(("P", 0), a)
        others(ctx, "sort", fn, r, a)
        T1 = field(r, "tokens")
        P = rearrangement(T1, T0)
        if not ctx.ob("sort", "tokens", P is not None, w, "afterwards the tokens are %s, not a rearrangement" % show(T1)[:200], fn):
            continue
        N = renumbering(field(r, "sequences"), field(a, "sequences"))
        if not ctx.ob("sort", "sequences", N is not None, w,
                      "afterwards the sequences are %s, not the old ones renumbered" % show(field(r, "sequences"))[:300], fn):
            continue
        new = N(REF)
        ctx.ob("sort", "inverse", inverse(new, P, T0, T1), w,
               "a reference t becomes %s, which is not where the token numbered t has moved" % show(new)[:300], fn)


def rearrangement(T1, T0):
    """T1 is T0 in another order -> ("sorted", T1) | ("perm", P with T1[j] = T0[P[j]]) | ("same", None)"""
    if T1 is T0:
        return ("same", None)
    if T1.op == "app" and T1.a[0] == "sorted" and T1.a[1] is T0:
        return ("sorted", T1)
    if T1.op == "build" and T1.a[1] is EMPTY and len(T1.a[3]) == 1 and not T1.a[3][0][0] and len(T1.a[3][0][1]) == 1:
        e = T1.a[3][0][1][0]
        if e.op == "idx" and e.a[0] is T0 and e.a[1].op == "idx" and e.a[1].a[1] is raw("bv", T1.a[0]) and \
                is_perm(e.a[1].a[0], T0) and list(T1.a[2]) == [length(T0)]:
            return ("perm", e.a[1].a[0])
    return None


def iota_list(t, T0):
    return t.op == "build" and t.a[1] is EMPTY and list(t.a[2]) == [length(T0)] and len(t.a[3]) == 1 and not t.a[3][0][0] and \
        list(t.a[3][0][1]) == [raw("bv", t.a[0])]


def is_perm(P, T0):
    return P.op == "app" and P.a[0] in ("sorted_by", "sorted", "reversed") and iota_list(strip_sort(P), T0)


def sorted_idx(P, T0):
    """P lists the token numbers in the order of the tokens (as sorting the tokens themselves would)"""
    if not (P.op == "app" and P.a[0] == "sorted_by" and iota_list(P.a[1], T0)):
        return False
    lam = P.a[2]
    if lam.op != "lam":
        return False
    n, h, cases = lam.a
    if len(cases) != 1:
        return False
    (conds, body), = list(cases)
    if conds:
        return False
    v = [raw("bv", h, k) for k in range(n)]
    if n == 1:
        return body is idx(T0, v[0])
    return n == 2 and (body.op == "cmp" or body.op == "app" and body.a[0] == "cmp") and \
        tuple(body.a[-2:]) == (idx(T0, v[0]), idx(T0, v[1]))


def inverse(new, P, T0, T1):
    """does replacing a reference t by `new` name the same token after the rearrangement"""
    kind, perm = P
    if kind == "same":
        return new is REF
    # looked up by value in the new list
    if new.op == "brk" and new.a[1] == "pos":
        for x in walk(new.a[0]):
            if x.op == "eq" and list(new.a[0].a[4]) == [(x, True)] and any(y is idx(T0, REF) for y in x.a) and any(y.op == "idx" and y.a[0] is T1 for y in x.a):
                return True
    if new.op == "idx" and new.a[1] is REF:
        M = new.a[0]
        if M.op == "out":
            F = M.a[0]
            if F.op == "fold" and len(F.a[2]) == 1 and length(F.a[2][0]) is length(T0) and list(F.a[1]) == [length(T0)] and len(F.a[3]) == 1:
                (conds, (u,)), = list(F.a[3])
                h = F.a[0]
                bv = raw("bv", h)
                if not conds and u.op == "store" and u.a[0] is raw("phi", h, 0) and u.a[2] is bv and \
                        u.a[1].op == "idx" and u.a[1].a[1] is bv:
                    Q = u.a[1].a[0]
                    return Q is perm if kind == "perm" else sorted_idx(Q, T0)
    return False


def remove_check(ctx):
    fn = ctx.role(REMOVE, "fn(&mut tokenset::TokenSet, usize)")
    ps, _ = ctx.run(fn)
    a, i = sym("arg", 0), sym("arg", 1)
    T0, S0 = field(a, "tokens"), field(a, "sequences")
    n = length(T0)
    w = ctx.where_fn(fn)
    ctx.floor("ways through removal", len(ps), 1)
    for p in ps:
        facts = set(p.conds) | set(p.asserts)
        r = p.upd.get(("P", 0), a)
        st = State()
        for x, pol in facts:
            st.learn(x, pol)
        if st.bounds(n)[1] == 0:
            ctx.ob("remove", "empty set", r is a, w, "an empty set changes", fn)
            continue
        others(ctx, "remove", fn, r, a)
        ctx.ob("remove", "unused", unused(p, facts, S0, i), w,
               "a token can be removed although it was not compared with every reference of every sequence", fn)
        T1 = field(r, "tokens")
        last = sub(n, ONE)
        at_last = contains_eq(facts, i, last)
        kind = None
        if T1 is slice_(T0, ZERO, last):
            kind = "last"
            ctx.ob("remove", "which", at_last, w, "the last token goes instead of the one asked for", fn)
        elif T1 is store(slice_(T0, ZERO, last), i, idx(T0, last)) or \
                T1 is slice_(store(T0, i, idx(T0, last)), ZERO, last):
            kind = "swap"
        elif T1 is cat(slice_(T0, ZERO, i), slice_(T0, add(i, ONE), n)):
            kind = "shift"
        if not ctx.ob("remove", "tokens", kind is not None, w, "afterwards the tokens are %s" % show(T1)[:200], fn):
            continue
        N = renumbering(field(r, "sequences"), S0)
        if not ctx.ob("remove", "sequences", N is not None, w,
                      "afterwards the sequences are %s, not the old ones renumbered" % show(field(r, "sequences"))[:300], fn):
            continue
        # evaluate the renumbering on: the last token, and one that does not move
        new = N(REF)
        ctx.ob("remove", "renumber", remap_ok(new, kind, i, last, at_last), w,
               "a reference t becomes %s, which does not follow the moved token" % show(new)[:300], fn)


def contains_eq(facts, x, y):
    a, p = lit(eq_int(x, y))
    return (a, p) in facts


def remap_ok(new, kind, i, last, at_last):
    d = eq_int(REF, last)
    cases = [(frozenset(c), v) for c, v in new.a[0]] if new.op == "sel" else [(frozenset(), new)]
    if not exhaustive([c for c, _ in cases]):
        return False
    la, lp = lit(d)
    for c, v in cases:
        st = State()
        for x, pol in c:
            st.learn(x, pol)
        is_last = (la, lp) in c
        not_last = (la, not lp) in c
        if kind in ("last",) or at_last:
            # only references to tokens that stay: none is the removed one, all keep their numbers
            if v is not REF and not is_last:
                return False
        elif kind == "swap":
            if is_last and v is not i:
                return False
            if not_last and v is not REF:
                return False
            if not is_last and not not_last:
                return False
        elif kind == "shift":
            gt_a, gt_p = lit(lt(i, REF))
            ge_a, ge_p = lit(le(i, REF))
            if (gt_a, gt_p) in c or (ge_a, ge_p) in c:
                if v is not sub(REF, ONE):
                    return False
            elif (gt_a, not gt_p) in c or (ge_a, not ge_p) in c:
                if v is not REF:
                    return False
            else:
                return False
    return True


def unused(p, facts, S0, i):
    """the path has established that no sequence refers to token i"""
    for x, pol in facts:
        if x.op == "exists" and not pol and no_ref_exists(x, S0, i):
            return True
    for l in loops_of(p.events, deep=False):
        if list(l.trips) == [length(S0)] and all(q.kind in ("cont", "done") for q in l.paths):
            s = idx(S0, l.iota)
            if all(no_ref(q, s, i) for q in l.paths if q.kind == "cont"):
                return True
    return False


def no_ref(q, s, i):
    tk = field(s, "tokens")
    fs = set(q.conds) | set(q.asserts)
    for x, pol in fs:
        if x.op == "exists" and not pol and list(x.a[1]) == [length(tk)] and \
                set(x.a[2]) == {lit(eq_int(i, idx(tk, raw("bv", x.a[0]))))}:
            return True
    for l in loops_of(q.events, deep=False):
        if list(l.trips) == [length(tk)] and all(r.kind in ("cont", "done") for r in l.paths):
            a, pol = lit(eq_int(i, idx(tk, l.iota)))
            if all((a, not pol) in set(r.conds) | set(r.asserts) for r in l.paths if r.kind == "cont"):
                return True
    return False


def no_ref_exists(x, S0, i):
    if list(x.a[1]) != [length(S0)] or len(x.a[2]) != 1:
        return False
    (y, pol), = x.a[2]
    tk = field(idx(S0, raw("bv", x.a[0])), "tokens")
    return pol and y.op == "exists" and list(y.a[1]) == [length(tk)] and set(y.a[2]) == {lit(eq_int(i, idx(tk, raw("bv", y.a[0]))))}


def order_check(ctx):
    """tokens that compare equal are equal, so sorting tokens and sorting their numbers agree"""
    import c39
    a, b = sym("arg", 0), sym("arg", 1)
    for fn, p, v in c39.compares(ctx, "Token"):
        facts = set(p.conds) | set(p.asserts)
        va = variant_of(a, facts)
        vb = variant_of(b, facts)
        ok = False
        if c39.by_number(v, a, b, va, vb):
            ok = True
        elif v.op == "cmp" or (v.op == "app" and v.a[0] == "cmp"):
            x, y = v.a[-2:]
            ok = va == vb and va is not None and {x, y} == {payload(a, va), payload(b, vb)} and x is not y
        elif v.op == "agg" and v.a[1] in ("Less", "Greater"):
            ok = va is not None and vb is not None and va != vb
        ctx.ob("order", "equal means same", ok, ctx.where_fn(fn), "two tokens compare as %s" % show(v), fn)


def variant_of(t, facts):
    for v in ("Ext", "Str"):
        a, p = lit(is_variant(t, v))
        if (a, p) in facts:
            return v
    return None
