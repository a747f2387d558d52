"""C36 single bytes are chosen by how often they occur"""
from steps import *
import best
import c11
from best import J, K, ls, real

RULE = ("tables indexed by byte as layers of stores over the tokens and the sequences of a set. Every estimate of a set on statistics is the sum, over the single-byte tokens and sequences of the statistics, of the "
        "count times what the byte costs in the set (1 for a token, the number of its tokens for a sequence). Every byte chooser that sorts the bytes sorts all 256 by greatest count first and "
        "adds a prefix; every one that measures candidates weighs bytes by their counts, sums weight times cost over the candidate, and keeps the least")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering): folds of stores as byte tables, sums as products over single-byte tokens and sequences, best-so-far scans"


def check(ctx):
    s = steps(ctx)
    k = 0
    for n in sorted(s.estimate):
        k += estimate(ctx, n)
    ctx.floor("estimates", k, 1)
    ks = [chooser(ctx, s, n) for n in s.impls]
    ctx.floor("choosers that sort bytes", sum(1 for x in ks if x == "sorts"), 1)
    ctx.floor("choosers that weigh bytes", sum(1 for x in ks if x == "weighs"), 1)


P, P0 = raw("sym", "candidate"), raw("sym", "position")


# ---- layers
def split_cat(trips, cs, vs):
    """comprehensions over a concatenation, one per part"""
    for t in list(vs) + [a for a, _ in cs]:
        for x in walk(t):
            if x.op == "idx" and x.a[1] is J and x.a[0].op == "cat":
                C = x.a[0]
                out = []
                for part in C.a:
                    m = {x: idx(part, J)}
                    out += split_cat([length(part)], [ls(a, p, m) for a, p in cs], [subst(v, m) for v in vs])
                return out
    return [(trips, cs, vs)]


def generic(trips, cs, vs):
    """over the positions of the innermost collections: [(trips, conds, values)]"""
    out = []
    for tr, c, v in split_cat(trips, cs, vs):
        if len(tr) == 1:
            e = best.over(tr[0], c, tup(*v))
            if e is not None:
                tr, c, e = e
                v = [field(e, str(i)) for i in range(len(v))]
        out.append((list(tr), [x for x in c if isinstance(x, tuple)], v))
    return out


def layers(t):
    """a table as (initial value, [(trips, conds, key, value)]), last layer first; None if it is not one"""
    out, phis = [], []
    while True:
        if t.op == "out" and t.a[0].op == "fold":
            F, k = t.a
            if F.a[4]:
                return None
            bv, ph = raw("bv", F.a[0]), raw("phi", F.a[0], k)
            for conds, upd in F.a[3]:
                v = upd[k]
                while v is not ph:
                    if v.op == "store":
                        key, val = v.a[1], v.a[2]
                    elif v.op == "app" and v.a[0] == "minsert" and len(v.a) == 4:
                        key, val = v.a[2], v.a[3]
                        v = raw("store", v.a[1], key, val)
                    else:
                        return None
                    phis.append(ph)
                    out += [(tr, c, x[0], x[1]) for tr, c, x in generic(list(F.a[1]), [ls(a, p, {bv: J}) for a, p in conds], [subst(key, {bv: J}), subst(val, {bv: J})])]
                    v = v.a[0]
            t = F.a[2][k]
            continue
        return (t, [(tr, cs, k, start(v, phis, t)) for tr, cs, k, v in out]) if t.op != "store" else None


def start(v, phis, init):
    """what an entry held before is what it held at the start: each byte is stored once"""
    if init.op == "app":            # an empty map
        return v
    return subst(v, {x: idx(init, x.a[1]) for x in walk(v) if x.op == "idx" and x.a[0] in phis})


class Source:
    """single bytes of a set: its one-byte tokens or its one-byte sequences"""
    def __init__(self, ts):
        self.ts = ts
        self.toks, self.seqs = field(ts, "tokens"), field(ts, "sequences")

    def string(self, kind):
        return payload(idx(self.toks, J), "Str") if kind == "tok" else field(idx(self.seqs, J), "string")

    def byte(self, t):
        """which kind of element t is the byte of"""
        for kind in ("tok", "seq"):
            st = self.string(kind)
            if t is idx(st, ZERO) or t is idx(st, sub(length(st), ONE)):
                return kind
        return None

    def conds(self, kind, cs):
        """do the conditions say exactly: this element is a single byte; the rest of the conditions"""
        st = self.string(kind)
        one, rest = False, []
        for a, p in cs:
            if (a, p) == lit(eq_int(length(st), ONE)):
                one = True
            elif kind == "tok" and (a, p) in (lit(is_variant(idx(self.toks, J), "Str")), lit(neg(is_variant(idx(self.toks, J), "Ext")))):
                pass
            elif (a, p) in (lit(pos(length(st))), lit(neg(eq_int(length(st), ZERO)))):
                pass
            elif (a, p) == lit(neg(pos(sub(length(st), ONE)))):
                one = True          # strings are not empty
            else:
                rest.append((a, p))
        return one or kind == "seq", rest

    def whole(self, kind, trips, counts=None):
        """is every element visited"""
        L = self.toks if kind == "tok" else self.seqs
        ok = {length(L)} | ({length(counts[kind])} if counts else set())
        return bool(trips) and all(t in ok for t in trips)


def counts_of(st):
    return {"tok": field(st, "token_counts"), "seq": field(st, "seq_counts")}


class Table:
    """a table filled from the single bytes of a set"""
    def __init__(self, t, src, counts=None):
        self.t = t
        self.why = None
        self.val = {}
        x = layers(t)
        if x is None:
            self.why = "the table is not filled by stores: %s" % show(t)[:150]
            return
        self.init, ls_ = x
        for trips, cs, key, val in ls_:
            kind = src.byte(key)
            if kind is None:
                self.why = "an entry is stored under something other than the byte of a token: %s" % show(key)[:150]
                return
            one, rest = src.conds(kind, cs)
            rest = [r for r in rest if not fresh(r, t)]
            if not one or real(rest):
                self.why = "an entry is stored for other than every single byte: %s" % showlits(cs)[:150]
                return
            if not src.whole(kind, trips, counts):
                self.why = "not all tokens are looked at: %s" % " ".join(show(x) for x in trips)[:150]
                return
            if kind in self.val:
                self.why = "single bytes are stored twice"
                return
            self.val[kind] = val
        if set(self.val) != {"tok", "seq"}:
            self.why = "the table lacks the bytes that are " + " and ".join({"tok": "tokens", "seq": "sequences"}[k] for k in ("tok", "seq") if k not in self.val)


def fresh(l, t):
    return False


def unwrapped(v):
    """a stored value without Option, tuple or conversions around the number"""
    if v.op == "agg" and str(v.a[1]) == "Some":
        return v.a[3]
    return v


# ---- sums
def rows(t):
    """a number as a list of (trips, conds, value) summed over J, or None"""
    c, d = lin_parts(t)
    if c:
        return None
    out = []
    for x, k in d.items():
        if k != 1 or x.op != "sum":
            return None
        h, trips, cases = x.a
        bv = raw("bv", h)
        for conds, v in cases:
            out += [(tr, cs, vs[0]) for tr, cs, vs in generic(list(trips), [ls(a, p, {bv: J}) for a, p in conds], [subst(v, {bv: J})])]
    return out


def factors(v):
    """a product as a set of factors"""
    if v.op == "mul":
        out = []
        for x in v.a:
            f = factors(x)
            out += f
        return out
    if v is ONE:
        return []
    return [v]


def lookup(f):
    """a value read from a table: (table, key, accessors) or None"""
    acc = []
    while True:
        if f.op == "payload":
            acc.append(("payload", f.a[1]))
            f = f.a[0]
        elif f.op == "field":
            acc.append(("field", f.a[1]))
            f = f.a[0]
        elif f.op == "app" and len(f.a) == 2 and str(f.a[0]).startswith(("i64", "u64", "usize", "widen", "cast", "as ")):
            f = f.a[1]
        else:
            break
    if f.op == "idx":
        return f.a[0], f.a[1], tuple(reversed(acc))
    if f.op == "app" and f.a[0] == "mget" and acc and acc[-1] == ("payload", "Some"):
        acc.pop()
        return f.a[1], f.a[2], tuple(reversed(acc))
    return None


def access(v, acc):
    for k, x in acc:
        v = payload(v, x) if k == "payload" else field(v, x)
    return v


def product(t, src, counts, single, what):
    """is a number the sum over the single bytes of a set of a table entry times the factor `what` gives for the element?
    -> ((table, accessors), None) or (None, why not)"""
    rs = rows(t)
    if rs is None:
        return None, "it is not a sum over tokens: %s" % show(t)[:150]
    seen, table = set(), None
    for trips, cs, v in rs:
        fs = factors(v)
        if any(f is ZERO for f in fs):
            continue
        kind = look = None
        for f in fs:
            l = lookup(f)
            if l is not None and src.byte(l[1]) is not None:
                kind, look = src.byte(l[1]), l
                rest = [x for x in fs if x is not f]
                break
        if kind is None:
            return None, "a part of the sum does not look up the byte of the element: %s" % show(v)[:150]
        T, key, acc = look
        one, more = src.conds(kind, cs)
        more = [c for c in more if not present(c, T, key)]
        if any(absent(c, T, key) for c in more):
            continue
        if not one and not single or real(more):
            return None, "the sum is not over every single byte: %s" % showlits(cs)[:150]
        if not src.whole(kind, trips, counts):
            return None, "the sum is not over all: %s" % " ".join(show(x) for x in trips)[:150]
        if kind in seen:
            return None, "single bytes are counted twice"
        seen.add(kind)
        if sorted(x.id for x in rest) != sorted(x.id for x in what(kind)):
            return None, "what is summed is %s" % show(v)[:200]
        if table is not None and table != (T, acc):
            return None, "two tables are used"
        table = (T, acc)
    if seen != {"tok", "seq"}:
        return None, "bytes that are %s are left out" % " and ".join({"tok": "tokens", "seq": "sequences"}[k] for k in ("tok", "seq") if k not in seen)
    return table, None


def entry(T, key):
    return [idx(T, key), app("mget", T, key)]


def present(c, T, key):
    return any(c == lit(is_variant(x, "Some")) for x in entry(T, key))


def absent(c, T, key):
    return any(c == lit(neg(is_variant(x, "Some"))) for x in entry(T, key))


# ---- estimates
def estimate(ctx, n):
    me, st = sym("arg", 0), sym("arg", 1)
    w = ctx.where_fn(n)
    ps, _ = ctx.run(n)
    counts = counts_of(st)
    src = Source(field(st, "token_set"))
    for p in ps:
        tb, why = product(p.val, src, counts, False, lambda kind: [idx(counts[kind], J)])
        ctx.ob("estimate", "sum", tb is not None, w, "an estimate is not the sum of count times cost over the single bytes of the statistics: %s" % why, n)
        if tb is None:
            continue
        T, acc = tb
        costs = Table(T, Source(me))
        ctx.ob("estimate", "costs", costs.why is None, w, "the costs of the bytes: %s" % costs.why, n)
        if costs.why:
            continue
        got = {k: access(v, acc) for k, v in costs.val.items()}
        ctx.ob("estimate", "cost of a token", got["tok"] is ONE, w, "a byte that is a token is taken to cost %s" % show(got["tok"])[:100], n)
        ctx.ob("estimate", "cost of a sequence", got["seq"] is length(field(idx(field(me, "sequences"), J), "tokens")), w, "a byte that is a sequence is taken to cost %s" % show(got["seq"])[:100], n)
    return len(ps)


# ---- choosers
def chooser(ctx, s, n):
    st = sym("arg", 0)
    ts = field(st, "token_set")
    ps, _ = ctx.run(n, tuple(sorted(c11.makers(ctx))))
    kinds = set()
    for p in ps:
        if p.val is ts:
            kinds.add("leaves")
            continue
        singles, others = [], []
        for b in parts(field(p.val, "tokens")):
            (singles if b.op == "build" and byte_of(b) is not None else others).append(b)
        if singles:
            kinds.add("sorts")
            sorts(ctx, n, p, singles, ts)
        else:
            kinds.add("weighs")
            weighs(ctx, n, p, others, st)
    return kinds.pop() if len(kinds) == 1 else None


def parts(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if x.op == "cat":
            st += list(x.a)
        elif x.op == "push":
            st.append(x.a[0])
        elif x.op == "build" and x.a[1] is not EMPTY:
            st.append(x.a[1])
            out.append(raw("build", x.a[0], EMPTY, x.a[2], x.a[3]))
        else:
            out.append(x)
    return out


def byte_of(b):
    """the byte of a comprehension of one-byte tokens (over its own variable)"""
    if len(b.a[3]) != 1 or len(b.a[3][0][1]) != 1:
        return None
    e = b.a[3][0][1][0]
    if e.op == "agg" and str(e.a[0]).endswith("Token") and str(e.a[1]) == "Str" and length(e.a[3]) is ONE:
        return idx(e.a[3], ZERO)
    return None


def sorts(ctx, n, p, singles, ts):
    w = ctx.where_fn(n)
    ctx.ob("sorts", "once", len(singles) == 1, w, "single bytes are added in more than one place", n)
    st = sym("arg", 0)
    for b in singles:
        bv = raw("bv", b.a[0])
        x = byte_of(b)
        conds = b.a[3][0][0]
        L = next((y.a[0] for y in walk(x) if y.op == "idx" and y.a[1] is bv and best.ordering(y.a[0]) is not None), None)
        ok = L is not None and not conds
        ctx.ob("sorts", "sorted", ok, w, "the single bytes added are not the first of all bytes by some order: %s" % show(x)[:150], n)
        if not ok:
            continue
        room = [sub(sym("arg", 1), field(y, "n_ext_tokens")) for y in (ts, p.val)]
        trips = [t for t in b.a[2] if t not in (length(L), I(256))]
        ok = len(trips) == 1 and (trips[0] in room or any(trips[0] is app("min", *sorted((I(256), r), key=lambda z: z.id)) or set(trips[0].a[1:]) == {I(256), r} and trips[0].a[0] == "min" for r in room if trips[0].op == "app"))
        ok = ok or not trips and any(lit(pos(sub(r, I(k)))) in p.conds for r in room for k in (255, 256))
        ctx.ob("sorts", "how many", ok, w, "the number of single bytes added is %s" % " ".join(show(t) for t in b.a[2])[:150], n)
        e = best.elements(L)
        up, cmp_ = best.ordering(L)
        ok = e is not None and not e[1]
        ctx.ob("sorts", "all bytes", ok, w, "some bytes are not considered: %s" % show(best.unsort(L))[:150], n)
        if not ok:
            continue
        trips, _, elem = e
        byte = subst(x, {idx(L, bv): elem})
        pair = cmp_(elem, subst(elem, {J: K}))
        keys = [best.first_part(x)[0] for x in pair or ()]
        look = cnt = None
        for c in [c for k in keys for c in (k, scale(k, -1))]:
            l = lookup(c)
            if l is not None and l[1] is not K and contains(l[1], lambda x: x is J):
                look, cnt = l, c
        ctx.ob("sorts", "by count", look is not None, w, "the bytes are not sorted by an entry of a table", n)
        if look is None:
            continue
        T, k, acc = look
        order = best.descends(pair, cnt, subst(cnt, {J: K}))
        ctx.ob("sorts", "greatest first", order is not None and order == up, w, "the bytes are not sorted by count, greatest first", n)
        tab = weights(ctx, n, T, acc, st, "sorts")
        if tab is None:
            continue
        ctx.ob("sorts", "own count", is_byte(k) and (is_byte(byte) or names_byte(byte, T, tab)), w, "the byte added is %s, the count it is sorted by that of %s" % (show(byte)[:100], show(k)[:100]), n)
        ctx.ob("sorts", "all 256", all(t in (I(256), length(T)) for t in trips), w, "not all bytes are sorted: %s" % " ".join(show(t) for t in trips)[:100], n)


def is_byte(k):
    return k is J or k.op == "app" and k.a[0] == "trunc" and k.a[-1] is J or k.op == "trunc" and k.a[-1] is J


def names_byte(byte, T, tab):
    """a component of the table's entry that holds the byte it is the entry of"""
    l = lookup(byte)
    if l is None or l[0] is not T or not is_byte(l[1]):
        return False
    return all(tab.src.byte(access(v, l[2])) == kind for kind, v in tab.val.items())


def weights(ctx, n, T, acc, st, rule):
    """a table that gives each byte its count, or its count and a constant"""
    w = ctx.where_fn(n)
    src = Source(field(st, "token_set"))
    counts = counts_of(st)
    tab = Table(T, src, counts)
    tab.src = src
    ctx.ob(rule, "table", tab.why is None, w, "the counts of the bytes: %s" % tab.why, n)
    if tab.why:
        return None
    cs = set()
    for kind, v in tab.val.items():
        d = sub(access(v, acc), idx(counts[kind], J))
        ok = isint(d)
        cs.add(d)
        ctx.ob(rule, "counts", ok, w, "a byte is counted as %s" % show(access(v, acc))[:150], n)
    ctx.ob(rule, "same for all", len(cs) == 1, w, "bytes that are tokens are counted otherwise than bytes that are sequences", n)
    return tab


def weighs(ctx, n, p, others, st):
    w = ctx.where_fn(n)
    toks = field(p.val, "tokens")
    k = 0
    for b in others:
        for z in best.choices_in(b):
            k += 1
            r = candidate(z)
            ctx.ob("weighs", "least", r is not None, w, "the set returned is not the candidate with the least total: %s" % show(z)[:150], n)
            if r is None:
                continue
            trips, conds, cand, total = r
            if cand.op == "agg":
                cand = next((x for x in cand.a[3:] if x is not total and rows(x) is None), cand)
            ctx.ob("weighs", "every candidate", not real(conds), w, "some candidates are left out: %s" % showlits(conds)[:150], n)
            src = Source(cand)
            tb, why = product(total, src, None, True, lambda kind: [] if kind == "tok" else [length(field(idx(src.seqs, J), "tokens"))])
            ctx.ob("weighs", "total", tb is not None, w, "what is compared is not the sum of weight times cost over the candidate: %s" % why, n)
            if tb is None:
                continue
            T, acc = tb
            tab = weights(ctx, n, T, acc, st, "weighs")
            if tab is None:
                continue
            base = cand
            while base.op in ("with", "mutout", "field", "payload"):
                base = base.a[0]
            ctx.ob("weighs", "same weights", base.op == "call" and any(a is T for a in base.a[1:]), w, "candidates are made from other weights than those they are compared by", n)
    ctx.floor("choices among candidates of %s" % n, k, 1)


def candidate(z):
    """the choice of the set with the least total: (trips, conds, set over P, its total over P)"""
    if z.op == "payload" and z.a[0].op == "out" and z.a[0].a[0].op == "fold":
        F, leaf = z.a[0].a
        acc = lambda v: payload(v, "Some")
    elif z.op == "out":
        F, leaf = z.a
        acc = lambda v: v
    else:
        return sorted_choice(z)
    found = []

    def total_of(val):
        return scale(found[-1], -1)
    for i in range(len(F.a[2])):
        for t in totals(F, i):
            found.append(subst(t, {P0: J}))
            r = best.scan(F, leaf, total_of)
            if r is not None:
                trips, conds, val, _u = r
                return trips, [c for c in conds], subst(acc(val), {J: P}), subst(found[-1], {J: P})
    return None


def totals(F, i):
    """numbers a scan keeps that are sums, alone or beside what they belong to"""
    out = []
    for conds, upd in F.a[3]:
        t = unwrapped(subst(upd[i], {raw("bv", F.a[0]): P0}))
        ts = list(t.a[3:]) if t.op == "agg" else [t]
        out += [x for x in ts if x not in out and rows(x) is not None]
    return out


def sorted_choice(z):
    e = None
    if z.op == "payload" and z.a[0].op == "app" and z.a[0].a[0] in ("min_by_key", "min_by") and z.a[0].a[2].op == "lam":
        e = best.elements(z.a[0].a[1])
        cmp_ = best.keyed(z.a[0].a[2])
    if e is None:
        return None
    trips, conds, elem = e
    pair = cmp_(elem, subst(elem, {J: K}))
    if pair is None:
        return None
    t, rev = best.first_part(pair[0])
    u, rev2 = best.first_part(pair[1])
    if rev or rev2 or u is not subst(t, {J: K}):
        return None
    return trips, conds, subst(elem, {J: P}), subst(t, {J: P})
