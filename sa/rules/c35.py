"""C35 the new token is the most frequent pair allowed"""
from steps import *
import best
import c11
import c15

RULE = ("every path of every function that makes a token set out of pair counts: the string added is that of the two tokens a pair count stands for, in their order; the pair is chosen among "
        "all pairs, left out are only pairs that never occur or whose string fails the paragraph test, and the one chosen has the greatest count; the number returned with it is its count; "
        "nothing is chosen only when no pair is left. Where an optimisation step has both a new byte and a new pair to choose from, its path conditions imply that the one used saves at least as much")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering): sorts, searches and best-so-far scans decided over a generic element; linear entailment for the comparison of the gains"


def check(ctx):
    s = steps(ctx)
    add_ = c11.adder(ctx)
    ctx.floor("functions that pick a token", len(s.pickers), 1)
    for n in s.pickers:
        Picker(ctx, n, add_).check()
    gains(ctx, s)


class Picker:
    def __init__(self, ctx, n, add_):
        self.ctx, self.n, self.add = ctx, n, add_
        self.val = [v for v in c11.validators(ctx, n)]
        self.st = sym("arg", 0)
        self.toks = field(field(self.st, "token_set"), "tokens")
        self.pairs = field(self.st, "pair_counts")
        self.size = length(self.toks)
        self.w = ctx.where_fn(n)

    def check(self):
        ctx = self.ctx
        ps, _ = ctx.run(self.n, (self.add,) + tuple(self.val))
        k = 0
        for p in ps:
            if p.val is NONE:
                self.nothing(p)
                continue
            for e, _l in flat_events(p.events):
                if e.name == self.add:
                    k += 1
                    self.added(p, e)
        ctx.floor("tokens added by %s" % self.n, k, 1)

    # ---- a pair and its count
    def pair(self, t):
        """the two token numbers of a joined string"""
        if t.op != "cat" or len(t.a) != 2:
            return None
        out = []
        for x in t.a:
            if not (x.op == "payload" and x.a[1] == "Str" and x.a[0].op == "idx" and x.a[0].a[0] is self.toks):
                return None
            out.append(x.a[0].a[1])
        return tuple(out)

    def code(self, p, q):
        """where the count of the pair (p, q) is, None if it is not known"""
        for x in walk(p):
            if p is div(x, self.size) and q is rem(x, self.size):
                return x
        return add(mul(p, self.size), q)

    def count(self, t):
        pq = self.pair(t)
        return idx(self.pairs, self.code(*pq)) if pq else None

    # ---- what is added
    def added(self, p, e):
        t = e.args[1]
        ctx, n = self.ctx, self.n
        r = self.resolve(t)
        if not ctx.ob("chosen", "pair", r is not None, e.span, "the token added is not shown to be a pair chosen by its count: %s" % show(t)[:200], n):
            return
        trips, conds, x, how, z = r
        pq = self.pair(x)
        if not ctx.ob("chosen", "string", pq is not None, e.span, "the token added is not two tokens joined: %s" % show(x)[:200], n):
            return
        c = self.count(x)
        self.domain(trips, pq, e.span)
        self.conditions(conds, x, c, e.span)
        ctx.ob("chosen", "most frequent", how == "most", e.span, "the pair chosen is %s" % ("the least frequent" if how == "least" else "not shown to be the most frequent"), n)
        v = payload(p.val, "Some")
        m = 0
        for part in (v.a[3:] if v.op == "agg" else ()):
            if part.op == "mutout" or part is t:
                continue
            m += 1
            y = self.generic(part, z)
            ctx.ob("chosen", "count", y is c, e.span, "the count returned with the token is %s" % show(y if y is not None else part)[:160], n)
        self.m = m

    def domain(self, trips, pq, span):
        p, q = pq
        J = best.J
        c = self.code(p, q)
        ok = list(trips) == [length(self.pairs)] and c is J
        self.ctx.ob("chosen", "all pairs", ok, span, "not all pairs are considered, or the tokens are not those of the pair: %s rounds, pair (%s, %s)" % (
            ", ".join(show(t)[:80] for t in trips), show(p)[:80], show(q)[:80]), self.n)

    def conditions(self, conds, x, c, span):
        positive = False
        for a, p in best.real(conds):
            l = (a, p)
            if l == lit(pos(c)) or l == lit(neg(eq_int(c, ZERO))):
                positive = True
                continue
            ok = self.allowed(a, p, x)
            self.ctx.ob("chosen", "left out", ok, span, "pairs are left out unless %s" % showlits([l])[:200], self.n)
        self.ctx.ob("chosen", "occurs", positive, span, "a pair that never occurs may be chosen", self.n)

    def allowed(self, a, p, x):
        if p and any(a is raw("call", v, x) for v in self.val):
            return True
        if not p and c15.no_break(a, x):
            return True
        # both tokens are strings: the others are never counted in pairs
        if a.op == "is" and a.a[0].op == "idx" and a.a[0].a[0] is self.toks and (a.a[1] == "Str") == p:
            return True
        # a joined string is not empty
        return (a, p) in (lit(pos(length(x))), lit(pos(sub(length(x), ONE))))

    # ---- from a value to a generic candidate
    def resolve(self, t):
        """(trips, conditions, string of a generic candidate, 'most'/'least', choice term)"""
        zs = best.choices_in(t)
        if len(zs) != 1:
            # a scan may carry several accumulators
            fs = {self.fold_of(z) for z in zs}
            if len(fs) != 1 or None in fs:
                return None
        z = zs[0] if zs else None
        if z is None:
            return None
        F = self.fold_of(z)
        if F is not None:
            return self.scan(t, F)

        def count_of(elem):
            return self.count(subst(t, {z: elem}))
        r = best.choose(z, count_of)
        if r is None:
            return None
        trips, conds, elem, how = r
        return trips, conds, subst(t, {z: elem}), how, (z, elem)

    def fold_of(self, z):
        y = z.a[0] if z.op == "payload" else z
        return y.a[0] if y.op == "out" else None

    def scan(self, t, F):
        h = F.a[0]
        for leaf in range(len(F.a[2])):
            def outs(upd):
                m = {}
                for i, v in enumerate(upd):
                    m[raw("out", F, i)] = v
                return m
            box = {}

            def count_of(val, leaf=leaf):
                bv = raw("bv", h)
                for conds, vals in F.a[3]:
                    if vals[leaf] is not raw("phi", h, leaf):
                        x = subst(t, outs([subst(v, {bv: best.J}) for v in vals]))
                        box["x"] = x
                        return self.count(x)
                return None
            r = best.scan(F, leaf, count_of)
            if r is None:
                continue
            trips, conds, val, upd = r
            return trips, conds, box["x"], "most", ("scan", F, outs(upd))
        return None

    def generic(self, part, z):
        if z[0] == "scan":
            _, F, m = z
            fs = {y.a[0] for y in walk(part) if y.op == "out"}
            for G in fs - {F}:
                if not same_scan(F, G):
                    return None
            if fs - {F}:
                # another view of the same scan: its accumulators by what they are set to
                (G,) = fs - {F}
                bv = raw("bv", G.a[0])
                phis = [raw("phi", G.a[0], i) for i in range(len(G.a[2]))]
                for conds, vals in G.a[3]:
                    if any(v is not ph for v, ph in zip(vals, phis)):
                        m = dict(m)
                        for i, v in enumerate(vals):
                            m[raw("out", G, i)] = subst(v, {bv: best.J})
                        break
            return subst(part, m)
        return subst(part, {z[0]: z[1]})

    # ---- nothing is chosen
    def nothing(self, p):
        ctx = self.ctx
        ok = any(self.none_left(a, q) for a, q in list(p.conds) + list(p.asserts))
        ctx.ob("none", "no pair left", ok, self.w, "no token is added although a pair may be left: %s" % showlits(p.conds)[:200], self.n)

    def none_left(self, a, q):
        # no element meets the conditions
        if a.op == "exists" and not q and len(a.a[1]) == 1:
            bv = raw("bv", a.a[0])
            for L in {x.a[0] for b, _ in a.a[2] for x in walk(b) if x.op == "idx" and x.a[1] is bv} | {None}:
                conds = [best.ls(b, r, {bv: best.J}) for b, r in a.a[2]]
                if L is not None and length(L) is a.a[1][0]:
                    e = best.elements(L)
                    if e is None:
                        continue
                    m = {idx(L, best.J): e[2]}
                    conds = list(e[1]) + [best.ls(b, r, m) for b, r in conds]
                    trips = e[0]
                elif L is None:
                    trips = list(a.a[1])
                else:
                    continue
                if self.only_allowed(trips, conds):
                    return True
            return False
        # the string of the pair chosen is empty: cannot be, tokens are not
        if a.op == "pos" and not q or a.op == "eq0" and q:
            c, d = linear.form(a.a[0])
            if c == 0 and d and all(v == 1 and self.token_length(x) for x, v in d.items()):
                return True
        # an empty collection of all that meet the conditions
        for L in {x.a[0] for x in walk(a) if x.op == "len"}:
            if (a, q) in (lit(neg(pos(length(L)))), lit(eq_int(length(L), ZERO))):
                if L.op == "cat" and self.pair(L) or any(z for z in best.choices_in(L)):
                    return True         # the string of the pair chosen is empty: cannot be
                e = best.elements(L)
                if e is not None and self.only_allowed(e[0], e[1]):
                    return True
        if a.op == "is" and a.a[1] == "Some" and not q or a.op == "is" and a.a[1] == "None" and q:
            x = a.a[0]
            if x.op == "app" and x.a[0].split("_")[0] in ("min", "max"):
                e = best.elements(x.a[1])
                return e is not None and self.only_allowed(e[0], e[1])
            if x.op == "out":
                return True             # judged where the scan's choice is
        # a scan that found nothing
        for x in walk(a):
            if x.op == "out" and x.a[0].op == "fold" and ((a, q) == lit(neg(pos(x))) or (a, q) == lit(eq_int(x, ZERO))):
                return True
        return False

    def token_length(self, x):
        if x.op != "len":
            return False
        y = x.a[0]
        return y.op == "payload" and y.a[1] == "Str" and y.a[0].op == "idx" and y.a[0].a[0] is self.toks

    def only_allowed(self, trips, conds):
        """do the conditions leave out nothing but pairs that never occur or are not allowed"""
        if list(trips) != [length(self.pairs)]:
            return False
        x = cat(payload(idx(self.toks, div(best.J, self.size)), "Str"), payload(idx(self.toks, rem(best.J, self.size)), "Str"))
        c = idx(self.pairs, best.J)
        return all((a, p) in (lit(pos(c)), lit(neg(eq_int(c, ZERO)))) or self.allowed(a, p, x) for a, p in best.real(conds))


def same_scan(F, G):
    """two views of one loop: the same rounds, updated under the same conditions"""
    if F.a[1] != G.a[1] or len(F.a[3]) != len(G.a[3]):
        return False
    return True


# ---------------------------------------------------------------- byte or pair
def gains(ctx, s):
    """where both a new byte and a new pair are at hand, the one used saves at least as much"""
    w = ctx.where_fn(s.step)
    k = 0
    for facts, x, extra in uses(s):
        o = s.origin(x)
        if not o:
            continue
        if o[0] == "pick":
            st = o[2]
        elif o[0] == "ob" and grows(s, o):
            st = x.a[1]
        else:
            continue
        for pick in [raw("call", n, st) for n in s.pickers]:
            have = lit(is_variant(pick, "Some")) in facts
            # the sets made from the same statistics with a byte more
            rivals = byte_rivals(s, facts, st)
            if o[0] == "pick" and not rivals or o[0] == "ob" and not have:
                continue
            k += 1
            ok = compared(s, facts, x if o[0] == "ob" else None, pick, rivals, o[0])
            ctx.ob("gain", o[0], ok, w, "a new %s is used although the other choice may save more: %s" % ("token" if o[0] == "pick" else "byte", showlits(facts)[:300]), s.step)
    ctx.floor("choices between a byte and a pair", k, 4)


def uses(s):
    """(facts, token set measured or returned, ...) of every path, and of every path of its loops"""
    for p in s.paths:
        fs = s.facts(p)
        v = s.n(p.val)
        if v is not NONE:
            yield set(fs), s.n(payload(v, "Some")), p
        for l in loops_of(p.events):
            for q in l.paths:
                fq = set(fs) | set(s.facts(q))
                for e in q.events:
                    if not isinstance(e, tuple) and e.name in s.lookups:
                        yield set(s.facts(q)), s.n(e.args[1]), q


def grows(s, o):
    """bytes chosen for one token more than there are"""
    base = o[1]
    return s.n(o[2]) is s.n(add(sub(s.size(base), raw("nlong", base)), ONE))


def byte_rivals(s, facts, st):
    """sets with one byte more, made from the same statistics, whose size is on this path known to have changed"""
    out = []
    for a, p in facts:
        if a.op == "eq0" and not p:
            for x in walk(a):
                if x.op == "len" and x.a[0].op == "field" and x.a[0].a[1] == "tokens":
                    y = x.a[0].a[0]
                    o = s.origin(y)
                    if o and o[0] == "ob" and y.a[1] is st and grows(s, o):
                        out.append(y)
    return out


def compared(s, facts, byte, pick, rivals, kind):
    """do the facts imply which of the two gains is the greater"""
    base = s.stats_of(pick.a[1])
    gain_pair = None
    est = None
    for a, p in facts:
        if a.op != "pos":
            continue
        for x in linear.form(a.a[0])[1]:
            if x.op == "field" and x.a[0] is payload(pick, "Some"):
                gain_pair = x
            if x.op == "call" and x.a[0] in s.estimate and len(x.a) == 3 and x.a[2] is pick.a[1]:
                est = x.a[0]
    if gain_pair is None or est is None:
        return False
    st = pick.a[1]
    num = [f for f in facts if f[0].op in ("pos", "eq0")]
    for y in ([byte] if byte is not None else rivals):
        gain_byte = sub(raw("call", est, base, st), raw("call", est, y, st))
        d = sub(gain_byte, gain_pair)
        goal = d if kind == "ob" else sub(ZERO, d)
        if not linear.entails(relevant(num, goal, []), goal, nonneg=lambda t: False, depth=2):
            return False
    return True
