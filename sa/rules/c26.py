"""C26 token counts add up"""
from ctx import *
import c25

RUN = c25.RUN

RULE = ("the statistics after a text as terms over those before: the total grows by the cost recorded at the end of the text and the scanned bytes by its length; the walk back over the recorded spans "
        "counts a pair exactly when a token stands directly before a token; each recorded span is counted once, and per span its count is added to the token, or to the sequence and to each of its tokens; "
        "every counter is its old value plus an amount, nothing else of the statistics changes; the constructor's summary gives zero counters, one per token, sequence and pair")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering): case-by-case check of counter updates in the loops of the summary"


class Counts:
    def __init__(self, ctx, tx, p, cs, back):
        self.ctx, self.tx, self.tb, self.p, self.cs = ctx, tx, tx.tb, p, cs
        self.L, self.phi, self.span = back
        self.st = sym("arg", 2)
        self.fin = p.upd.get(("P", 2), self.st)
        self.sets = [field(self.st, "token_set"), field(tx.me, "token_set")]
        self.lists = self.listed()

    def listed(self):
        """lists of the spans of the segmentation, from the end of the text, made by walking back"""
        _, fs = self.tx.found["rec"]
        out = []
        for e in self.p.events:
            for t in e[1].trips if isinstance(e, tuple) else ():
                for x in walk(t):
                    if x.op == "brk" and isinstance(x.a[1], int) and x.a[0].a[2][x.a[1]] is EMPTY and x not in out:
                        F, i = x.a
                        j = [n for n, u in enumerate(F.a[2]) if u is length(self.tx.text)]
                        if len(j) != 1 or F.a[1]:
                            continue
                        me, at = raw("phi", F.a[0], i), field(idx(self.cs, raw("phi", F.a[0], j[0])), fs)
                        if all(vals[i] is push(me, at) for _, vals in F.a[3]):
                            out.append(x)
        return out

    def along(self, was):
        """the loop over the spans of the segmentation that changes what was `was`: (paths, leaves, key, phi, loop, is it forward?)"""
        for L in [self.L] + [e[1] for e in self.p.events if isinstance(e, tuple) and e[1] is not self.L]:
            ks = [(k, x["phi"]) for k, x in L.leaves.items() if x["init"] is was]
            if len(ks) != 1:
                continue
            if L is self.L:
                return L, [(q.kind, set(q.conds), q.upd) for q in L.paths], ks[0], False
            for P in self.lists:
                if list(L.trips) != [length(P)]:
                    continue
                for at, fwd in ((L.iota, False), (sub(sub(length(P), L.iota), ONE), True)):
                    m = {idx(P, at): self.span}
                    # (that the list has come to its end is no matter)
                    qs = [(q.kind, {(subst(a, m), b) for a, b in q.conds}, {k: subst(v, m) for k, v in q.upd.items()}) for q in L.paths if q.kind in ("cont", "exit")]
                    if not any(contains(t, lambda z: z is P) for _, c, u in qs for t in [a for a, _ in c] + list(u.values())):
                        return L, qs, ks[0], fwd
        return None

    def ob(self, rule, inst, ok, w, msg):
        return self.ctx.ob(rule, inst, ok, w, msg, RUN)

    def show(self, t):
        return show(subst(t, {self.cs: sym("costs")}))[:240]

    def was(self, f):
        return field(self.st, f)

    def now(self, f):
        return field(self.fin, f)

    def totals(self):
        fc, _ = self.tx.found["rec"]
        w = self.tx.w
        cs = self.cs
        ends = [field(idx(cs, sub(length(cs), ONE)), fc), field(idx(cs, length(self.tx.text)), fc)]
        x = self.now("total_tokens")
        self.ob("totals", "total", any(x is add(self.was("total_tokens"), e) for e in ends), w, "the total becomes %s" % self.show(x))
        x = self.now("scanned_bytes")
        self.ob("totals", "bytes", x is add(self.was("scanned_bytes"), length(self.tx.text)), w, "the scanned bytes become %s" % self.show(x))
        known = {"total_tokens", "scanned_bytes", "pair_counts", "token_counts", "seq_counts"}
        for f in [f for f, _ in (tuple(x[:2]) for x in self.ctx.fields("TokenStats"))]:
            if f not in known:
                self.ob("totals", "nothing else", self.now(f) is self.was(f), w, "%s becomes %s" % (f, self.show(self.now(f))))

    def content(self, s, conds):
        """kind of span s on a path: 'Token', 'Sequence', 'None' or None (not known)"""
        c = field(s, self.tb.content)
        t, q = is_variant(c, self.tb.Token), is_variant(c, self.tb.Sequence)
        facts = set(conds)
        if lit(t) in facts:
            return "Token"
        if lit(q) in facts:
            return "Sequence"
        if lit(neg(t)) in facts and lit(neg(q)) in facts or lit(is_variant(c, "None")) in facts:
            return "None"
        return None

    def pairs(self):
        was = self.was("pair_counts")
        x = self.now("pair_counts")
        r = self.along(was)
        L = r[0] if r else self.L
        if L is self.L:
            through = x.op == "brk" and isinstance(x.a[1], int) and x.a[0].a[2][x.a[1]] is was and length(self.tx.text) in x.a[0].a[2]
        else:
            through = x is L.final.get(r[2][1])
        if not self.ob("pairs", "counted", r is not None and through, L.span, "the pair counts become %s" % self.show(x)):
            return
        _, paths, (k, phi), forward = r
        s = idx(self.tx.spans, self.span)
        c = field(s, self.tb.content)
        tok = is_variant(c, self.tb.Token)
        me = payload(c, self.tb.Token)
        # the variable that holds the neighbouring token
        nx = [(k2, l["phi"]) for k2, l in L.leaves.items() if l["init"] is NONE]
        if not self.ob("pairs", "following token", len(nx) >= 1, L.span, "the walk back does not remember the following token"):
            return
        nk, nphi = nx[0]
        nxt = is_variant(nphi, "Some")
        m = 0
        for what, facts, upd in paths:
            if what == "exit" and L is not self.L:
                self.ob("pairs", "whole", False, L.span, "the walk over the segmentation ends when %s" % self.lits(facts))
            if what != "cont":
                continue
            x = upd.get(k, phi)
            y = upd.get(nk, nphi)
            kind = self.content(s, facts)
            kind = kind if kind == "Token" else "other" if kind or lit(neg(tok)) in facts else None
            ok = y is Some(me) and kind == "Token" or y is NONE and kind == "other"
            self.ob("pairs", "remembered", ok, L.span, "after a span that is %s the following token is %s" % ({"Token": "a token", "other": "a sequence"}.get(kind, "anything"), self.show(y)))
            if x is phi:
                self.ob("pairs", "all", kind == "other" or lit(neg(nxt)) in facts, L.span, "no pair is counted although %s" % self.lits(facts))
                continue
            m += 1
            one, two = (payload(nphi, "Some"), me) if forward else (me, payload(nphi, "Some"))
            at = [add(mul(one, length(field(t, "tokens"))), two) for t in self.sets]
            self.ob("pairs", "one", any(x is store(phi, a, add(idx(phi, a), ONE)) for a in at), L.span, "the pair counts become %s" % self.show(x))
            self.ob("pairs", "adjacent", kind == "Token" and lit(nxt) in facts, L.span, "a pair is counted when %s" % self.lits(facts))
        self.ob("pairs", "some", m >= 1, L.span, "no pair is ever counted")

    def lits(self, conds):
        return " & ".join(("" if b else "!") + self.show(a) for a, b in conds)[:300]

    def spans(self):
        tw, sw = self.was("token_counts"), self.was("seq_counts")
        loops = [e[1] for e in self.p.events if isinstance(e, tuple)]
        for L in loops:
            tk = [(k, x["phi"]) for k, x in L.leaves.items() if x["init"] is tw]
            sk = [(k, x["phi"]) for k, x in L.leaves.items() if x["init"] is sw]
            if not tk or not sk:
                continue
            if L is self.L:
                s, amount, zero = idx(self.tx.spans, self.span), ONE, None
                F = self.now("token_counts")
                done = all(x.op == "brk" and isinstance(x.a[1], int) and x.a[0].a[2][x.a[1]] is o for x, o in ((self.now("token_counts"), tw), (self.now("seq_counts"), sw)))
            else:
                n = sub(length(self.tx.spans), L.trips[0]) if len(set(L.trips)) == 1 else None
                if not self.ob("spans", "all spans", n in (ZERO, ONE), L.span, "counts are added for %s spans" % ",".join(self.show(t) for t in L.trips)):
                    return
                i = add(L.iota, n)
                s = idx(self.tx.spans, i)
                cf = self.counts(loops)
                if not self.ob("spans", "counted", cf is not None, L.span, "no list counts how often each span was used"):
                    return
                amount = idx(cf, i)
                zero = lit(neg(pos(amount)))
                done = L.final.get(tk[0][1]) is self.now("token_counts") and L.final.get(sk[0][1]) is self.now("seq_counts")
            self.ob("spans", "stored", done, L.span, "the token counts become %s" % self.show(self.now("token_counts")))
            kinds = set()
            for q in L.paths:
                if q.kind == "exit" and L is not self.L:
                    self.ob("spans", "whole", False, L.span, "not all spans are counted: the loop ends when %s" % self.lits(q.conds))
                if q.kind != "cont":
                    continue
                kinds.add(self.credit(L, q, s, amount, zero, tk[0], sk[0]))
            self.ob("spans", "tokens and sequences", {"Token", "Sequence"} <= kinds, L.span, "counts are only added for %s" % ", ".join(sorted(str(k) for k in kinds)))
            return
        self.ob("spans", "loop", False, self.tx.w, "no loop adds to the counts of tokens and sequences")

    def counts(self, loops):
        """the list with the number of uses of each span after the walk back"""
        _, fs = self.tx.found["rec"]
        for L in loops:
            if L is self.L:
                continue
            for q in L.paths:
                for v in list(q.upd.values()) + [a for a, _ in q.conds]:
                    for x in walk(v):
                        if x.op == "out" and isinstance(x.a[1], int) and x.a[0].op == "fold" and x.a[0].a[2][x.a[1]].op == "rep":
                            F, i = x.a
                            init = F.a[2][i]
                            P = [y for y in self.lists if F.a[1] == (length(y),)]
                            if init.a[0] is not ZERO or init.a[1] is not length(self.tx.spans) or len(P) != 1:
                                continue
                            me, j = raw("phi", F.a[0], i), raw("bv", F.a[0])
                            ats = [idx(P[0], j), idx(P[0], sub(sub(length(P[0]), j), ONE))]
                            good = not F.a[4] and any(all(vals[i] is store(me, at, add(idx(me, at), ONE)) for _, vals in F.a[3]) for at in ats)
                            self.ob("spans", "each once", good, self.L.span, "a span of the segmentation is not counted exactly once: %s" % "; ".join(self.show(vals[i]) for _, vals in F.a[3]))
                            return x
                        if x.op == "brk" and isinstance(x.a[1], int) and x.a[0].a[2][x.a[1]].op == "rep":
                            F, i = x.a
                            init = F.a[2][i]
                            j = [n for n, t in enumerate(F.a[2]) if t is length(self.tx.text)]
                            if init.a[0] is not ZERO or init.a[1] is not length(self.tx.spans) or len(j) != 1:
                                continue
                            me, p = raw("phi", F.a[0], i), raw("phi", F.a[0], j[0])
                            at = field(idx(self.cs, p), fs)
                            good = all(vals[i] is store(me, at, add(idx(me, at), ONE)) for _, vals in F.a[3])
                            if self.ob("spans", "each once", good, self.L.span, "a span of the segmentation is not counted exactly once: %s" % "; ".join(self.show(vals[i]) for _, vals in F.a[3])):
                                return x
                            return x
        return None

    def credit(self, L, q, s, amount, zero, tk, sk):
        c = field(s, self.tb.content)
        kind = self.content(s, q.conds)
        (k1, tp), (k2, sp) = tk, sk
        t, n = q.upd.get(k1, tp), q.upd.get(k2, sp)
        if t is tp and n is sp:
            self.ob("spans", "left out", kind == "None" or zero is not None and zero in list(q.conds), L.span, "nothing is counted for a span although %s" % self.lits(q.conds))
            return "None"
        if kind == "Token":
            x = payload(c, self.tb.Token)
            self.ob("spans", "token", t is store(tp, x, add(idx(tp, x), amount)) and n is sp, L.span, "for a token the token counts become %s and the sequence counts %s" % (self.show(t), self.show(n)))
        elif kind == "Sequence":
            x = payload(c, self.tb.Sequence)
            self.ob("spans", "sequence", n is store(sp, x, add(idx(sp, x), amount)), L.span, "for a sequence the sequence counts become %s" % self.show(n))
            ok = False
            for In in loops_of(q.events, deep=False):
                for k, l in In.leaves.items():
                    if l["init"] is not tp or In.final.get(l["phi"]) is not t:
                        continue
                    for ts in self.sets:
                        toks = field(idx(field(ts, "sequences"), x), "tokens")
                        if list(In.trips) != [length(toks)]:
                            continue
                        y = idx(toks, In.iota)
                        good = all(r.upd.get(k, l["phi"]) is store(l["phi"], y, add(idx(l["phi"], y), amount)) for r in In.paths if r.kind == "cont")
                        ok = ok or good and not any(r.kind == "exit" for r in In.paths)
            self.ob("spans", "tokens of a sequence", ok, L.span, "for a sequence the token counts become %s" % self.show(t))
        else:
            self.ob("spans", "kind", False, L.span, "counts are added for a span when %s" % self.lits(q.conds))
        return kind


PLAIN = {"tokenset::TokenSet", "&tokenset::TokenSet", "std::option::Option<u64>", "u64"}


def fresh(ctx):
    """statistics start from zero, with a counter for each token, sequence and pair of tokens"""
    n = 0
    ctx.fn(RUN)
    for fn, f in sorted(ctx._names.items()):
        args, _, res = (f.d["sig"] or "").rpartition(" -> ")
        if not res.endswith("::TokenStats") or not set(args[3:-1].split(", ")) <= PLAIN:
            continue
        ps, _ = ctx.run(fn)
        for p in ps:
            v = p.val
            if v.op != "agg":
                continue
            n += 1
            ts = field(v, "token_set")
            t, q = length(field(ts, "tokens")), length(field(ts, "sequences"))
            for x, want in (("total_tokens", ZERO), ("scanned_bytes", ZERO), ("token_counts", raw("rep", ZERO, t)), ("seq_counts", raw("rep", ZERO, q)),
                            ("pair_counts", raw("rep", ZERO, mul(t, t)))):
                got = field(v, x)
                ctx.ob("fresh", x, got is want, ctx.where_fn(fn), "new statistics start with %s = %s" % (x, show(got)[:160]), fn)
    ctx.floor("ways to start statistics", n, 1)


def check(ctx):
    fresh(ctx)
    quiet = Ctx2(ctx)
    tb = c25.Tables(quiet)
    tb.ctx = ctx
    if not ctx.ob("tables", "known", tb.ok and hasattr(tb, "content"), ctx.where_fn(c25.NEW), "the tables of the tokeniser are not known", c25.NEW):
        return
    tx = c25.Text(ctx, tb)
    tx.ctx = quiet
    for p in tx.ps:
        cs = tx.forward(p)
        back = c25.backward(tx, p, cs) if cs is not None else None
        if not ctx.ob("text", "walked", back is not None, tx.w, "the loops over the text are not known", RUN):
            continue
        c = Counts(ctx, tx, p, cs, back)
        c.totals()
        c.pairs()
        c.spans()


class Ctx2:
    """a context whose obligations do not count (they belong to C25)"""
    def __init__(self, ctx):
        self._ctx = ctx

    def __getattr__(self, n):
        return getattr(self._ctx, n)

    def ob(self, rule, inst, ok, where, msg, fn=""):
        if not ok and rule in ("anchor", "analysis"):
            self._ctx.ob(rule, inst, ok, where, msg, fn)
        return bool(ok)

    def floor(self, *a):
        pass
