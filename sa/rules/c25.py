"""C25 the tokeniser weighs every token or sequence ending at a position"""
from ctx import *
import linear

SET = "tokenset::TokenSet"
NEW = "FragmentTokenizer::new"
RUN = "FragmentTokenizer::process_slice"

RULE = ("the tables of the tokeniser, as terms over the token set: one span per string token (cost 1) and per sequence (cost = its length), an index that maps exactly the string of a span to that span, "
        "each span linked to the longest proper suffix in the index, a state for every prefix of a span, pointing at its longest suffix in the index, transitions to the longest suffix of prefix + byte that is a state; "
        "the loop over the text: one state and one record per byte, the walk over the links goes on until the end, weighs cost at start + own cost for each span, "
        "and replaces the kept record (cost and span together) only by one at most as expensive, keeps it only if it is at most as expensive; the walk back over the records subtracts the length of the recorded span")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering): loop invariants relating an index map to the list it indexes, recognition of first-match searches, case-by-case check of the recurrence with linear entailment"


# ------------------------------------------------------------------ terms
def longest(t, M, S, c):
    """t is M[S[k..]] for the least k >= c such that M has S[k..]; returns (search, exists literal) or None"""
    if t.op != "payload" or t.a[1] != "Some":
        return None
    g = t.a[0]
    if g.op != "app" or g.a[0] != "mget" or g.a[1] is not M:
        return None
    key = g.a[2]
    for p in walk(key):
        if p.op == "brk" and p.a[1] == "pos":
            if key is not slice_(S, add(p, I(c)), None):
                continue
            if search_ok(p.a[0], M, S, c):
                return p.a[0]
    return None


def search_ok(F, M, S, c):
    """a loop over k = c, c + 1, .. that stops exactly at the first S[k..] in M"""
    if F.op != "fold" or len(F.a[1]) != 1:
        return False
    bv = raw("bv", F.a[0])
    n = sub(add(F.a[1][0], I(c)), length(S))
    if n not in (ZERO, ONE):
        return False
    want = frozenset([lit(is_variant(app("mget", M, slice_(S, add(bv, I(c)), None)), "Some"))])
    return F.a[4] == want


def not_found(lits, M, S, c):
    for a, q in lits:
        if a.op == "exists" and not q and len(a.a[1]) == 1:
            bv = raw("bv", a.a[0])
            want = frozenset([lit(is_variant(app("mget", M, slice_(S, add(bv, I(c)), None)), "Some"))])
            if sub(add(a.a[1][0], I(c)), length(S)) in (ZERO, ONE) and a.a[2] == want:
                return True
        if a.op == "pos" and not q and sub(sub(length(S), a.a[0]), I(c)) in (ZERO,):
            return True         # nothing to search
    return False


def chain(t, op, app_name=None):
    """base and list of steps of nested push / minsert"""
    out = []
    while t.op == op if app_name is None else t.op == "app" and t.a[0] == app_name:
        out.append(t)
        t = t.a[0] if app_name is None else t.a[1]
    out.reverse()
    return t, out


def key_of(e, k):
    """does record e have the string k in one of its fields; returns the field"""
    if e.op != "agg":
        return None
    for f, v in zip(e.a[2], e.a[3:]):
        if v is k:
            return f
    return None


class Index:
    """pairs (map, list) such that the map has exactly the strings of the list's elements, with their position"""
    def __init__(self):
        self.proven = {}

    def base(self, m, v):
        b, ins = chain(m, None, "minsert")
        if b.op != "app" or b.a[0] != "newmap":
            return None
        vb, ps = chain(v, "push")
        els = list(vb.a) + [p.a[1] for p in ps] if vb.op == "list" else [p.a[1] for p in ps] if vb is EMPTY else None
        if els is None or len(els) != len(ins):
            return None
        f = None
        for i, (x, e) in enumerate(zip(ins, els)):
            f2 = key_of(e, x.a[2])
            if f2 is None or x.a[3] is not I(i) or f not in (None, f2):
                return None
            f = f2
        return f if els else ""

    def known(self, m, v):
        if (m, v) in self.proven:
            return self.proven[(m, v)]
        f = self.base(m, v)
        if f is not None:
            self.proven[(m, v)] = f
        return f

    def loops(self, events):
        for e in events:
            if isinstance(e, tuple):
                self.loop(e[1])

    def loop(self, L):
        keys = list(L.leaves)
        for a in keys:
            for b in keys:
                if a == b:
                    continue
                ma, mb = L.leaves[a], L.leaves[b]
                f = self.known(ma["init"], mb["init"])
                if f is None:
                    continue
                self.proven[(ma["phi"], mb["phi"])] = f
                g = self.grows(L, a, b, f)
                if g is None:
                    del self.proven[(ma["phi"], mb["phi"])]
                    continue
                x, y = L.final.get(ma["phi"]), L.final.get(mb["phi"])
                if x is not None and y is not None:
                    self.proven[(x, y)] = g
        for a in keys:
            self.separate(L, a)

    def grows(self, L, a, b, f):
        m, v = L.leaves[a]["phi"], L.leaves[b]["phi"]
        for q in L.paths:
            if q.kind != "cont":
                continue
            self.loops(q.events)
            x, y = q.upd.get(a, m), q.upd.get(b, v)
            if (x, y) in self.proven:
                continue
            bx, ins = chain(x, None, "minsert")
            by, ps = chain(y, "push")
            if bx is not m or by is not v or len(ins) != len(ps):
                return None
            n = length(v)
            for i, p in zip(ins, ps):
                g = key_of(p.a[1], i.a[2])
                if g is None or i.a[3] is not n or f not in ("", g):
                    return None
                f = g
                n = add(n, ONE)
        return f

    def separate(self, L, a):
        """for i in 0..len(v): map.insert(v[i].string, i)"""
        m = L.leaves[a]["phi"]
        if L.leaves[a]["init"].op != "app" or L.leaves[a]["init"].a[0] != "newmap":
            return
        vs = set()
        for q in L.paths:
            if q.kind != "cont":
                continue
            x, ins = chain(q.upd.get(a, m), None, "minsert")
            if x is not m or len(ins) != 1 or ins[0].a[3] is not L.iota or q.conds:
                return
            k = ins[0].a[2]
            if k.op != "field" or k.a[0].op != "idx" or k.a[0].a[1] is not L.iota:
                return
            vs.add((k.a[0].a[0], k.a[1]))
        if len(vs) == 1:
            v, f = vs.pop()
            if list(L.trips) == [length(v)] and L.final.get(m) is not None:
                self.proven[(L.final[m], v)] = f


def leaf_of(L, init):
    for k, x in L.leaves.items():
        if x["init"] is init:
            yield k, x["phi"]


def parts_of(t):
    """a list as its parts, in order: elements and builds"""
    if t.op == "cat":
        return [y for x in t.a for y in parts_of(x)]
    if t.op == "list":
        return list(t.a)
    if t.op == "push":
        return parts_of(t.a[0]) + [t.a[1]]
    if t.op == "build" and t.a[1] is not EMPTY:
        return parts_of(t.a[1]) + [raw("build", t.a[0], EMPTY, *t.a[2:])]
    return [t]


def withs(t):
    """fields set on a record: (base, {field: value})"""
    d = {}
    while t.op == "with":
        for f, v in t.a[1]:
            d.setdefault(f, v)
        t = t.a[0]
    return t, d


class Tables:
    """what the tokeniser's constructor builds; names of the fields by the part they play"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.ok = False
        ctx.adt("FragmentTokenizer")
        ps, _ = ctx.run(NEW)
        w = ctx.where_fn(NEW)
        ctx.floor("ways to build the tables", len(ps), 1)
        for p in ps:
            self.path(p, w)

    def ob(self, rule, inst, ok, w, msg):
        return self.ctx.ob(rule, inst, ok, w, msg, NEW)

    def path(self, p, w):
        ob = self.ob
        ts = sym("arg", 0)
        self.ix = ix = Index()
        ix.loops(p.events)
        loops = [e[1] for e in p.events if isinstance(e, tuple)]
        # the list of spans: the part made from the tokens and the sequences
        V0 = None
        for (m, v), f in ix.proven.items():
            b = [x for x in parts_of(v) if x.op == "build"]
            if f and sum(1 for x in b if list(x.a[2]) in ([length(field(ts, "tokens"))], [length(field(ts, "sequences"))])) == 2:
                V0, M, self.string = v, m, f
        if not ob("spans", "index", V0 is not None, w, "no map is known to have exactly the strings of the tokens and sequences, with the position of each"):
            return
        self.spans(V0, ts, w)
        if not hasattr(self, "cost"):
            return
        V = self.links(loops, V0, M, w)
        if V is None:
            return
        A0, SM = self.states(loops, V, V0, M, w)
        if A0 is None:
            return
        A = self.moves(loops, A0, SM, w)
        if A is None:
            return
        if not ob("tables", "returned", p.val.op == "agg", w, "the tokeniser built is %s" % show(p.val)[:120]):
            return
        by = {v: f for f, v in zip(p.val.a[2], p.val.a[3:])}
        for what, v in (("spans", V), ("states", A), ("token set", ts)):
            ob("tables", what, v in by, w, "the tokeniser does not keep the %s" % what)
        self.spans_f, self.states_f = by.get(V), by.get(A)
        self.ok = self.spans_f is not None and self.states_f is not None

    def spans(self, V, ts, w):
        ob = self.ob
        ps = parts_of(V)
        toks, seqs = field(ts, "tokens"), field(ts, "sequences")
        ob("spans", "first", ps[0].op == "agg" and field(ps[0], self.string) is EMPTY, w, "the first span is %s, it should be the empty one" % show(ps[0])[:120])
        nt = ns = 0
        for x in ps[1:]:
            bv = raw("bv", x.a[0]) if x.op == "build" else None
            if bv is not None and list(x.a[2]) == [length(toks)]:
                t = idx(toks, bv)
                for conds, els in x.a[3]:
                    for e in els:
                        nt += 1
                        ob("spans", "which tokens", all(l in (lit(neg(is_variant(t, "Ext"))), lit(is_variant(t, "Str"))) for l in conds), w, "a token gets a span only if %s" % showlits(conds)[:160])
                        ob("spans", "string of token", field(e, self.string) is payload(t, "Str"), w, "the span of a token has the string %s" % show(field(e, self.string))[:100])
                        self.kinds(e, bv, "Token", ONE, w)
            elif bv is not None and list(x.a[2]) == [length(seqs)]:
                s = idx(seqs, bv)
                for conds, els in x.a[3]:
                    for e in els:
                        ns += 1
                        ob("spans", "which sequences", not conds, w, "a sequence gets a span only if %s" % showlits(conds)[:160])
                        ob("spans", "string of sequence", field(e, self.string) is field(s, "string"), w, "the span of a sequence has the string %s" % show(field(e, self.string))[:100])
                        self.kinds(e, bv, "Sequence", length(field(s, "tokens")), w)
            else:
                ob("spans", "others", False, w, "a span is made that is neither a token nor a sequence: %s" % show(x)[:160])
        ob("spans", "all tokens", nt == 1, w, "%d spans per token" % nt)
        ob("spans", "all sequences", ns == 1, w, "%d spans per sequence" % ns)

    def kinds(self, e, bv, kind, cost, w):
        """the fields that hold the kind, cost and link of a span"""
        ob = self.ob
        c = [f for f, v in zip(e.a[2], e.a[3:]) if v.op == "agg" and len(v.a) > 3 and v.a[3] is bv]
        if ob("spans", "refers to " + kind, len(c) == 1, w, "the span of a %s does not refer to it: %s" % (kind.lower(), show(e)[:200])):
            self.content = c[0]
            setattr(self, kind, str(field(e, c[0]).a[1]))
        k = [f for f, v in zip(e.a[2], e.a[3:]) if v is cost and f not in c]
        if ob("spans", "cost of " + kind, len(k) == 1 and getattr(self, "cost", k[0]) == k[0], w, "the span of a %s does not have the cost %s: %s" % (kind.lower(), show(cost), show(e)[:200])):
            self.cost = k[0]
        z = [f for f, v in zip(e.a[2], e.a[3:]) if v is ZERO]
        self.zero = set(z) if not hasattr(self, "zero") else self.zero & set(z)

    # ---- links
    def links(self, loops, V0, M, w):
        ob = self.ob
        for L in loops:
            for k, phi in leaf_of(L, V0):
                if L.final.get(phi) is None or (L.final[phi] is V0):
                    continue
                xs = [q.upd.get(k, phi) for q in L.paths if q.kind == "cont"]
                if not any(x.op == "store" for x in xs):
                    continue
                n = sub(length(V0), L.trips[0]) if len(L.trips) == 1 else None
                if not ob("links", "all spans", n in (ZERO, ONE), L.span, "links are set for %s spans" % ",".join(show(t)[:60] for t in L.trips)):
                    return None
                pos_ = add(L.iota, n)
                e = idx(phi, pos_)
                S = field(e, self.string)
                for q in L.paths:
                    if q.kind != "cont":
                        continue
                    x = q.upd.get(k, phi)
                    if x is phi:
                        lits = list(q.conds)
                        ob("links", "none", not_found(lits, M, S, 1), L.span, "a span is left without a link although %s" % showlits(lits)[:200])
                        continue
                    b, d = withs(x.a[2]) if x.op == "store" else (None, {})
                    ok = x.op == "store" and x.a[0] is phi and x.a[1] is pos_ and b is e and len(d) == 1 and set(d) <= self.zero
                    if not ob("links", "set", ok, L.span, "more than the link of the span is changed: %s" % show(x)[:200]):
                        return None
                    (f, v), = d.items()
                    self.link = f
                    for cs, v in cases_of(v):
                        lits = list(q.conds) + cs
                        ob("links", "longest suffix", longest(v, M, S, 1) is not None or v is ZERO and not_found(lits, M, S, 1), L.span,
                           "a span is not linked to the longest proper suffix that is a token or sequence but to %s" % short(v, M))
                if hasattr(self, "link"):
                    return L.final[phi]
        ob("links", "computed", False, w, "no loop links the spans to their suffixes")
        return None

    # ---- states
    def states(self, loops, V, V0, M, w):
        ob = self.ob
        for L in loops:
            # for every span, for every prefix
            nest = [(L, q, e[1]) for q in L.paths if q.kind == "cont" for e in q.events if isinstance(e, tuple)]
            for L, q, In in nest:
                for (m, v), f in list(self.ix.proven.items()):
                    ks = [k for k, x in In.leaves.items() if x["phi"] is v]
                    ms = [k for k, x in In.leaves.items() if x["phi"] is m]
                    if not ks or not ms or not f:
                        continue
                    return self.prefixes(L, q, In, ks[0], ms[0], f, V, V0, M, w)
        ob("states", "computed", False, w, "no loop makes a state for every prefix of a span")
        return None, None

    def prefixes(self, L, q, In, k, mk, f, V, V0, M, w):
        ob = self.ob
        self.prefix = f
        outer = [x for x in (V, V0) if len(L.trips) == 1 and sub(length(x), L.trips[0]) in (ZERO, ONE)]
        if not ob("states", "all spans", bool(outer), L.span, "states are made for the prefixes of %s spans" % ",".join(show(t)[:60] for t in L.trips)):
            return None, None
        at = add(L.iota, sub(length(outer[0]), L.trips[0]))
        S = [s for s in (field(idx(x, at), self.string) for x in (V, V0)) if list(In.trips) == [length(s)]]
        if not ob("states", "all prefixes", bool(S) and not q.conds, In.span, "states are made for %s prefixes of a span" % ",".join(show(t)[:60] for t in In.trips)):
            return None, None
        S = S[0]
        P = slice_(S, ZERO, add(In.iota, ONE))
        phi, m = In.leaves[k]["phi"], In.leaves[mk]["phi"]
        have = lit(is_variant(app("mget", m, P), "Some"))
        made = 0
        for r in In.paths:
            if r.kind == "exit":
                ob("states", "no early end", False, In.span, "not every prefix of a span gets a state: the loop ends when %s" % showlits(r.conds)[:160])
            if r.kind != "cont":
                continue
            x = r.upd.get(k, phi)
            if x is phi:
                ob("states", "left out", have in [c if isinstance(c, tuple) else c for c in r.conds], In.span, "a prefix gets no state although %s" % showlits(r.conds)[:200])
                continue
            made += 1
            e = x.a[1]
            ob("states", "prefix", x.op == "push" and field(e, f) is P, In.span, "the state made is for %s instead of the prefix" % show(field(e, f))[:100])
            rest = [(g, v) for g, v in zip(e.a[2], e.a[3:]) if g != f]
            sp = [(g, v) for g, v in rest if longest(v, M, P, 0) is not None or v is ZERO and not_found(r.conds, M, P, 0)]
            if ob("states", "longest suffix", len(sp) == 1, In.span, "a state does not point at the longest suffix of its prefix that is a token or sequence: %s" % "; ".join(short(v, M) for _, v in rest)):
                self.state_span = sp[0][0]
        ob("states", "made", made >= 1, In.span, "no states are made")
        # the list and its index after the loop over the spans
        for (a, b), g in self.ix.proven.items():
            if any(L.final.get(x["phi"]) is b for x in L.leaves.values()) and any(L.final.get(x["phi"]) is a for x in L.leaves.values()):
                root = [x["init"] for x in L.leaves.values() if L.final.get(x["phi"]) is b][0]
                e0 = root.a[0] if root.op == "list" and len(root.a) == 1 else None
                ob("states", "first", e0 is not None and field(e0, f) is EMPTY and hasattr(self, "state_span") and field(e0, self.state_span) is ZERO, w, "the first state is not the one of the empty prefix")
                return b, a
        ob("states", "index", False, w, "no map is known to have exactly the prefixes, with the position of each state")
        return None, None

    def moves(self, loops, A0, SM, w):
        ob = self.ob
        for L in loops:
            for k, phi in leaf_of(L, A0):
                if L.final.get(phi) is None or L.final[phi] is A0 or not any(q.upd.get(k, phi) is not phi for q in L.paths if q.kind == "cont"):
                    continue
                ob("moves", "all states", list(L.trips) == [length(A0)], L.span, "moves are set for %s states" % ",".join(show(t)[:60] for t in L.trips))
                for q in L.paths:
                    if q.kind != "cont":
                        continue
                    y = q.upd.get(k, phi)
                    done = False
                    for e in q.events:
                        if not isinstance(e, tuple):
                            continue
                        In = e[1]
                        for ik, iphi in leaf_of(In, phi):
                            if In.final.get(iphi) is y:
                                done = True
                                self.move(L, In, ik, phi, iphi, SM)
                    ob("moves", "set", done and not q.conds, L.span, "the moves of a state are %s" % show(y)[:120])
                return L.final[phi]
        ob("moves", "computed", False, w, "no loop sets the moves between states")
        return None

    def move(self, L, In, k, phi, iphi, SM):
        ob = self.ob
        ob("moves", "all bytes", list(In.trips) == [I(256)], In.span, "moves are set for %s bytes" % ",".join(show(t)[:60] for t in In.trips))
        i, b = L.iota, In.iota
        for q in In.paths:
            if q.kind == "exit":
                ob("moves", "no early end", False, In.span, "moves are not set for every byte: the loop ends when %s" % showlits(q.conds)[:160])
            if q.kind != "cont":
                continue
            x = q.upd.get(k, iphi)
            base, d = withs(x.a[2]) if x.op == "store" else (None, {})
            old = idx(iphi, i)
            ok = x.op == "store" and x.a[0] is iphi and x.a[1] is i and base is old and len(d) == 1
            if ok:
                (f, v), = d.items()
                self.next = f
                ok = v.op == "store" and v.a[0] is field(old, f) and v.a[1] is b
            if not ob("moves", "one byte", ok, In.span, "a move is not set for the byte: %s" % show(x)[:200]):
                continue
            S = push(field(idx(phi, i), self.prefix), b)
            S2 = push(field(idx(iphi, i), self.prefix), b)
            S3 = cat(field(idx(phi, i), self.prefix), raw("list", b))
            ok = any(longest(v.a[2], SM, s, 0) is not None or v.a[2] is ZERO and not_found(q.conds, SM, s, 0) for s in (S, S2, S3))
            ob("moves", "longest suffix", ok, In.span, "a move does not lead to the longest suffix that is a state but to %s" % short(v.a[2], SM))


def short(v, M):
    return show(subst(v, {M: sym("map")}))[:200]


def cases_of(v):
    if v.op == "sel":
        return [(list(c), x) for c, x in v.a[0]]
    return [([], v)]


# ------------------------------------------------------------------ the text
class Text:
    """the loop over the text; cs: costs after it, rec: (cost field, span field)"""
    def __init__(self, ctx, tb):
        self.ctx, self.tb = ctx, tb
        self.ps, _ = ctx.run(RUN)
        self.w = ctx.where_fn(RUN)
        ctx.floor("ways through the text", len(self.ps), 1)
        self.me, self.text = sym("arg", 0), sym("arg", 1)
        self.spans = field(self.me, tb.spans_f)
        self.found = {}
        self.memo = set()

    def ob(self, rule, inst, ok, w, msg):
        return self.ctx.ob(rule, inst, ok, w, msg, RUN)

    def forward(self, p):
        """checks the loop over the bytes; returns the costs as a term or None"""
        for e in p.events:
            if not isinstance(e, tuple):
                continue
            L = e[1]
            if list(L.trips) != [length(self.text)]:
                continue
            for k, x in L.leaves.items():
                qs = [q for q in L.paths if q.kind == "cont"]
                if qs and all(q.upd.get(k, x["phi"]).op == "push" and q.upd[k].a[0] is x["phi"] for q in qs):
                    if (L, k) not in self.memo:
                        self.memo.add((L, k))
                        self.check_loop(L, k, x, qs)
                    return L.final.get(x["phi"])
        self.ob("text", "loop", False, self.w, "no loop over all bytes that adds one record for each")
        return None

    def check_loop(self, L, k, leaf, qs):
        ob = self.ob
        for q in L.paths:
            if q.kind == "exit":
                ob("text", "whole", False, L.span, "the loop over the text ends early when %s" % showlits(q.conds)[:160])
        init, cs = leaf["init"], leaf["phi"]
        e0 = init.a[0] if init.op == "list" and len(init.a) == 1 else None
        states = field(self.me, self.tb.states_f)
        for q in qs:
            x = q.upd[k].a[1]
            # the state after this byte
            E2 = None
            for k2, l2 in L.leaves.items():
                if k2 == k:
                    continue
                if l2["init"] is idx(states, ZERO):
                    E = l2["phi"]
                elif l2["init"] is ZERO:
                    E = idx(states, l2["phi"])
                else:
                    continue
                to = idx(field(E, self.tb.next), idx(self.text, L.iota))
                y = q.upd.get(k2, l2["phi"])
                if y is idx(states, to) or y is to and E is not l2["phi"]:
                    E2 = idx(states, to)
            if not ob("text", "state", E2 is not None, L.span, "the state is not moved on by the byte read"):
                return
            self.walk(L, q, x, cs, E2, e0)

    def walk(self, L, q, x, cs, E2, e0):
        ob = self.ob
        tb = self.tb
        x = one_fold(x)
        Fs = {y.a[0] for y in walk(x) if y.op == "brk" and isinstance(y.a[1], int)}
        first = field(E2, tb.state_span)
        second = field(idx(self.spans, first), tb.link)
        # the longest span may be looked at before the loop
        Fs = [F for F in Fs if first in F.a[2] or second in F.a[2]]
        if not ob("walk", "loop", len(Fs) == 1 and not Fs[0].a[1], L.span, "the record of a position is not the result of a walk over the spans ending there: %s" % show(x)[:160]):
            return
        F = Fs[0]
        h = F.a[0]
        ph = [raw("phi", h, i) for i in range(len(F.a[2]))]
        js = [i for i, v in enumerate(F.a[2]) if v is first or v is second]
        j = ([i for i in js if F.a[4] == frozenset([lit(neg(pos(ph[i])))])] or js)[0]
        peeled = F.a[2][j] is second
        cur = ph[j]
        s = idx(self.spans, cur)
        ob("walk", "end", F.a[4] == frozenset([lit(neg(pos(cur)))]), L.span, "the walk over the spans that end at a position ends when %s" % showlits(F.a[4])[:160])
        # cost of the candidate
        n = sub(length(cs), length(field(s, tb.string)))
        ln = field(s, tb.string)
        ats = [idx(cs, sub(length(cs), length(ln))), idx(cs, sub(add(L.iota, ONE), length(ln)))]
        y = subst(x, {raw("brk", F, i): ph[i] for i in range(len(ph))})
        parts = self.record(y, e0)
        if not ob("walk", "record", parts is not None, L.span, "the record of a position has no cost and span: %s" % show(x)[:160]):
            return
        fc, fs = parts
        cands = [add(field(a, fc), field(s, tb.cost)) for a in ats]
        bc, bs = field(y, fc), field(y, fs)
        nk = 0
        for conds, vals in F.a[3]:
            m = {ph[i]: v for i, v in enumerate(vals)}
            ob("walk", "next", vals[j] is field(s, tb.link), L.span, "the walk does not go on to the link of a span but to %s" % show(vals[j])[:120])
            y2 = subst(y, m)
            c2, s2 = field(y2, fc), field(y2, fs)
            facts = [f for f in conds]
            if c2 is bc and s2 is bs:
                have = y.op != "payload" or lit(is_variant(y.a[0], "Some")) in [tuple(f) for f in facts]
                ok = have and any(linear.entails(nums(facts), sub(c, bc), depth=2) for c in cands)
                ob("walk", "kept", ok, L.span, "a more expensive choice may be kept: %s" % showlits(facts)[:260])
                continue
            nk += 1
            ok = c2 in cands and s2 is cur
            ob("walk", "cost and choice", ok, L.span, "the record becomes (%s, %s)" % (show(c2)[:160], show(s2)[:80]))
            fresh = y.op == "payload" and lit(neg(is_variant(y.a[0], "Some"))) in [tuple(f) for f in facts]
            ok = fresh or any(linear.entails(nums(facts), sub(bc, c), depth=2) for c in cands)
            ob("walk", "replaced", ok, L.span, "a cheaper choice may be replaced: %s" % showlits(facts)[:260])
        ob("walk", "choices", nk >= 1, L.span, "no choice is ever recorded")
        init = subst(y, {ph[i]: v for i, v in enumerate(F.a[2])})
        none = y.op == "payload" and subst(y.a[0], {ph[i]: v for i, v in enumerate(F.a[2])}) is NONE or isint(field(init, fc)) and field(init, fc).a[0] >= 2 ** 63 - 1
        if peeled:
            none = any(field(init, fc) is subst(c, {cur: first}) for c in cands) and field(init, fs) is first
        ob("walk", "start", none, L.span, "the walk starts with the record %s" % show(init)[:120])
        ob("text", "start", e0 is not None and field(e0, fc) is ZERO, L.span, "the cost of no text is %s" % (show(field(e0, fc)) if e0 is not None else "unknown"))
        self.found["rec"] = (fc, fs)

    def record(self, y, e0):
        """names of the cost and span fields of a record"""
        if e0 is None or e0.op != "agg":
            return None
        fl = list(e0.a[2])
        if len(fl) != 2:
            return None
        # the cost field is the one read at earlier positions
        for x in walk_all(self.ps):
            if x.op == "field" and x.a[1] in fl and x.a[0].op == "idx" and any(z is field(idx(self.spans, z.a[0].a[1]), self.tb.string) for z in walk(x.a[0].a[1]) if z.op == "field" and z.a[0].op == "idx"):
                c = x.a[1]
                return c, [f for f in fl if f != c][0]
        return None


def one_fold(x):
    """the results of a loop as results of one fold: a fold over fewer variables is replaced by the one it is a projection of"""
    ys = [y for y in walk(x) if y.op == "brk" and isinstance(y.a[1], int)]
    Fs = sorted({y.a[0] for y in ys}, key=lambda F: -len(F.a[2]))
    m = {}
    for y in ys:
        F, i = y.a
        for G in Fs:
            if G is F or len(G.a[2]) <= len(F.a[2]) or G.a[0] != F.a[0]:
                continue
            p = projection(F, G)
            if p:
                m[y] = raw("brk", G, p[i])
                break
    return subst(x, m) if m else x


def projection(F, G):
    """positions in G of the variables of F if F is G without its other variables"""
    h = F.a[0]
    where = []
    for t in F.a[2]:
        c = [j for j, u in enumerate(G.a[2]) if u is t and j not in where]
        if len(c) != 1:
            return None
        where.append(c[0])
    m = {raw("phi", h, i): raw("phi", h, j) for i, j in enumerate(where)}
    mem = {}
    go = lambda cs: frozenset((subst(a, m, mem), q) for a, q in cs)
    f = {(go(cs), tuple(subst(v, m, mem) for v in vals)) for cs, vals in F.a[3]}
    g = {(cs, tuple(vals[j] for j in where)) for cs, vals in G.a[3]}
    return where if f == g and go(F.a[4]) == G.a[4] and F.a[1] == G.a[1] else None


def walk_all(ps):
    for p in ps:
        for e in p.events:
            if isinstance(e, tuple):
                for t in e[1].final.values():
                    yield from walk(t)


def nums(facts):
    return [f for f in facts if f[0].op in ("pos", "eq0")]


def back_loops(tx, p, cs):
    """loops that walk back over the text: (loop, position leaf key, recorded span)"""
    out = []
    for L in loops_of(p.events, deep=False):
        for k, x in L.leaves.items():
            if x["init"] is length(tx.text) or x["init"] is sub(length(cs), ONE):
                out.append((L, k, x["phi"]))
    return out


def backward(tx, p, cs):
    ob = tx.ob
    if "rec" not in tx.found:
        return None
    fc, fs = tx.found["rec"]
    ls = [b for b in back_loops(tx, p, cs) if any(x is idx(cs, b[2]) for q in b[0].paths for v in list(q.upd.values()) + [c for c, _ in q.conds] for x in walk(v))]
    if not ob("back", "loop", len(ls) == 1, tx.w, "%d loops walk back from the end of the text over the records, expected one" % len(ls)):
        return None
    L, k, phi = ls[0]
    span = field(idx(cs, phi), fs)
    s = idx(tx.spans, span)
    end = 0
    for q in L.paths:
        if q.kind == "exit":
            end += 1
            ob("back", "end", lit(neg(pos(phi))) in list(q.conds), L.span, "the walk back ends when %s" % showlits(q.conds)[:160])
        if q.kind != "cont":
            continue
        x = q.upd.get(k, phi)
        ob("back", "step", x is sub(phi, length(field(s, tx.tb.string))), L.span, "the walk back goes to %s" % show(subst(x, {cs: sym("costs")}))[:160])
    ob("back", "ends", end >= 1, L.span, "the walk back does not end at the start of the text")
    return L, phi, span


def check(ctx):
    tb = Tables(ctx)
    if not tb.ok:
        ctx.ob("tables", "known", False, ctx.where_fn(NEW), "the tables of the tokeniser are not known", NEW)
        return
    need = ("content", "cost", "link", "string", "state_span", "next", "prefix")
    if not ctx.ob("tables", "parts", all(hasattr(tb, n) for n in need), ctx.where_fn(NEW), "a part of the tables is not known: %s" % ", ".join(n for n in need if not hasattr(tb, n)), NEW):
        return
    tx = Text(ctx, tb)
    for p in tx.ps:
        cs = tx.forward(p)
        if cs is not None:
            backward(tx, p, cs)
