"""C34 the optimiser stops only when every single change was tried"""
from steps import *
import best
import dispatch
import linear

RULE = ("every path on which a step reports that nothing can be improved: its conditions say that the single bytes chosen anew from the statistics of the set do not lower the total; with room left, "
        "that neither a byte nor a pair can be added; otherwise that, for every token of more than one byte, the set without it and with the byte or pair chosen from its own statistics was measured and is not "
        "better (or nothing could be added), in a loop that ran to its end and left no such token out, and that the same holds with one byte less when the set has more bytes than it must")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering): the path conditions of every giving-up path, loops included; linear entailment"


# the fewest byte and extension tokens a set of each type can have (two extension tokens and one byte with frequency-based sequences)
FEWEST = {"Bits1": 2, "Bits2": 4, "Bits4": 16, "Bytes": 256, "BytesHuff": 3}
EXT = {"Bits1": 2, "Bits2": 4, "Bits4": 16, "Bytes": 0}


def check(ctx):
    s = steps(ctx)
    k = 0
    room = 0
    for p in s.paths:
        if s.n(p.val) is not NONE:
            continue
        k += 1
        g = GivesUp(ctx, s, p)
        room += g.check()
    ctx.floor("paths that give up", k, 2)
    ctx.floor("paths that give up without room", k - room, 1)
    goes_on(ctx)
    for kind, n, e in dispatch.choices(ctx):
        if kind != "Bytes":
            for q, _ in dispatch.ways(ctx, n, kind):
                ctx.ob("tried", "bytes of %s" % kind, q.val is not field(sym("arg", 0), "token_set"), e.span, "single bytes are never chosen anew for sets of the type %s" % kind, n)


def goes_on(ctx):
    """steps are made until one gives up"""
    ps, n, nm = optimizer(ctx)
    step = nm["optimization_step"]
    w = ctx.where_fn(n)
    k = 0
    for p in ps:
        for e in p.events:
            if not isinstance(e, tuple) or not made(e[1].paths, step):
                continue
            L = e[1]
            for q in L.paths:
                if q.kind == "cont":
                    continue
                k += 1
                facts = set(q.conds) | set(q.asserts)
                own = [x for x in q.events if not isinstance(x, tuple) and x.name == step]
                if own:
                    ok = gave_up(own[-1], facts)
                else:
                    ok = all(before(L, q, r, step) for r in L.paths if r.kind == "cont") and first(L, q, p, step)
                ctx.ob("until", "the step gives up", ok, w, "the optimiser stops although the last step found a better set: %s" % showlits(q.conds)[:200], n)
    ctx.floor("ends of the loop of steps", k, 1)


def made(paths, step):
    return any(e.name == step for q in paths for e, _ in flat_events(q.events))


def gave_up(e, facts):
    return lit(neg(is_variant(e.res, "Some"))) in facts or lit(is_variant(e.res, "None")) in facts


def before(L, q, r, step):
    """leaving by q right after round r: not possible, or the step of r gave up"""
    m = {L.leaves[k]["phi"]: v for k, v in r.upd.items() if k in L.leaves}
    return implied(q, m, [e for e in r.events if not isinstance(e, tuple) and e.name == step], list(r.conds) + list(r.asserts))


def first(L, q, p, step):
    """leaving by q before the first round: not possible, or a step made before gave up"""
    m = {v["phi"]: v["init"] for v in L.leaves.values()}
    m[L.iota] = ZERO
    return implied(q, m, [e for e in p.events if not isinstance(e, tuple) and e.name == step], list(p.conds) + list(p.asserts))


def implied(q, m, evs, facts):
    facts = set(facts)
    for a, p in q.conds:
        b = subst(a, m)
        l = lit(b if p else neg(b))
        if l is False or l is FALSE or isinstance(l, tuple) and (l[0] is FALSE) == l[1] and l[0] in (TRUE, FALSE):
            return True
        if isinstance(l, tuple):
            if (l[0], not l[1]) in facts:
                return True
            facts.add(l)
    return bool(evs) and gave_up(evs[-1], facts)


def is_token(t, text, a, p):
    """what a condition says of token t: 'text': it is of this text; 'str': it is a string"""
    if a.op == "eq" and p:
        for x, y in (a.a, a.a[::-1]):
            if x is payload(t, "Str") and y is text:
                return "text"
            if x is t and y.op == "agg" and y.a[1] == "Str" and payload(y, "Str") is text:
                return "token"
    return "str" if (a, p) in (lit(is_variant(t, "Str")), lit(neg(is_variant(t, "Ext")))) else None


def same_token(t, text, facts):
    """by these facts t is the token of this text"""
    k = {is_token(t, text, a, p) for a, p in facts}
    return "token" in k or {"text", "str"} <= k


def among(x, toks, text):
    """one of the tokens has this text: the condition x says so, or less"""
    j = raw("bv", x.a[0])
    n = length(toks)
    return list(x.a[1]) == [n] and any(all(is_token(idx(toks, i), text, a, p) for a, p in x.a[2]) for i in (j, sub(sub(n, j), ONE)))


def finds(ctx, fn):
    """fn(set, text) gives the number of the token with that text, if there is one"""
    ps, _ = ctx.run(fn)
    me, text = sym("arg", 0), sym("arg", 1)
    w = ctx.where_fn(fn)
    toks = field(me, "tokens")
    for p in ps:
        facts = set(p.conds) | set(p.asserts)
        if p.val is NONE:
            ok = any(a.op == "exists" and not v and among(a, toks, text) for a, v in facts)
            ctx.ob("found", "none", ok, w, "no token is found although there may be one of this text: %s" % showlits(facts)[:250], fn)
        else:
            i = payload(p.val, "Some")
            ok = same_token(idx(toks, i), text, facts)
            ctx.ob("found", "the token", ok, w, "the token found (%s) is not the one of this text" % show(i)[:150], fn)
    ctx.floor("ways of finding a token", len(ps), 2)
    return True


class GivesUp:
    def __init__(self, ctx, s, p):
        self.ctx, self.s, self.p = ctx, s, p
        self.me, self.want = s.me, s.want
        self.facts = s.facts(p)
        self.w = ctx.where_fn(s.step)

    def ob(self, inst, ok, text):
        self.ctx.ob("tried", inst, ok, self.w, "a step gives up although %s: %s" % (text, showlits(self.facts)[:250]), self.s.step)

    def worse(self, facts, x):
        """x was measured: not better than the set at hand"""
        goal = sub(raw("total", x), raw("total", self.me))
        return lit(neg(pos(sub(ZERO, goal)))) in facts or lit(pos(add(goal, ONE))) in facts or lit(pos(goal)) in facts

    def measured(self, facts):
        """sets whose total is compared on this path"""
        out = []
        for a, p in facts:
            if a.op == "pos":
                for x in linear.form(a.a[0])[1]:
                    if x.op == "total" and x.a[0] is not self.me and x.a[0] not in out:
                        out.append(x.a[0])
        return out

    def num(self, facts):
        return [f for f in facts if f[0].op in ("pos", "eq0")]

    def entails(self, facts, goal):
        goal = self.s.n(goal)
        return linear.entails(relevant(self.num(facts), goal, []), goal, nonneg=lambda t: t.op in ("total", "nlong", "sym"), depth=2)

    def check(self):
        s, F, me = self.s, self.facts, self.me
        size, nlong = s.size(me), raw("nlong", me)
        # bytes chosen anew
        ok = False
        for x in self.measured(F):
            o = s.origin(x)
            if o and o[0] == "ob" and o[1] is me and s.n(o[2]) is s.n(sub(self.want, nlong)) and self.worse(F, x):
                ok = True
        self.ob("bytes chosen anew", ok, "the bytes were not chosen anew, or help")
        if self.entails(F, sub(sub(self.want, size), ONE)):
            self.ob("room left", self.nothing_to_add(F, me), "there is room and something may be added")
            return 1
        self.ob("every token", self.every_token(), "not every token of more than one byte was tried without")
        self.ob("one byte less", self.one_less(), "one byte less was not tried")
        return 0

    # ---- additions
    def nothing_to_add(self, facts, base):
        """neither a byte nor a pair can be added to base"""
        s = self.s
        st = None
        for a, p in facts:
            if a.op == "is" and a.a[0].op == "call" and a.a[0].a[0] in s.pickers and s.stats_of(a.a[0].a[1]) is base:
                if (a, p) == lit(is_variant(a.a[0], "None")) or (a, p) == lit(neg(is_variant(a.a[0], "Some"))):
                    st = a.a[0].a[1]
        if st is None:
            return False
        return self.no_byte(facts, base)

    def no_byte(self, facts, base):
        s = self.s
        for a, p in facts:
            if a.op in ("eq0", "pos"):
                for x in linear.form(a.a[0])[1]:
                    if x.op == "len" and x.a[0].op == "field" and x.a[0].a[1] == "tokens":
                        y = x.a[0].a[0]
                        o = s.origin(y)
                        if o and o[0] == "ob" and o[1] is base and s.n(o[2]) is s.n(add(sub(s.size(base), raw("nlong", base)), ONE)):
                            if self.entails(facts, sub(s.size(base), x)):
                                return True
        return False

    def tried(self, facts, base):
        """the set made from base by an addition was measured and is not better, or there is none"""
        s = self.s
        for x in self.measured(facts):
            o = s.origin(x)
            if not o or not self.worse(facts, x):
                continue
            if o[0] == "pick" and o[1] is base:
                return True
            if o[0] == "ob" and o[1] is base and s.n(o[2]) is s.n(add(sub(s.size(base), raw("nlong", base)), ONE)):
                return True
        return self.nothing_to_add(facts, base)

    # ---- every token
    def every_token(self):
        for e in self.p.events:
            if isinstance(e, tuple) and self.covers(e[1]):
                return True
        return False

    def covers(self, L):
        s, me = self.s, self.me
        if len(L.trips) != 1 or not any(self.removes(q) for q in L.paths):
            return False
        lits = set(list(self.p.conds) + list(self.p.asserts))
        for P in L.paths:
            if P.kind not in ("cont", "done") and lit(neg(L.exist_atom(P))) not in lits:
                return False            # left early
        toks = field(me, "tokens")
        n = s.n(L.trips[0])
        X = None
        if n is length(toks):
            m, cs = {}, []
        elif n.op == "len":
            X = n.a[0]
            e = best.elements(X)
            if e is None or list(e[0]) != [length(toks)]:
                return False
            cs = e[1]
            m = {}
            for y in {y for q in L.paths for a in self.terms(q) for y in walk(a) if y.op == "idx" and best.unsort(y.a[0]) is best.unsort(X)}:
                m[subst(y, {L.iota: best.J})] = e[2]
        else:
            return False
        if any(self.short(a, p) is not False for a, p in best.real(cs)):
            return False
        for q in L.paths:
            if q.kind != "cont":
                continue
            fs = [self.generic(a, p, L, m) for a, p in s.facts(q)]
            fs = [f for f in fs if isinstance(f, tuple)]
            if any(self.short(a, p) is True for a, p in fs):
                continue
            R = {self.at(t, L, m) for t in self.removes(q)}
            ok = False
            for r in R:
                if self.token_at(r.a[3], fs) and self.tried(fs, r):
                    ok = True
            if not ok:
                return False
        return True

    def terms(self, q):
        return [a for a, _ in self.s.facts(q)] + list(self.removes(q))

    def at(self, t, L, m):
        return subst(subst(t, {L.iota: best.J}), m)

    def generic(self, a, p, L, m):
        b = self.at(a, L, m)
        return lit(b if p else neg(b))

    def removes(self, q):
        """sets with a token of the set at hand removed, on this path"""
        s = self.s
        out = set()
        ts = [a for a, _ in s.facts(q)]
        for e in q.events:
            if not isinstance(e, tuple):
                ts += [s.n(x) for x in e.args if isinstance(x, T)]
        for a in ts:
            for x in walk(a):
                if x.op == "mutout" and x.a[0] == s.remove and x.a[1] == 0 and x.a[2] is self.me:
                    out.add(x)
        return out

    def token_at(self, i, facts):
        """the number of token J of the set at hand"""
        if i is best.J:
            return True
        t = idx(field(self.me, "tokens"), best.J)
        if i.op == "payload" and i.a[1] == "Some":
            c = i.a[0]
            if c.op == "call" and len(c.a) == 3 and c.a[1] is self.me and c.a[2] in (payload(t, "Str"), t):
                return finds(self.ctx, c.a[0])
        return same_token(idx(field(self.me, "tokens"), i), payload(t, "Str"), facts)

    def short(self, a, p):
        """what a condition says of token J: True: it has at most one byte (or is not a string); False: nothing but the opposite; None: something else"""
        t = idx(field(self.me, "tokens"), best.J)
        n = length(payload(t, "Str"))
        if a.op == "is" and a.a[0] is t:
            return (a.a[1] == "Ext") == p
        for g in (sub(n, ONE), n):
            if (a, p) in (lit(pos(g)), lit(neg(eq_int(g, ZERO)))):
                return False
            if (a, p) in (lit(neg(pos(g))), lit(eq_int(g, ZERO))):
                return True
        return None

    def same(self, a, b):
        """equal by the conditions"""
        return a is b or all(self.entails(self.facts, g) for g in (sub(a, b), sub(b, a)))

    # ---- one byte less
    def one_less(self):
        s, F, me = self.s, self.facts, self.me
        size, nlong = s.size(me), raw("nlong", me)
        k = s.n(sub(sub(size, nlong), ONE))
        for a, p in F:
            for x in walk(a):
                if x.op == "call" and x.a[0] in s.ob_name:
                    o = s.origin(x)
                    if o and o[1] is me and self.same(s.n(o[2]), k) and self.pair_tried(x):
                        return True
        # as few bytes as there must be for the type of the set
        tt = field(me, "token_type")
        known = [v for v in FEWEST if lit(is_variant(tt, v)) in F]
        kinds = known or [v for v in FEWEST if lit(neg(is_variant(tt, v))) not in F]
        for v in kinds:
            extra = [] if v == "BytesHuff" else [sub(field(me, "n_ext_tokens"), I(EXT[v])), sub(I(EXT[v]), field(me, "n_ext_tokens"))]
            goal = sub(I(FEWEST[v]), sub(size, nlong))
            if not linear.entails(relevant(self.num(F), goal, extra), goal, nonneg=lambda t: True, extra=extra, depth=2):
                return False
        return True

    def pair_tried(self, base):
        """a pair added to base was measured, or there is none"""
        s, F = self.s, self.facts
        for a, p in F:
            if a.op == "is" and a.a[0].op == "call" and a.a[0].a[0] in s.pickers and s.stats_of(a.a[0].a[1]) is base:
                if (a, p) == lit(neg(is_variant(a.a[0], "Some"))):
                    return True
        for x in self.measured(F):
            o = s.origin(x)
            if o and o[0] == "pick" and o[1] is base and self.worse(F, x):
                return True
        return False
