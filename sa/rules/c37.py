"""C37 growing samples lead to the whole data"""
from commands import *
import linear

RULE = ("every path of the optimize command with a minimum data size, and every round of the loop it optimises samples in: the size asked for is larger in the next round (linear entailment), "
        "each optimisation starts from the token set of the one before, first from the one given; the loop is left only when the size reaches the length of the sampled file, and then the whole file "
        "is optimised from the last token set, or when the last sample had more than 16 MiB and the bytes per token of the last token set on sample and whole differ by less than 0.5%, and then "
        "its statistics on the whole file are what is saved")
TECHNIQUE = "command summaries (abstract interpretation of MIR with value numbering): inductive loop conditions, linear entailment, evaluation of the stopping condition's formula around its bounds"

SURE = 16777216


def check(ctx):
    cmds, nm = commands(ctx)
    k = 0
    for P in cmds.get("Optimize", []):
        mds = P.opt("min_data_size")
        if lit(is_variant(mds, "Some")) in P.facts:
            k += 1
            Growing(ctx, P, nm, payload(mds, "Some")).check()
    ctx.floor("ways to optimise with growing data", k, 3)
    ratio(ctx, nm)


def ratio(ctx, nm):
    """bytes per token"""
    n = nm["TokenStats::bytes_per_token"]
    me = sym("arg", 0)
    ps, _ = ctx.run(n)
    for p in ps:
        facts = set(p.conds) | set(p.asserts)
        none = lit(pos(field(me, "total_tokens")))[0] in {a for a, q in facts if not q}
        ctx.ob("ratio", "bytes per token", p.val is app("fdiv", field(me, "scanned_bytes"), field(me, "total_tokens")) or none, ctx.where_fn(n),
               "the bytes per token are %s" % show(p.val)[:200], n)
    ctx.floor("ways to compute the bytes per token", len(ps), 1)


def plain_events(events):
    return [e for e in events if not isinstance(e, tuple)]


class Growing:
    def __init__(self, ctx, P, nm, least):
        self.ctx, self.P, self.nm, self.least = ctx, P, nm, least
        self.w = ctx.where_fn("main")
        self.seen = set()

    def ob(self, inst, ok, text, span=None):
        if (inst, ok, text) not in self.seen:
            self.seen.add((inst, ok, text))
            self.ctx.ob("growing", inst, ok, span or self.w, "%s, on the path %s" % (text, self.P.label()), self.P.variant)
        return ok

    # ---- parts
    def opts(self, events):
        return [e for e in plain_events(events) if e.name == self.nm["optimize_tokenset"]]

    def sampled(self, e):
        """the size of the sample optimised, or None"""
        s = e.args[1]
        if s.op == "call" and s.a[0] == self.nm["MemorySampler::sample_from_file"]:
            return s.a[2]
        return None

    def is_whole(self, s):
        nm = self.nm
        return s.op == "call" and (s.a[0] == nm["MemorySampler::from_file"] or s.a[0] == nm["FileSampler::new"] and len(s.a) > 3 and s.a[3] is NONE)

    def whole(self, e):
        return self.is_whole(e.args[1])

    def lengths(self, facts, files):
        return {t for a, _ in facts for t in walk(a) if t.op == "app" and t.a[0] == "filelen" and any(f in set(walk(t)) for f in files)}

    def reached(self, facts, size, files):
        """the facts say that the size is not less than the length of a sampled file"""
        num = [f for f in facts if f[0].op in ("pos", "eq0")]
        return any(linear.entails(num, sub(size, t), nonneg=lambda z: True) for t in self.lengths(facts, files))

    # ---- rules
    def check(self):
        P, ctx = self.P, self.ctx
        loops = [e[1] for e in P.events if isinstance(e, tuple) and any(e2.name == self.nm["optimize_tokenset"] for e2, _ in flat_events([e]))]
        given = P.opt("input_tokens")
        if not loops:
            # nothing to sample
            own = self.opts(P.events)
            ok = len(own) >= 1 and self.whole(own[-1])
            files = {a for e in own for a in e.args[1].a[1:2] if isinstance(a, T)}
            self.ob("no sample", ok and self.reached(P.facts, self.least, files), "no sample is optimised although the minimum data size may be less than the file")
            return
        if not self.ob("one loop", len(loops) == 1, "samples are optimised in %d loops" % len(loops)):
            return
        L = loops[0]
        size = start = None
        files = set()
        for q in L.paths:
            for e in self.opts(q.events):
                s = self.sampled(e)
                if s is None:
                    continue
                files.add(e.args[1].a[1])
                self.ob("one size", size is None or size is s, "samples of different sizes are optimised in one round: %s" % show(s)[:100], e.span)
                self.ob("one start", start is None or start is e.args[5], "different token sets are the start of one round: %s" % show(e.args[5])[:100], e.span)
                size, start = s, e.args[5]
        if not self.ob("sample", size is not None, "no sample is optimised in the loop"):
            return
        init = {v["phi"]: v["init"] for v in L.leaves.values()}
        init[L.iota] = ZERO
        self.ob("first size", subst(size, init) is self.least, "the first sample has the size %s" % show(subst(size, init))[:100])
        rounds = [q for q in L.paths if q.kind == "cont"]
        ctx.floor("rounds", len(rounds), 1)
        for q in rounds:
            own = self.opts(q.events)
            if not self.ob("round", len(own) == 1 and self.sampled(own[0]) is size, "a round does not optimise one sample: %s" % showlits(q.conds)[:150]):
                continue
            n, t = self.next(L, q, size), self.next(L, q, start)
            facts = [f for f in list(q.conds) + list(q.asserts) if f[0].op in ("pos", "eq0")]
            self.ob("larger", linear.entails(facts, sub(sub(n, size), ONE), nonneg=lambda z: True), "the sample of the next round, of %s, may be as small as that of the last, of %s" % (show(n)[:80], show(size)[:80]), own[0].span)
            self.ob("goes on", self.same_set(t, own[0]), "the next round starts from %s" % show(t)[:160], own[0].span)
        # how the loop is left on this path
        facts = set(P.facts)
        ends = []
        for q in L.paths:
            if q.kind == "cont":
                continue
            m = L.brk(q) if q.kind == "exit" else None
            if m is None:
                self.ob("end", False, "the samples are those of a list")
                return
            if all(lit(subst(a if p else neg(a), m)) in facts or lit(subst(a if p else neg(a), m)) is True for a, p in q.conds):
                ends.append((q, m))
        if not self.ob("end", len(ends) >= 1, "it is not known how the loop of samples ends"):
            return
        for q, m in ends:
            self.end(L, q, m, size, start, files)

    def next(self, L, q, t):
        m = {L.leaves[k]["phi"]: v for k, v in q.upd.items() if k in L.leaves}
        m[L.iota] = add(L.iota, ONE)
        return subst(t, m)

    def same_set(self, t, e):
        """the option t is the token set of the result of e"""
        if t.op != "agg" or t.a[1] != "Some":
            return False
        x, ts = t.a[3], field(e.res, "token_set")
        while x.op == "field" and x.a[1] == "token_set" and x.a[0].op == "call" and x.a[0].a[0] == self.nm["tokenize_file"]:
            x = x.a[0].a[1]     # the set statistics were made with
        return x is ts

    def end(self, L, q, m, size, start, files):
        """the last round, left through q, and what follows; in terms of the values at the end"""
        P = self.P
        i = [k for k, e in enumerate(P.events) if isinstance(e, tuple) and e[1] is L][0]
        evs = [e.mapped(lambda t: subst(t, m)) for e in plain_events(q.events)] + plain_events(P.events[i + 1:])
        evs = list({(e.name, tuple(e.args)): e for e in evs}.values())      # a round that leaves is also part of what follows
        own = self.opts(evs)
        facts = list(P.facts) + [lit(subst(a if p else neg(a), m)) for a, p in list(q.conds) + list(q.asserts)]
        facts = [f for f in facts if isinstance(f, tuple)]
        size0, start0 = subst(size, m), subst(start, m)
        small = [e for e in own if self.sampled(e) is not None]
        last = [e for e in own if self.whole(e)]
        if not self.ob("data", len(small) + len(last) == len(own) and len(last) <= 1 and len(small) <= 1, "other data is optimised at the end"):
            return
        for o in small:
            self.ob("last sample", self.sampled(o) is size0 and o.args[5] is start0, "the last sample is of %s" % show(self.sampled(o))[:100], o.span)
        if last:
            e = last[0]
            if small:
                ok = self.reached(facts, subst(self.next(L, q, size), m), files) or self.reached(facts, size0, files)
                started = self.same_set(e.args[5], small[0])
            else:
                ok = self.reached(facts, size0, files)
                started = e.args[5] is start0
            self.ob("whole data", ok, "the sampling ends before it has reached the whole data: %s" % showlits(q.conds)[:200], e.span)
            self.ob("last start", started, "the whole data is optimised from another token set than the last: %s" % show(e.args[5])[:160], e.span)
            return
        # left early
        if not self.ob("left early", len(small) == 1, "the optimisation ends without the whole data or a last sample: %s" % showlits(q.conds)[:200]):
            return
        o = small[0]
        full = [e for e in evs if e.name == self.nm["tokenize_file"] and self.is_whole(e.args[1]) and e.args[0] is field(o.res, "token_set")]
        if not self.ob("measured", len(full) >= 1, "the optimisation ends without measuring the whole data"):
            return
        self.ob("large sample", linear.entails([f for f in facts if f[0].op in ("pos", "eq0") and contains(f[0], lambda t: t in size0_atoms(size0))], sub(size0, I(SURE + 1)), nonneg=lambda z: True),
                "the optimisation may end after a small sample: %s" % showlits(q.conds)[:120], o.span)
        b = self.nm["TokenStats::bytes_per_token"]
        self.ob("similar", close_only(facts, raw("call", b, o.res), raw("call", b, full[0].res)), "the optimisation may end although the last token set does not fit the whole data: %s" % showlits(facts)[-200:], o.span)


def size0_atoms(t):
    return set(linear.form(t)[1])


# ------------------------------------------------------------------ the formula of the early end
def close_only(facts, x, y):
    """the facts do not hold where x and y differ by 0.5% of y or more"""
    lits = [f for f in facts if any(t is x or t is y for t in walk(f[0]))]
    if not lits:
        return False
    eps = 1e-7
    for yv in (0.25, 1.0, 3.7, 64.0):
        for r in (0.0, 0.2, 0.5, 0.9, 0.98, 0.99, 0.995 - eps, 1.005 + eps, 1.01, 1.02, 1.1, 1.5, 2.0, 10.0, 1000.0):
            vals = [holds(a, p, {x: r * yv, y: yv}) for a, p in lits]
            if all(v is not False for v in vals):
                return False
    return True


def holds(a, p, env):
    v = None
    if a.op == "app" and a.a[0] in ("flt", "fle"):
        l, r = value(a.a[1], env), value(a.a[2], env)
        if l is not None and r is not None:
            v = l < r if a.a[0] == "flt" else l <= r
    return None if v is None else v == p


def value(t, env):
    if t in env:
        return env[t]
    if t.op == "float":
        try:
            return float(str(t.a[0]).replace("_", "").replace("f64", ""))
        except ValueError:
            return None
    if isint(t):
        return float(t.a[0])
    if t.op == "app" or t.op.startswith("f."):
        o = t.a[0] if t.op == "app" else t.op
        xs = [value(z, env) for z in t.a if isinstance(z, T)]
        if not xs or None in xs:
            return None
        try:
            if len(xs) == 2:
                return {"fsub": lambda a, b: a - b, "fadd": lambda a, b: a + b, "fmul": lambda a, b: a * b, "fdiv": lambda a, b: a / b,
                        "f.max": max, "f.min": min}[o](*xs)
            return {"f.abs": abs, "fneg": lambda a: -a, "cast": lambda a: a}[o](*xs)
        except (KeyError, ZeroDivisionError):
            return None
    return None
