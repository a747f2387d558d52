"""What one step of the optimiser does: its summary with every helper inlined, in terms of the token sets it
builds (calls that only compute stay calls) and of measured totals and sizes."""
import re
from commands import *
import linear

ADD = ("TokenSet::add_token", "fn(&mut %s, &[u8]) -> usize" % SET)
REMOVE = ("TokenSet::remove_token", "fn(&mut %s, usize)" % SET)


class Steps:
    def __init__(self, ctx):
        self.ctx = ctx
        fs = ctx.engine().names
        self.fs = fs
        self.nm = names(ctx, LEVEL2)
        self.gs = self.nm["TokenizerCache::get_stats"]
        self.gsp = self.nm["TokenizerCache::get_stats_with_pairs"]
        self.tok = self.nm["tokenize_file"]
        self.step = self.nm["optimization_step"]
        self.remove = ctx.role(*REMOVE)
        self.pickers = pickers(ctx)
        self.impls = ob_impls(ctx)
        self.ob_name = {re.match(r"^<.+ as (.+)>::(\w+)$", n).group(1).split("::")[-1] + "::" + n.split("::")[-1] for n in self.impls}
        text = [n for n, f in fs.items() if f.d["sig"].split("->")[-1].strip() == "std::string::String" and "(" in f.d["sig"]]
        estimate = [n for n, f in fs.items() if f.d["sig"] == "fn(&%s, &%s) -> u64" % (SET, STATS)]
        find = [n for n, f in fs.items() if f.d["sig"] == "fn(&%s, &[u8]) -> std::option::Option<usize>" % SET]
        lookups = [n for n, f in fs.items() if re.search(r"&mut [\w:]*TokenizerCache", f.d["sig"]) and re.fullmatch(r"(&(mut )?)?" + re.escape(STATS), f.d["sig"].split("->")[-1].strip())]
        self.estimate = set(estimate)
        self.lookups = set(lookups) & ({self.gs, self.gsp} | {n for n in lookups if f_args(fs[n]) == 2})
        self.opaque = tuple(sorted(set(text + estimate + find) | self.lookups | set(self.pickers) | {self.remove, self.tok}))
        self.paths, self.eng = ctx.run(self.step, self.opaque)
        self.memo = {}
        self.me, self.want = sym("arg", 0), sym("arg", 1)

    # ---- normal form
    def stats_of(self, st):
        """the token set statistics were measured with, or None"""
        if st.op == "call" and st.a[0] in self.lookups:
            return st.a[2]
        if st.op == "call" and st.a[0] == self.tok:
            return st.a[1]
        return None

    def fold(self, t):
        if t.op == "field" and t.a[1] in ("token_set", "total_tokens"):
            x = self.stats_of(t.a[0])
            if x is not None:
                return x if t.a[1] == "token_set" else raw("total", x)
        if t.op == "sum":
            x = long_count(t)
            if x is not None:
                return raw("nlong", x)
        return None

    def n(self, t):
        return rewrite(t, self.fold, self.memo)

    def facts(self, p):
        out = []
        for a, b in list(p.conds) + list(p.asserts):
            out.append(lit(self.n(a)) if b else lit(neg(self.n(a))))
        return [x for x in out if isinstance(x, tuple)]

    def results(self):
        """(path, token set it returns) for the paths on which a step succeeds"""
        out = []
        for p in self.paths:
            v = self.n(p.val)
            if v is NONE:
                continue
            out.append((p, self.n(payload(v, "Some"))))
        return out

    def size(self, x):
        return length(field(x, "tokens"))

    def origin(self, x):
        """how a token set was made: ('ob', stats set, k) | ('pick', stats set) | ('removed', set) | ('same',) | None"""
        x = self.n(x)
        if x is self.me:
            return ("same",)
        if x.op == "call" and x.a[0] in self.ob_name:
            y = self.stats_of(x.a[1])
            return ("ob", y, x.a[2]) if y is not None else None
        if x.op == "mutout" and x.a[0] == self.remove and x.a[1] == 0:
            return ("removed", x.a[2], x.a[3])
        st = self.picked(x)
        if st is not None:
            y = self.stats_of(st)
            return ("pick", y, st) if y is not None else None
        return None

    def picked(self, x):
        """statistics the picker made x from"""
        b = x
        while b.op in ("field", "payload"):
            b = b.a[0]
        if b is not x and b.op == "call" and b.a[0] in self.pickers:
            return b.a[1]
        return None

    def size_facts(self, terms, bounded):
        """what the parts of the step do to the size; bounded: single bytes are chosen within the number asked for, or the set is left alone"""
        out, todo, seen = [], list(terms), set()
        while todo:
            t = todo.pop()
            for x in walk(t):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "len" and x.a[0].op == "field" and x.a[0].a[1] == "tokens":
                    s = x.a[0].a[0]
                elif x.op == "nlong":
                    s = x.a[0]
                    out.append(sub(self.size(s), x))
                    continue
                else:
                    continue
                o = self.origin(s)
                new = []
                if o and o[0] == "pick":
                    d = sub(add(self.size(o[1]), ONE), x)
                    new = [d, sub(I(0), d)]
                elif o and o[0] == "removed":
                    d = sub(sub(self.size(o[1]), ONE), x)
                    new = [d, sub(I(0), d)]
                elif o and o[0] == "ob":
                    if bounded:
                        new = [sub(add(o[2], raw("nlong", o[1])), x)]
                    else:
                        d = sub(self.size(o[1]), x)
                        new = [d, sub(I(0), d)]
                new = [self.n(y) for y in new]
                out += new
                todo += new
        return out

    def proves(self, p, goal, extra=()):
        """goal >= 0 on this path, whatever way single bytes are chosen"""
        fs = self.facts(p)
        goal = self.n(goal)
        # only facts about numbers
        num = [(a, b) for a, b in fs if a.op in ("pos", "eq0")]
        nn = lambda t: t.op in ("total", "nlong", "sym")
        # unrelated facts cost time: keep those that share an atom, transitively
        for bounded in (True, False):
            terms = [goal] + list(extra) + [a.a[0] for a, _ in num]
            ex = self.size_facts(terms, bounded) + list(extra)
            use = relevant(num, goal, ex)
            if not linear.entails(use, goal, nonneg=nn, extra=ex, depth=2):
                return False
        return True


def relevant(num, goal, extra):
    at = set(linear.form(goal)[1])
    for e in extra:
        at |= set(linear.form(e)[1])
    use = []
    changed = True
    rest = list(num)
    while changed:
        changed = False
        for f in list(rest):
            d = set(linear.form(f[0].a[0])[1])
            if d & at:
                at |= d
                use.append(f)
                rest.remove(f)
                changed = True
    return use


def f_args(f):
    return f.d["argc"]


def pickers(ctx):
    """functions that make a token set out of the pair counts of statistics"""
    fs = ctx.engine().names
    out = []
    for n, f in fs.items():
        s = f.d["sig"]
        if "->" in s and "&" + STATS in s.split("->")[0] and SET in s.split("->")[-1] and f.d["argc"] == 1 and reads(ctx, f.d["key"], "pair_counts"):
            out.append(n)
    # the outermost: one that only others of them call is part of those
    cr = crate(ctx)
    keys = {n: fs[n].d["key"] for n in out}
    return sorted(n for n in out if not (cr.back.get(keys[n]) and cr.only_from(keys[n], {k for m, k in keys.items() if m != n})))


def ob_impls(ctx):
    fs = ctx.engine().names
    return sorted(n for n, f in fs.items() if n.startswith("<") and f.d["sig"] == "fn(&%s, usize) -> %s" % (STATS, SET))


def steps(ctx):
    if not hasattr(ctx, "_steps"):
        ctx._steps = Steps(ctx)
    return ctx._steps


def reads(ctx, key, fld):
    """does a function, or one it calls, mention a field of the statistics"""
    cr = crate(ctx)
    if not hasattr(ctx, "_mentions"):
        ctx._mentions = {}
    if fld not in ctx._mentions:
        ctx._mentions[fld] = {k for k, f in ctx.prog.fns.items() if mentions(f, fld, cr)}
    return bool(cr.reach([key]) & ctx._mentions[fld])


def crate(ctx):
    if not hasattr(ctx, "_crate"):
        ctx._crate = Crate(ctx)
    return ctx._crate


def mentions(f, fld, cr):
    import json
    pat = '[".", "%s",' % fld
    for b in f["blocks"]:
        if b["cleanup"]:
            continue
        if any(x[0] == "=" and pat in json.dumps(x[2]) for x in b["s"]):
            return True
        if b["t"][0] == "call" and pat in json.dumps(b["t"][1]["args"]):
            return True
    return False


def is_long(conds, els, bv):
    """the condition 'this token is a string of more than one byte', for a sequence of tokens"""
    need_len = False
    src = None
    for a, p in conds:
        if a.op == "is" and a.a[0].op == "idx" and a.a[0].a[1] is bv:
            if not (a.a[1] == "Ext" and not p or a.a[1] == "Str" and p):
                return None
            if src is not None and src is not a.a[0].a[0]:
                return None
            src = a.a[0].a[0]
    if src is None:
        return None
    s = payload(idx(src, bv), "Str")
    for a, p in conds:
        if a.op == "is":
            continue
        if (a, p) == lit(pos(sub(length(s), ONE))):
            need_len = True
        elif (a, p) not in (lit(pos(length(s))), lit(neg(eq0_(length(s)))), lit(neg(eq0_(sub(length(s), ONE))))):
            return None
    if not need_len:
        return None
    return src, s


def eq0_(x):
    return eq_int(x, I(0))


def long_count(t):
    """sum over the tokens of a set of 1 for each that is longer than a byte -> the set"""
    bvn, trips, cases = t.a[0], t.a[1], t.a[2]
    if len(trips) != 1 or len(cases) != 1:
        return None
    conds, v = cases[0]
    if v is not ONE:
        return None
    r = is_long(conds, None, raw("bv", bvn))
    if r is None:
        return None
    src = r[0]
    if trips[0] is not length(src) or src.op != "field" or src.a[1] != "tokens":
        return None
    return src.a[0]
