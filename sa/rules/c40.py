"""C40 samples are cut between paragraphs"""
from ctx import *
import linear
import c23

RULE = ("every path on which an unrestricted iterator of samples yields: the sample ends at the end of the data, or right behind two newlines, or it has the full size asked for and no two newlines in a row end inside it "
        "(the path's conditions say so of every position the search went over, and these are all positions of the sample: linear entailment)")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering), linear entailment over the searched range"

NL = I(10)


class Quiet:
    """the context without its obligations, which are those of another property"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.cuts = []

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def ob(self, rule, inst, ok, where, msg, fn=""):
        return bool(ok)

    def floor(self, *a):
        pass


def check(ctx):
    q = Quiet(ctx)
    c23.check(q)
    kinds = {}
    for kind, fn, w, p, facts, ent, D, a, b, at_end, full in q.cuts:
        c = Cut(facts, ent, D, a, b)
        how = "end" if at_end() else "paragraph" if c.behind() else "full" if full() and c.none_inside() else None
        kinds.setdefault(kind, set()).add(how)
        ctx.ob("cut", kind, how is not None, w, "a sample may end at %s in the middle of a paragraph that ends inside it, when %s" % (show(b)[:120], showlits(p.conds)[:300]), fn)
    for k in ("memory", "file"):
        ctx.floor("samples of data in %s that end at the end of a paragraph" % k, len([1 for h in kinds.get(k, ()) if h == "paragraph"]), 1)
        ctx.floor("ways samples of data in %s end" % k, len(kinds.get(k, ())), 2)


def newlines(D, a, p):
    """the positions at which this condition says there is a newline"""
    if not p:
        return None
    if a.op == "eq0":
        c, f = linear.form(a.a[0])
        if len(f) == 1:
            (x, k), = f.items()
            if x.op == "idx" and x.a[0] is D and c == -10 * k:
                return [x.a[1]]
    if a.op == "eq":
        for x, y in (a.a, a.a[::-1]):
            n = len(y.a) if y.op == "list" and all(z is NL for z in y.a) else len(y.a[0]) if y.op == "bytes" and not y.a[0].strip(b"\n") else 0
            if n and x.op == "slice" and x.a[0] is D:
                return [add(x.a[1], I(i)) for i in range(n)]
    return None


class Cut:
    def __init__(self, facts, ent, D, a, b):
        self.facts, self.ent, self.D, self.a, self.b = facts, ent, D, a, b

    def same(self, x, y):
        return x is y or self.ent(sub(x, y)) and self.ent(sub(y, x))

    def behind(self):
        """the two bytes before the end of the sample are newlines"""
        at = [i for a, p in self.facts for i in newlines(self.D, a, p) or ()]
        return all(any(self.same(i, sub(self.b, I(k))) for i in at) for k in (1, 2))

    def none_inside(self):
        """no two newlines in a row end behind the start (and the byte after it) and at the end at the latest"""
        for x, n in self.searched():
            j = raw("bv", x[0])
            lits = [newlines(self.D, a, p) for a, p in x[1]]
            if not lits or any(l is None for l in lits):
                continue
            at = [i for l in lits for i in l]
            one = {j: ONE}
            zero = {j: ZERO}
            if not all(self.constant(sub(subst(i, one), subst(i, zero))) in (1, -1) for i in at):
                continue
            # the place where two newlines end, of position j of the search
            e = [add(i, ONE) for i in at if any(self.same(sub(i, k), ONE) for k in at)] or [add(i, ONE) for i in at if len(at) == 1]
            if not e or not all(self.same(sub(k, e[0]), I(-1)) or self.same(sub(k, e[0]), I(-2)) for k in at):
                continue
            up = self.constant(sub(subst(e[0], one), subst(e[0], zero))) == 1
            lo = subst(e[0], {j: ZERO if up else sub(n, ONE)})
            hi = subst(e[0], {j: sub(n, ONE) if up else ZERO})
            if self.ent(sub(hi, self.b)) and (self.ent(sub(add(self.a, I(2)), lo)) or self.ent(sub(I(2), lo))):
                return True
        return False

    def constant(self, t):
        c, f = linear.form(t)
        return c if not f else None

    def searched(self):
        """((variable, conditions), how many positions) that were searched without finding any that meets the conditions"""
        out = []
        for a, p in self.facts:
            if a.op == "exists" and not p and len(a.a[1]) == 1:
                out.append(((a.a[0], a.a[2]), a.a[1][0]))
            for x in walk(a):
                if x.op == "brk" and x.a[1] == "pos" and x.a[0].op == "fold" and len(x.a[0].a) > 4:
                    F = x.a[0]
                    if ((F.a[0], F.a[4]), x) not in out:
                        out.append(((F.a[0], F.a[4]), x))
        return out
