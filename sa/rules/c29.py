"""C29 frequency-based byte encodings are distinct and complete"""
from steps import *
import best
import c11
import linear

RULE = ("assume-guarantee over the functions that build a frequency-based encoding. Splitter: one leaf per byte in order, only neighbours are merged, into a node in their place; a part's first byte is that of its "
        "leftmost leaf and its top one of its bytes. Encoder and set maker: every part gives its top byte the code of the part alone, and the bytes of the part without the top the codes of a recursive encoding "
        "with the code of the part put in front; the part is the counts from its first byte to the first byte of the next part (the end for the last); parts with other bytes are never skipped. "
        "Without a split every byte gets a code of its own. Codes of parts are byte tokens at the top level and extension token numbers below. The counts given to a maker have each byte once, in order, with a positive count")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering): structural induction over splitter, recursive encoder and maker, linear entailment for bounds"


def check(ctx):
    s = steps(ctx)
    sp, en, mk = c11.splitters(ctx), c11.encoders(ctx), c11.makers(ctx)
    ctx.floor("functions that split byte counts", len(sp), 1)
    ctx.floor("functions that encode with extension tokens", len(en), 1)
    ctx.floor("functions that make a frequency-based set", len(mk), 1)
    for n in sorted(sp):
        splitter(ctx, n)
    for n in sorted(en):
        encoder(ctx, n, sp, en)
    for n in sorted(mk):
        maker(ctx, n, sp, en)
    k = 0
    for n in s.impls:
        ps, _ = ctx.run(n, tuple(sorted(mk)))
        for p in ps:
            for l in loops_of(p.events):
                for q in l.paths:
                    for e in q.events:
                        if not isinstance(e, tuple) and e.name in mk:
                            k += 1
                            given(ctx, n, e)
    ctx.floor("sets made", k, 1)


# ------------------------------------------------------------------ counts given to a maker
def given(ctx, n, e):
    t = e.args[0]
    bad = None
    while t.op == "out" and isinstance(t.a[1], int) and t.a[0].op == "fold":
        F, i = t.a
        me = raw("phi", F.a[0], i)
        for conds, vals in F.a[3]:
            v = vals[i]
            while v.op == "store":
                if not entry(v.a[1], v.a[2], [c for c in conds if c[0].op in ("pos", "eq0")], v.a[0]):
                    bad = v.a[2]
                v = v.a[0]
            if v is not me:
                bad = v
        t = F.a[2][i]
    while t.op == "store":
        if not entry(t.a[1], t.a[2], [], t.a[0]):
            bad = t.a[2]
        t = t.a[0]
    ok = t.op == "build" and t.a[1] is EMPTY and list(t.a[2]) == [I(256)] and len(t.a[3]) == 1 and not t.a[3][0][0] and len(t.a[3][0][1]) == 1
    if ok:
        x = t.a[3][0][1][0]
        bv = raw("bv", t.a[0])
        ok = x.op == "agg" and len(x.a) == 5 and unwrap(x.a[3]) is bv and linear.entails([], sub(x.a[4], ONE), nonneg=anything)
    ctx.ob("counts", "every byte", ok, e.span, "the counts do not have every byte once, in order, with a positive count: %s" % show(t)[:160], n)
    ctx.ob("counts", "updates", bad is None, e.span, "an update of the counts does not put a byte at its own place with a positive count: %s" % (show(bad)[:160] if bad is not None else ""), n)


def unwrap(b):
    while b.op in ("trunc",) or b.op == "app" and b.a[0] == "trunc":
        b = b.a[-1]
    return b


def entry(i, x, facts, base=None):
    if x.op == "with" and base is not None and x.a[0].op == "idx" and x.a[0].a[0] is base and unwrap(x.a[0].a[1]) is unwrap(i):
        # only the count of what stands there is changed
        d = dict(x.a[1])
        # the count that was there is positive itself
        return set(d) == {"1"} and (linear.entails(facts, sub(d["1"], ONE), nonneg=anything) or linear.entails(facts, sub(d["1"], field(x.a[0], "1")), nonneg=anything))
    return x.op == "agg" and len(x.a) == 5 and unwrap(x.a[3]) is unwrap(i) and linear.entails(facts, sub(x.a[4], ONE), nonneg=anything)


def anything(t):
    return True


# ------------------------------------------------------------------ splitting
def node_functions(ctx, n):
    fs = ctx.engine().names
    return tuple(m for m, f in fs.items() if re.match(r"^fn\(&[\w:]+\) -> [\w:]+$", f.d["sig"]) and f.d["span"][0] == fs[n].d["span"][0])


def splitter(ctx, n):
    w = ctx.where_fn(n)
    ps, _ = ctx.run(n, node_functions(ctx, n))
    A, k = sym("arg", 0), sym("arg", 1)
    used = set()
    leafs = set()
    inner = set()
    for p in ps:
        v = p.val
        ok = v.op == "build" and v.a[1] is EMPTY and len(v.a[2]) == 1 and len(v.a[3]) == 1 and not v.a[3][0][0] and len(v.a[3][0][1]) == 1
        bv = raw("bv", v.a[0]) if ok else None
        x = v.a[3][0][1][0] if ok else None
        ok = ok and x.op == "call" and len(x.a) == 2 and x.a[1].op == "idx" and x.a[1].a[1] is bv and v.a[2][0] is length(x.a[1].a[0])
        if not ctx.ob("split", "one per part", ok, w, "the parts are not turned one by one, in order, into the result: %s" % show(v)[:160], n):
            continue
        used.add(x.a[0])
        nodes = x.a[1].a[0]
        ends = [(L, key, l) for L in loops_of(p.events, deep=False) if not L.trips for key, l in L.leaves.items()
                if nodes.op == "brk" and isinstance(nodes.a[1], int) and nodes.a[0].a[2][nodes.a[1]] is l["init"]]
        if not ctx.ob("split", "merging", len(ends) == 1, w, "the parts are not the result of one merging loop: %s" % show(nodes)[:120], n):
            continue
        L, key, leaf = ends[0]
        one_leaf(ctx, n, leaf["init"], A, L.span, leafs)
        phi = leaf["phi"]
        for q in L.paths:
            if q.kind == "cont":
                x = q.upd.get(key, phi)
                merged(ctx, n, x, phi, L.span, inner)
    for f in sorted(used):
        part(ctx, f, leafs, inner)
    ctx.ob("split", "node kinds", len(leafs) == 1 and len(inner) == 1, w, "leaves are %s and merged parts %s" % (sorted(leafs), sorted(inner)), n)


def variant_field(rec):
    """the field of a node that says what it is made of"""
    c = [(f, v) for f, v in zip(rec.a[2], rec.a[3:]) if v.op == "agg" and v.a[1] is not None and len(v.a) > 3] if rec.op == "agg" else []
    return c[0] if len(c) == 1 else (None, None)


def one_leaf(ctx, n, t, A, w, leafs):
    ok = t.op == "build" and t.a[1] is EMPTY and list(t.a[2]) == [length(A)] and len(t.a[3]) == 1 and not t.a[3][0][0] and len(t.a[3][0][1]) == 1
    if ok:
        f, c = variant_field(t.a[3][0][1][0])
        ok = f is not None and len(c.a) == 4 and c.a[3] is field(idx(A, raw("bv", t.a[0])), "0")
        if ok:
            leafs.add((f, str(c.a[1])))
    ctx.ob("split", "one leaf per byte", ok, w, "splitting does not start with one part per byte, in order: %s" % show(t)[:160], n)


def merged(ctx, n, x, phi, w, inner):
    ok = False
    why = x
    for y in walk(x):
        if y.op != "agg":
            continue
        f, c = variant_field(y)
        if f is None or len(c.a) != 5:
            continue
        a, b = c.a[3], c.a[4]
        if a.op != "idx" or a.a[0] is not phi or b is not idx(phi, add(a.a[1], ONE)):
            why = c
            continue
        i = a.a[1]
        rest = slice_(phi, add(i, I(2)), None)
        want = [store(cat(slice_(phi, ZERO, add(i, ONE)), rest), i, y), cat(slice_(phi, ZERO, i), raw("list", y), rest)]
        if x in want:
            ok = True
            inner.add((f, str(c.a[1])))
    ctx.ob("split", "merge", ok, w, "merging does not replace two neighbours by a part of both, in their place: %s" % show(subst(why, {phi: sym("parts")}))[:200], n)


def alternatives(v, one, two):
    """what a value is for each outcome of a choice among two parts"""
    for z in best.choices_in(v):
        if z.op == "payload" and z.a[0].op == "app" and z.a[0].a[1].op == "list" and set(z.a[0].a[1].a) == {one, two}:
            return [subst(v, {z: one}), subst(v, {z: two})]
    return [v]


def part(ctx, f, leafs, inner):
    """first and top byte of a part"""
    w = ctx.where_fn(f)
    ps, _ = ctx.run(f)
    nd = sym("arg", 0)
    fields = {x for p in ps if p.val.op == "agg" for x in p.val.a[2]}
    roles = {}
    kinds = set()
    for p in ps:
        facts = set(p.conds)
        for (lf, lv) in leafs:
            c = field(nd, lf)
            b = payload(c, lv)
            if lit(is_variant(c, lv)) in facts:
                kinds.add("leaf")
                byte = [g for g in fields if field(p.val, g) is b]
                roles.setdefault("bytes", set()).update(byte)
                ctx.ob("part", "leaf", len(byte) == 2, w, "a part of one byte is %s" % show(p.val)[:160], f)
    lo = top = None
    for p in ps:
        facts = set(p.conds)
        for (g, gv) in inner:
            c = field(nd, g)
            if lit(is_variant(c, gv)) not in facts:
                continue
            kinds.add("inner")
            one, two = raw("call", f, payload(c, gv)), raw("call", f, payload(c, gv, "1"))
            lows, tops = set(), set()
            alts = alternatives(p.val, one, two)
            for b in roles.get("bytes", ()):
                vs = [field(v, b) for v in alts]
                if all(v in (field(one, b), app("min", field(one, b), field(two, b)), app("min", field(two, b), field(one, b)), raw("min", field(one, b), field(two, b)), raw("min", field(two, b), field(one, b))) for v in vs):
                    lows.add(b)
                if all(v in (field(one, b), field(two, b)) for v in vs):
                    tops.add(b)
            ctx.ob("part", "inner", len(lows | tops) == 2 and lows, w, "a part made of two is %s" % show(p.val)[:200], f)
            lo = lows if lo is None else lo & lows
            top = tops if top is None else top & tops
    ctx.ob("part", "kinds", kinds == {"leaf", "inner"}, w, "only parts that are %s are known" % ", ".join(sorted(kinds)), f)
    pairs = [(a, b) for a in (lo or ()) for b in (top or ()) if a != b]
    if ctx.ob("part", "first and top", len(pairs) == 1, w, "the first and the top byte of a part made of two are not those of its parts", f):
        ctx._part = pairs[0]


# ------------------------------------------------------------------ intervals
class Part:
    """the i-th part of a split of counts A into calls[..]"""
    def __init__(self, ctx, A, S, i, facts):
        self.ctx, self.A, self.S, self.i, self.facts = ctx, A, S, i, facts
        lo, top = getattr(ctx, "_part", ("lo", "top"))
        self.first = field(idx(S, i), lo)
        self.top = field(idx(S, i), top)
        self.next = field(idx(S, add(i, ONE)), lo)
        nums = [c for c in facts if c[0].op in ("pos", "eq0")]
        left = sub(sub(length(S), ONE), i)
        inside = [(pos(sub(length(S), i)), True)]
        if linear.entails(nums, sub(ZERO, left), depth=2):
            self.last = True
        elif linear.entails(nums + inside, sub(left, ONE), depth=2):
            self.last = False
        else:
            self.last = None
        self.lo = self.at(A, self.first)
        self.hi = None if self.last is None else length(A) if self.last else self.at(A, self.next)

    def at(self, A, b):
        return payload(app("bsearch", A, tup(b, ZERO)), "Err")

    def rest(self):
        """the bytes of the part without the top one (the ways to write it)"""
        hi = None if self.last else self.hi
        X = slice_(self.A, self.lo, hi)
        t = self.at(X, self.top)
        return [cat(slice_(X, ZERO, t), slice_(X, add(t, ONE), None))], X

    def is_rest(self, s):
        want, X = self.rest()
        if s in want:
            return True
        # the place of the top byte found by looking at each byte
        found = {}
        for y in walk(s):
            if y.op == "brk" and y.a[1] == "pos" and y.a[0].op == "fold":
                F = y.a[0]
                e = field(idx(X, raw("bv", F.a[0])), "0")
                if list(F.a[1]) == [length(X)] and list(F.a[4]) in ([lit(eq_int(e, self.top))], [lit(eq_int(self.top, e))]):
                    found[y] = self.at(X, self.top)
        if found and subst(s, found) in want:
            return True
        # the bytes of the part that are not the top one
        if s.op == "build" and s.a[1] is EMPTY and list(s.a[2]) == [length(X)] and len(s.a[3]) == 1:
            bv = raw("bv", s.a[0])
            e = idx(X, bv)
            (conds, els), = s.a[3]
            return list(els) == [e] and list(conds) in ([lit(neg(eq_int(field(e, "0"), self.top)))], [lit(neg(eq_int(self.top, field(e, "0"))))])
        return False

    def alone(self, facts):
        """is the part known to be the top byte only"""
        if self.last is None:
            return False
        nums = [c for c in facts if c[0].op in ("pos", "eq0")]
        return linear.entails(nums, sub(ONE, sub(self.hi, self.lo)), depth=2)


def split_loop(ctx, n, p, sp, w):
    """(loop over the parts, split call)"""
    for L in loops_of(p.events, deep=False):
        if len(set(L.trips)) == 1 and L.trips[0].op == "len" and L.trips[0].a[0].op == "call" and L.trips[0].a[0].a[0] in sp:
            return L, L.trips[0].a[0]
    return None, None


def added(x, phi):
    """what a list gets in a pass of a loop: elements and builds, or None"""
    out = []
    while x is not phi:
        if x.op == "push":
            out.append(x.a[1])
            x = x.a[0]
        elif x.op == "cat":
            for y in reversed(x.a[1:]):
                out += list(reversed(y.a)) if y.op == "list" else [y]
            x = x.a[0]
        elif x.op == "build" and x.a[1] is EMPTY and len(x.a[2]) == 1 and x.a[2][0] is length(phi):
            return list(reversed(out)), x
        else:
            return None, x
    return list(reversed(out)), None


def encoder(ctx, n, sp, en):
    w = ctx.where_fn(n)
    A, k = sym("arg", 0), sym("arg", 1)
    ps, _ = ctx.run(n, tuple(sorted(sp)))
    direct = split = 0
    for p in ps:
        nums = [c for c in p.conds if c[0].op in ("pos", "eq0")]
        L, S = split_loop(ctx, n, p, sp, w)
        if L is None:
            direct += 1
            v = p.val
            ok = v.op == "build" and v.a[1] is EMPTY and list(v.a[2]) == [length(A)] and len(v.a[3]) == 1 and not v.a[3][0][0]
            if ok:
                bv = raw("bv", v.a[0])
                ok = list(v.a[3][0][1]) == [tup(field(idx(A, bv), "0"), raw("list", bv))]
            elif v is EMPTY:
                ok = linear.entails(nums, sub(ZERO, length(A)), depth=1)
            ctx.ob("encoder", "own code", ok, w, "without a split not every byte gets a code of its own: %s" % show(v)[:200], n)
            ctx.ob("encoder", "enough codes", linear.entails(nums, sub(k, length(A)), depth=2), w, "bytes are numbered directly although there may be more than extension tokens: %s" % showlits(p.conds)[:160], n)
            continue
        split += 1
        ctx.ob("encoder", "split", S.a[1] is A and S.a[2] is k, w, "the split is %s instead of all counts into one part per extension token" % show(S)[:120], n)
        acc = [(key, l["phi"]) for key, l in L.leaves.items() if l["init"] is EMPTY and L.final.get(l["phi"]) is p.val]
        if not ctx.ob("encoder", "collected", len(acc) == 1, w, "the codes returned are not those collected from the parts: %s" % show(p.val)[:120], n):
            continue
        key, phi = acc[0]
        for q in L.paths:
            if q.kind == "exit":
                ctx.ob("encoder", "all parts", False, L.span, "not every part is encoded: the loop ends when %s" % showlits(q.conds)[:120], n)
            if q.kind != "cont":
                continue
            P = Part(ctx, A, S, L.iota, list(q.conds))
            xs, base = added(q.upd.get(key, phi), phi)
            if not ctx.ob("encoder", "adds", xs is not None and base is None, L.span, "codes found before are changed: %s" % show(q.upd.get(key, phi))[:160], n):
                continue
            me = tup(P.top, raw("list", L.iota))
            ctx.ob("encoder", "top byte", xs.count(me) == 1, L.span, "the top byte of a part does not get the code of the part: %s" % "; ".join(show(x)[:100] for x in xs), n)
            rest = [x for x in xs if x is not me]
            below(ctx, n, "encoder", P, q, L, rest, en, k,
                  lambda e: tup(field(e, "0"), cat(raw("list", L.iota), field(e, "1"))))
    ctx.floor("%s: numbering without a split" % n, direct, 1)
    ctx.floor("%s: encoding by parts" % n, split, 1)


def below(ctx, n, rule, P, q, L, rest, en, k, code):
    """the other bytes of a part get the codes of a recursive encoding behind the code of the part"""
    if not rest:
        ctx.ob(rule, "other bytes", P.alone(list(q.conds)), L.span, "the other bytes of a part may get no code: %s" % showlits(q.conds)[:260], n)
        return
    ok = len(rest) == 1 and rest[0].op == "build" and rest[0].a[1] is EMPTY and len(rest[0].a[2]) == 1 and len(rest[0].a[3]) == 1 and not rest[0].a[3][0][0] and len(rest[0].a[3][0][1]) == 1
    C = None
    if ok:
        b = rest[0]
        C = b.a[2][0].a[0] if b.a[2][0].op == "len" else None
        ok = C is not None and C.op == "call" and C.a[0] in en
    if not ctx.ob(rule, "recursive", ok, L.span, "the other bytes of a part do not all get the codes of an encoding: %s" % "; ".join(show(x)[:120] for x in rest), n):
        return
    ctx.ob(rule, "rest of the part", P.is_rest(C.a[1]), L.span, "the bytes encoded are not those of the part without its top byte: %s" % show(C.a[1])[:300], n)
    ctx.ob(rule, "extension tokens", C.a[2] is k, L.span, "the other bytes are encoded with %s extension tokens" % show(C.a[2])[:80], n)
    e = idx(C, raw("bv", b.a[0]))
    got = b.a[3][0][1][0]
    ctx.ob(rule, "code of the part in front", got is code(e), L.span, "a byte gets the code %s" % show(subst(got, {C: sym("codes")}))[:200], n)


def maker(ctx, n, sp, en):
    w = ctx.where_fn(n)
    A = sym("arg", 0)
    ps, _ = ctx.run(n, tuple(sorted(sp | en)))
    done = 0
    for p in ps:
        L, S = split_loop(ctx, n, p, sp, w)
        if not ctx.ob("maker", "parts", L is not None, w, "the set is not made part by part", n):
            continue
        done += 1
        ctx.ob("maker", "split", S.a[1] is A, w, "the split is %s instead of all counts" % show(S)[:120], n)
        toks, seqs = field(p.val, "tokens"), field(p.val, "sequences")
        tk = [(key, l) for key, l in L.leaves.items() if L.final.get(l["phi"]) is toks]
        sk = [(key, l) for key, l in L.leaves.items() if L.final.get(l["phi"]) is seqs]
        if not ctx.ob("maker", "collected", len(tk) == 1 and len(sk) == 1 and sk[0][1]["init"] is EMPTY, w, "tokens and sequences are not those collected from the parts: %s" % show(p.val)[:160], n):
            continue
        (tkey, tl), (skey, sl) = tk[0], sk[0]
        tphi, sphi = tl["phi"], sl["phi"]
        ext = tl["init"]
        ok = ext.op == "build" and ext.a[1] is EMPTY and len(ext.a[2]) == 1 and len(ext.a[3]) == 1 and not ext.a[3][0][0] and len(ext.a[3][0][1]) == 1
        e = ext.a[3][0][1][0] if ok else None
        ok = ok and e.op == "agg" and str(e.a[1]) == "Ext" and unwrap(e.a[3]) is raw("bv", ext.a[0])
        if not ctx.ob("maker", "extension tokens first", ok, w, "a new set does not start with the extension tokens in order: %s" % show(ext)[:160], n):
            continue
        k = ext.a[2][0]
        for q in L.paths:
            if q.kind == "exit":
                ctx.ob("maker", "all parts", False, L.span, "not every part is encoded: the loop ends when %s" % showlits(q.conds)[:120], n)
            if q.kind != "cont":
                continue
            P = Part(ctx, A, S, L.iota, list(q.conds))
            t = q.upd.get(tkey, tphi)
            tok = t.a[1] if t.op == "push" and t.a[0] is tphi else None
            ctx.ob("maker", "top byte", tok is not None and tok.op == "agg" and str(tok.a[1]) == "Str" and tok.a[3] is raw("list", P.top), L.span,
                   "the top byte of a part does not get a token: %s" % show(t)[:200], n)
            xs, base = added(q.upd.get(skey, sphi), sphi)
            okb = xs is not None and (base is None or kept(base, sphi, P.top))
            if not ctx.ob("maker", "adds", okb, L.span, "sequences made before are changed: %s" % show(q.upd.get(skey, sphi))[:160], n):
                continue
            below_seq(ctx, n, P, q, L, xs, en, k, length(tphi))
    ctx.floor("%s: ways to make a set" % n, done, 1)


def kept(b, phi, top):
    """all sequences but those for a byte that gets a token now"""
    if len(b.a[3]) != 1 or len(b.a[3][0][1]) != 1:
        return False
    (conds, els), = b.a[3]
    e = idx(phi, raw("bv", b.a[0]))
    ok = {lit(neg(eq(field(e, "string"), raw("list", top)))), lit(neg(eq(raw("list", top), field(e, "string"))))}
    return els[0] is e and all(c in ok for c in conds)


def below_seq(ctx, n, P, q, L, rest, en, k, token):
    def code(e):
        return None
    if len(rest) == 1 and rest[0].op == "build" and len(rest[0].a[3]) == 1 and len(rest[0].a[3][0][1]) == 1:
        x = rest[0].a[3][0][1][0]
        if x.op == "agg" and str(x.a[0]).endswith("Sequence"):
            def code(e, x=x):
                s, t = field(x, "string"), field(x, "tokens")
                return x if s is raw("list", field(e, "0")) and t is cat(raw("list", token), field(e, "1")) else None
    below(ctx, n, "maker", P, q, L, rest, en, k, code)
