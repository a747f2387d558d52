"""C04 saved token sets load back as the same token set"""
from ctx import *
import models
import c05

RULE = ("the writer's document is substituted into the reader's summary (keys, spellings, element encodings, filters): for every "
        "type, processing mode and flag, the path the reader takes must rebuild each recorded field from what was written for it; a document in the older form (fallback_bits, all_tokens, no paragraph flag) is substituted too")
ASSUMES = ["the saved set lists its extension tokens 0..n first (sets are sorted before they are saved)",
           "decoding a token value is the inverse of encoding it (C05)"]

DIGITS = {"Bits1": 2, "Bits2": 4, "Bits4": 16, "Bytes": 0}     # extension tokens of the types that fix their number
ABSENT = raw("absent")

SIG = "fn(&tokenset::TokenSet) -> serde_json::Value"
RSIG = "fn(serde_json::Value) -> tokenset::TokenSet"


def variants(ctx, name):
    a = ctx.adt(name)
    return [v["name"] for v in a["variants"]] if a else []


def serde_names(ctx, ty):
    """variant -> the text the derived Serialize writes"""
    out = {}
    fn = "<%s as Serialize>::serialize" % ty
    ps, _ = ctx.run(fn)
    texts = [{x.a[0].decode() for x in walk(p.val) if x.op == "bytes"} for p in ps]
    # the name of the type itself is in every path
    common = set.intersection(*texts) if len(texts) > 1 else {ty}
    for p, lits in zip(ps, texts):
        v = [a.a[1] for a, pol in p.conds if pol and a.op == "is" and a.a[0] is sym("arg", 0)]
        neg_ = {a.a[1] for a, pol in p.conds if not pol and a.op == "is" and a.a[0] is sym("arg", 0)}
        if not v:
            v = [x for x in variants(ctx, ty) if x not in neg_]
        strs = [x for x in lits if x not in common]
        if len(v) == 1 and len(strs) == 1:
            out[v[0]] = strs[0]
    return out


class Compose:
    """folding rules that read the written document"""

    def __init__(self, ctx, names, types, dec, enc, encb):
        self.names, self.types, self.dec, self.enc, self.encb = names, types, dec, enc, encb

    def kind(self, x):
        """json kind of json(x)"""
        if x.op == "agg":
            ty = x.a[0].split("::")[-1]
            if ty in self.names:
                return "String"
        if x.op == "bytes" or x.op == "app" and x.a[0] in ("display", "tostring"):
            return "String"
        if x.op in ("build", "cat", "list"):
            return "Array"
        if x.op == "bool":
            return "Bool"
        if x.op == "int":
            return "Number"
        return self.types.get(x)

    def payload(self, x, k):
        if x.op == "agg":
            ty = x.a[0].split("::")[-1]
            if ty in self.names:
                n = self.names[ty].get(x.a[1])
                return None if n is None else S(n)
        return x

    def has(self, v, k):
        """the value stored under key k, None when absent, False when not known"""
        if v.op == "store":
            if v.a[1] is k:
                return None if v.a[2] is ABSENT else v.a[2]
            if v.a[1].op == "bytes":
                return self.has(v.a[0], k)
            return False
        if v.op == "app" and v.a[0] == "jobj":
            m = v.a[1]
            while m.op == "app" and m.a[0] == "minsert":
                if m.a[2] is k:
                    return m.a[3]
                if m.a[2].op != "bytes":
                    return False
                m = m.a[1]
            return None if m.op == "app" and m.a[0] == "newmap" else False
        return False

    def __call__(self, t):
        if t.op == "app" and t.a[0] == "jget":
            r = self.has(t.a[1], t.a[2])
            return r if isinstance(r, T) else None
        if t.op == "jgetopt":
            r = self.has(*t.a)
            return None if r is False else models.NONE if r is None else Some(r)
        if t.op == "app" and t.a[0] == "mget" and t.a[1].op == "payload" and t.a[1].a[1] == "Object":
            r = self.has(t.a[1].a[0], t.a[2])
            return None if r is False else models.NONE if r is None else Some(r)
        if t.op == "is":
            v, k = t.a
            if v.op == "store" or v.op == "app" and v.a[0] == "jobj":
                return B(k == "Object")
            if v.op == "app" and v.a[0] == "json":
                kk = self.kind(v.a[1])
                if kk:
                    return B(k == kk)
            if v.op == "call" and v.a[0] == self.enc and k == "Number":
                return is_variant(v.a[1], "Ext")
            if v.op == "call" and v.a[0] == self.enc and k in ("Object", "Bool", "Null"):
                return FALSE
        if t.op == "payload" and t.a[0].op == "app" and t.a[0].a[0] == "json":
            x = t.a[0].a[1]
            kk = self.kind(x)
            if kk == t.a[1]:
                return self.payload(x, kk)
        if t.op == "numopt" and t.a[1].op == "app" and t.a[1].a[0] == "json" and t.a[1].a[1].op == "int":
            return Some(t.a[1].a[1])
        if t.op == "app" and t.a[0] == "json" and t.a[1].op == "call" and t.a[1].a[0] in (self.enc, self.encb):
            return t.a[1]
        if t.op == "call" and t.a[0] == self.dec:
            v = t.a[1]
            if v.op == "call" and v.a[0] == self.enc:
                return v.a[1]
            if v.op == "call" and v.a[0] == self.encb:
                return agg("tokenset::Token", "Str", ("0",), (v.a[1],))
        if t.op == "idx" and t.a[0].op == "build":
            r = filtered(t.a[0])
            if r:
                F, bv, el, base = r
                return subst(el, {idx(base, bv): idx(F, t.a[1])})
        if t.op == "len" and t.a[0].op == "build":
            r = filtered(t.a[0])
            if r:
                return length(r[0])
        return None


def filtered(b):
    """a build that keeps some elements of one sequence and maps them -> (kept elements, bv, mapped element, sequence)"""
    h, init, trips, cases = b.a
    if init is not EMPTY or len(trips) != 1 or len(cases) != 1 or not cases[0][0] or len(cases[0][1]) != 1:
        return None
    if trips[0].op != "len":
        return None
    base = trips[0].a[0]
    bv = raw("bv", h)
    el = cases[0][1][0]
    e = idx(base, bv)
    hole = raw("hole")
    if contains(subst(el, {e: hole}), lambda z: z is bv):
        return None
    conds = frozenset((subst(a, {e: hole}), p) for a, p in cases[0][0])
    return raw("kept", base, conds), bv, el, base


def truth(a, p, f):
    t = rewrite(a, f)
    if t.op == "bool":
        return t.a[0] == p
    q, r = lit(t)
    if q.op == "bool":
        return (q.a[0] == r) == p
    return None


def ext_list(E):
    """0..n extension tokens in order -> n or None"""
    if E.op == "list":
        for i, x in enumerate(E.a):
            if not (x.op == "agg" and x.a[1] == "Ext" and field(x, "0") is I(i)):
                return None
        return I(len(E.a))
    if E.op == "build":
        h, init, trips, cases = E.a
        bv = raw("bv", h)
        if init is EMPTY and len(trips) == 1 and len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1:
            x = cases[0][1][0]
            if x.op == "agg" and x.a[1] == "Ext" and field(x, "0") in (bv, raw("trunc", "u8", bv)):
                return trips[0]
    return None


def check(ctx):
    wr = ctx.role("TokenSet::to_json", SIG)
    rd = ctx.role("TokenSet::from_json", RSIG)
    dec, enc, encb = c05.decoder(ctx), c05.encoder(ctx), c05.bytes_encoder(ctx)
    names = {"TokenType": serde_names(ctx, "TokenType"), "Processing": serde_names(ctx, "Processing")}
    ww, rw = ctx.where_fn(wr), ctx.where_fn(rd)
    ws, _ = ctx.run(wr, (enc, encb))
    rs, _ = ctx.run(rd, (dec,))
    ctx.floor("ways to write a set", len(ws), 1)
    ctx.floor("ways to read a set", len(rs), 8)
    me = sym("arg", 0)
    toks, seqs = field(me, "tokens"), field(me, "sequences")
    types = {field(me, "split_paragraphs"): "Bool", field(me, "n_ext_tokens"): "Number"}
    f = Compose(ctx, names, types, dec, enc, encb)
    J = raw("doc")
    rs = [(p, {me: J}) for p in rs]
    nwithout = 0
    full = []
    combos = 0
    for wp in ws:
        has_seq = f.has(wp.val, S("sequences"))
        for ty in variants(ctx, "TokenType"):
            for pr in variants(ctx, "Processing"):
                tt = agg_like(ctx, "TokenType", ty)
                pt = agg_like(ctx, "Processing", pr)
                env = {field(me, "token_type"): tt, field(me, "processing"): pt}
                if any(rewrite(subst(a, env), f) is B(not p) for a, p in wp.conds):
                    continue
                W = rewrite(subst(wp.val, env), f)
                what = "%s %s" % (ty, pr)
                matched = 0
                for rp, V, facts in accepted(rs, me, W, f):
                    matched += 1
                    combos += 1
                    one(ctx, f, rd, rw, wp, rp, W, V, facts, tt, pt, env, me, what)
                ctx.ob("reads", what, matched >= 1, rw, "a saved set of type %s is not read back: no reader path accepts what is written "
                       "(written as %s / %s)" % (what, names["TokenType"].get(ty), names["Processing"].get(pr)), rd)
    ctx.floor("combinations of what is written and how it is read", combos, 10)
    older(ctx, f, rd, rw, ws, rs, me)
    # tokens are written and read exactly
    c05.check(ctx)
    # every sequence is written
    seqcase = []
    for wp in ws:
        v = f.has(wp.val, S("sequences"))
        if isinstance(v, T):
            seqcase.append((wp, v))
    ctx.floor("paths that write sequences", len(seqcase), 1)
    arrs = set()
    for wp, v in seqcase:
        b = v.a[1] if v.op == "app" and v.a[0] == "json" else v
        arrs.add(b)
        if not ctx.ob("sequences", "written list", b.op == "build" and b.a[1] is EMPTY and list(b.a[2]) == [length(seqs)], ww,
                      "what is written as sequences is %s" % show(b), wr):
            continue
        bv = raw("bv", b.a[0])
        s = idx(seqs, bv)
        n = length(field(s, "tokens"))
        okc = {lit(pos(sub(n, ONE))), lit(pos(n))}
        for conds, els in b.a[3]:
            ctx.ob("sequences", "all written", all((a, p) in okc for a, p in conds) and len(els) == 1, ww,
                   "only sequences with %s are written" % showlits(conds), wr)
    for wp in ws:
        if f.has(wp.val, S("sequences")) is None:
            ctx.ob("sequences", "left out only when there are none",
                   any((pos(length(b)), False) in wp.conds or lit(neg(pos(length(b)))) in wp.conds for b in arrs), ww,
                   "sequences are left out when %s" % showlits(wp.conds), wr)
    # the file is read as a whole through the reader
    for n, fd in list(ctx._names.items()):
        if fd.d["sig"].endswith("-> tokenset::TokenSet") and fd.d["sig"].startswith("fn(&str)"):
            ps, _ = ctx.run(n, (rd,))
            for p in ps:
                js = payload(p.val.a[1], "Ok") if False else p.val
                ok = js.op == "call" and js.a[0] == rd and js.a[1].op == "payload" and js.a[1].a[0].op == "ev" and js.a[1].a[0].a[0] == "json_from"
                ctx.ob("reads", "whole file", ok, ctx.where_fn(n), "a token set file is loaded as %s" % show(p.val), n)


def accepted(rs, me, W, f):
    """the reader's paths that the document W can take: (path, what is read, conditions left open)"""
    for rp, _ in rs:
        bad = False
        facts = []
        for a, p in rp.conds:
            r = truth(subst(a, {me: W}), p, f)
            if r is False:
                bad = True
                break
            if r is None:
                facts.append((rewrite(subst(a, {me: W}), f), p))
        if not bad:
            yield rp, rewrite(subst(rp.val, {me: W}), f), facts


def older(ctx, f, rd, rw, ws, rs, me):
    """files of the older format: other names of types, no paragraph flag"""
    J = lambda x: app("json", x)
    for wp in ws:
        env = {field(me, "token_type"): agg_like(ctx, "TokenType", "Bytes"), field(me, "processing"): agg_like(ctx, "Processing", "Raw")}
        if any(rewrite(subst(a, env), f) is B(not p) for a, p in wp.conds):
            continue
        W = rewrite(subst(wp.val, env), f)
        docs = [("all_tokens", "Bytes", raw("store", W, S("type"), J(S("all_tokens"))))]
        for k, ty in ((1, "Bits1"), (2, "Bits2"), (4, "Bits4")):
            docs.append(("fallback_bits %d" % k, ty, raw("store", raw("store", W, S("type"), J(S("fallback_bits"))), S("fallback_bits"), J(I(k)))))
        for what, ty, D in docs:
            n = 0
            for rp, V, facts in accepted(rs, me, D, f):
                n += 1
                if V.op != "agg" or any(contains(a, lambda z: z.op == "app" and z.a[0] == "json" and z.a[1].op == "int") for a, _ in facts):
                    continue
                ctx.ob("older", what, field(V, "token_type") is agg_like(ctx, "TokenType", ty), rw,
                       "a set of type %s is read as %s" % (what, show(field(V, "token_type"))), rd)
            ctx.ob("older", "readable", n >= 1, rw, "a set of type %s is not read" % what, rd)
    # without the flag of paragraphs no set, of whatever type and processing, is split
    n = 0
    for ty in variants(ctx, "TokenType"):
        for pr in variants(ctx, "Processing"):
            env = {field(me, "token_type"): agg_like(ctx, "TokenType", ty), field(me, "processing"): agg_like(ctx, "Processing", pr)}
            for wp in ws:
                if any(rewrite(subst(a, env), f) is B(not p) for a, p in wp.conds):
                    continue
                W = rewrite(subst(wp.val, env), f)
                D = raw("store", W, S("split_paragraphs"), ABSENT)
                for rp, V, facts in accepted(rs, me, D, f):
                    n += 1
                    v = rewrite(subst(field(V, "split_paragraphs"), env), f)
                    ctx.ob("older", "no flag", v is FALSE, rw,
                           "without the flag, split_paragraphs of a set of type %s is read as %s" % (ty, show(v)), rd)
    ctx.ob("older", "readable", n >= 1, rw, "a set without the paragraph flag is not read", rd)


def agg_like(ctx, ty, var):
    for k in ctx.prog.adts:
        if k.split("::")[-1] == ty:
            key = "::".join(k.split("::")[-2:])
            return agg(adt_path(ctx, ty), var, (), ())


def adt_path(ctx, ty):
    for k, a in ctx.prog.adts.items():
        if k.split("::")[-1] == ty:
            return a.get("path", k)


def one(ctx, f, rd, rw, wp, rp, W, V, facts, tt, pt, env, me, what):
    toks, seqs = field(me, "tokens"), field(me, "sequences")
    if not ctx.ob("reads", "result", V.op == "agg" and V.a[0].endswith("TokenSet"), rw, "reading gives %s" % show(V), rd):
        return
    ctx.ob("field", "token_type", field(V, "token_type") is tt, rw,
           "a set saved as %s is read back with type %s" % (what, show(field(V, "token_type"))), rd)
    ctx.ob("field", "processing", field(V, "processing") is pt, rw,
           "a set saved as %s is read back with processing %s" % (what, show(field(V, "processing"))), rd)
    sp = field(me, "split_paragraphs")
    x = field(V, "split_paragraphs")
    ok = x is sp or x.op == "bool" and (lit(sp)[0], x.a[0]) in [(a, p) for a, p in facts]
    ctx.ob("field", "split_paragraphs", ok, rw, "split_paragraphs is read back as %s" % show(x), rd)
    # tokens
    tk = field(V, "tokens")
    E, R = (tk.a[0], tk.a[1]) if tk.op == "cat" and len(tk.a) == 2 else (None, None)
    if E is None and tk.op == "build" and tk.a[1] is EMPTY:
        E, R = EMPTY, tk
    n = ext_list(E) if E is not None else None
    good = False
    if R is not None and R.op == "build" and R.a[1] is EMPTY and list(R.a[2]) == [length(toks)]:
        t = idx(toks, raw("bv", R.a[0]))
        got = agg("tokenset::Token", "Str", ("0",), (payload(t, "Str"),))
        sets = []
        good = True
        for conds, els in R.a[3]:
            if len(els) != 1 or not (els[0].op == "agg" and els[0].a[1] == "Str" and field(els[0], "0") is payload(t, "Str") or els[0] is t):
                good = False
            sets.append(conds)
        # exactly the string tokens
        good = good and len(sets) == 1 and set(sets[0]) == {lit(neg(is_variant(t, "Ext")))}
    ctx.ob("field", "tokens", n is not None and good, rw,
           "the tokens read back are %s, not the extension tokens followed by the string tokens written" % show(tk), rd)
    if n is not None:
        same = {}
        for a, p in rp.asserts:
            t = rewrite(subst(a, {me: W}), f)
            if t.op == "bool":
                ctx.ob("reads", "accepted", t.a[0] == p, rw, "reading a set saved as %s fails: %s" % (what, showlits([(a, p)])), rd)
                continue
            k = counted(t, p)
            if k is not None and isint(n):
                same[k[0]] = I(k[1])
                ctx.ob("reads", "number of extension tokens", k[1] == n.a[0], rw,
                       "reading a set of type %s demands %s extension tokens, it gets %s" % (what, k[1], n.a[0]), rd)
        x = field(V, "n_ext_tokens")
        ctx.ob("field", "n_ext_tokens", x is n or same.get(x) is n, rw, "n_ext_tokens is read back as %s" % show(x), rd)
        ty = tt.a[1]
        if isint(n):
            ctx.ob("field", "extension tokens", DIGITS.get(ty) == n.a[0], rw, "a set of type %s is read back with %s extension tokens" % (ty, n.a[0]), rd)
    # sequences
    if f.has(W, S("sequences")) is None:
        return
    sq = field(V, "sequences")
    ok = False
    if sq.op == "build" and sq.a[1] is EMPTY and len(sq.a[2]) == 1 and len(sq.a[3]) == 1 and not sq.a[3][0][0]:
        h = sq.a[0]
        L = sq.a[2][0]
        if L.op == "len" and (L.a[0] is seqs or L.a[0].op == "kept" and L.a[0].a[0] is seqs):
            s = idx(L.a[0], raw("bv", h))
            el = sq.a[3][0][1]
            if len(el) == 1 and el[0].op == "agg" and field(el[0], "string") is field(s, "string"):
                ts = field(el[0], "tokens")
                if ts.op == "build" and ts.a[1] is EMPTY and list(ts.a[2]) == [length(field(s, "tokens"))] and len(ts.a[3]) == 1:
                    want = idx(toks, idx(field(s, "tokens"), raw("bv", ts.a[0])))
                    g = ts.a[3][0][1]
                    ok = len(g) == 1 and not ts.a[3][0][0] and position_of(f, g[0], tk, want)
    ctx.ob("field", "sequences", ok, rw, "the sequences read back are %s, not those written" % show(sq), rd)


def counted(t, p):
    """'a count is k' -> (the count, k)"""
    if t.op == "eq0" and p:
        c, d = lin_parts(t.a[0])
        if len(d) == 1 and list(d)[0].op == "sum" and abs(list(d.values())[0]) == 1:
            return list(d)[0], -c * list(d.values())[0]
    if t.op == "pos" and not p and t.a[0].op == "sum":
        return t.a[0], 0
    return None


def position_of(f, t, seq, want):
    """is t the index of the first element of seq equal to want"""
    if t.op == "brk" and t.a[0].op == "fold":
        fold = t.a[0]
        ex = [x for x in walk(fold) if x.op == "eq"]
        return list(fold.a[1]) == [rewrite(length(seq), f)] and len(ex) == 1 and list(fold.a[4]) == [(ex[0], True)] and \
            set(ex[0].a) == {want, rewrite(idx(seq, raw("bv", fold.a[0])), f)} and t.a[1] == "pos"
    return False
