"""C19 each byte keeps exactly one representation"""
from ctx import *
from crate import Crate

RULE = ("summary of the token-adding method: the sequences kept are exactly those, in order, whose string differs from the new "
        "token's, all old tokens stay in place and the new one is appended under the number returned, and an empty string is refused; "
        "the every-byte constructor has all 256 one-byte tokens; no other function changes a set's tokens or sequences in place")

ADD = "TokenSet::add_token"
ADD_SIG = "fn(&mut tokenset::TokenSet, &[u8]) -> usize"
# functions whose in-place changes are decided by C04 (reading a file), C18 (moving tokens) and C19
JUDGED = ("TokenSet::from_json", "TokenSet::add_sequence", "TokenSet::remove_token", "TokenSet::sort", "TokenSet::new")


def check(ctx):
    fn = ctx.role(ADD, ADD_SIG)
    ps, _ = ctx.run(fn)
    w = ctx.where_fn(fn)
    a, s = sym("arg", 0), sym("arg", 1)
    n = 0
    for p in ps:
        n += 1
        facts = set(p.conds) | set(p.asserts)
        ctx.ob("add", "refuses empty", lit(pos(length(s))) in facts, w, "a token with an empty string is accepted", fn)
        r = p.upd.get(("P", 0), a)
        toks = field(r, "tokens")
        new = agg_token(ctx, s)
        ctx.ob("add", "token", toks is push(field(a, "tokens"), new), w,
               "afterwards the tokens are %s, not the old ones and the new one" % show(toks)[:200], fn)
        ctx.ob("add", "number", p.val is length(field(a, "tokens")), w, "the number returned is %s" % show(p.val)[:100], fn)
        seqs = field(r, "sequences")
        ctx.ob("add", "sequences", only_dropped(seqs, field(a, "sequences"), s, facts), w,
               "afterwards the sequences are %s, not the old ones without the new token's string" % show(seqs)[:300], fn)
        rest = [f for f, _ in ctx.fields("TokenSet") if f not in ("tokens", "sequences")]
        for f in rest:
            ctx.ob("add", "keeps", field(r, f) is field(a, f), w, "adding a token changes %s" % f, fn)
    ctx.floor("ways through the token-adding method", n, 1)
    fn2 = ctx.role("TokenSet::new_bytes", "fn(processing::Processing) -> tokenset::TokenSet")
    qs, _ = ctx.run(fn2)
    from rules.c17 import const
    for q in qs:
        toks = field(q.val, "tokens")
        m = const(length(toks))
        bs = set()
        if m.op == "int" and m.a[0] <= 4096:
            for i in range(m.a[0]):
                t = const(idx(toks, I(i)))
                b = const(payload(t, "Str")) if t.op == "agg" and t.a[1] == "Str" else None
                if b is not None and length(b) is ONE:
                    x = const(idx(b, ZERO))
                    if x.op == "int":
                        bs.add(x.a[0])
        ctx.ob("bytes", "all 256", len(bs) == 256 and m is I(256), ctx.where_fn(fn2),
               "a set with a token per byte has %s tokens covering %d bytes" % (show(m), len(bs)), fn2)
        ctx.ob("bytes", "no sequences", length(field(q.val, "sequences")) is ZERO, ctx.where_fn(fn2),
               "a byte with its own token also has a sequence", fn2)
    mutations(ctx, fn)


def agg_token(ctx, s):
    a = ctx.adt("Token")
    return agg(a["path"], "Str", ("0",), [s]) if a else s


def only_dropped(seqs, old, s, facts):
    if seqs.op == "build":
        h, init, trips, cases = seqs.a
        bv = raw("bv", h)
        el = idx(old, bv)
        want = frozenset([lit_neg(eq(s, field(el, "string")))])
        return init is EMPTY and list(trips) == [length(old)] and len(cases) == 1 and \
            frozenset(cases[0][0]) == want and list(cases[0][1]) == [el]
    # the position of the one to drop, or none at all
    return False


def lit_neg(t):
    a, p = lit(t)
    return a, not p


def mutations(ctx, add):
    c = Crate(ctx)
    key = lambda n: ctx.fn(n).d["key"] if ctx.has(n) else None
    allowed = {key(n) for n in JUDGED + (add,)} - {None}
    n = 0
    live = c.live()
    for k, f, sp in c.field_writes("TokenSet", ("tokens", "sequences")):
        if k not in live:
            continue
        n += 1
        ctx.ob("writer", c.name_of.get(k, k) + " " + f, c.only_from(k, allowed), sp,
               "the %s of a token set are changed in place outside the methods that keep the representation unique" % f,
               c.name_of.get(k, k))
    ctx.floor("in-place changes of tokens or sequences", n, 3)
