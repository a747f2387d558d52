"""C05 token values are decoded exactly or rejected"""
from ctx import *

RULE = ("summary of the decoder and the encoder of a token: on every normal path the decoded token is the value's own string bytes, "
        "its own bytes element by element, or its own number, every narrowing to a byte being range-checked; "
        "the encoder writes the token's own number, its bytes, or its bytes as a string only when they are valid UTF-8")

DEC_SIG = "fn(&serde_json::Value) -> tokenset::Token"
ENC_SIG = "fn(&tokenset::Token) -> serde_json::Value"
BYTES_SIG = "fn(&[u8]) -> serde_json::Value"


def decoder(ctx):
    return ctx.role("parse_token", DEC_SIG)


def encoder(ctx):
    return ctx.role("Token::to_json", ENC_SIG)


def bytes_encoder(ctx):
    return ctx.role("bytes_to_json", BYTES_SIG)


def exact_u8(t, facts):
    """t is an exact (checked) conversion of an integer to a byte -> the integer"""
    if t.op == "payload" and t.a[1] == "Ok" and t.a[0].op == "tryconv":
        return t.a[0].a[1] if t.a[0].a[0] == "u8" else None
    if t.op != "trunc":
        return None
    n = t.a[1]
    st = State()
    for a, p in facts:
        st.learn(a, p)
    lo, hi = st.bounds(n)[:2]
    unsigned = n.op == "payload" and n.a[0].op == "numopt" and n.a[0].a[0] == "as_u64"
    if hi is not None and hi <= 255 and (unsigned or lo is not None and lo >= 0):
        return n
    return None


def number_of(t, v, facts):
    """is t exactly the number the json value v holds"""
    n = exact_u8(t, facts)
    return n is not None and n.op == "payload" and n.a[1] == "Some" and n.a[0].op == "numopt" and \
        n.a[0].a[0] in ("as_i64", "as_u64") and n.a[0].a[1] is v


def loop_facts(p, t):
    for l in loops_of(p.events):
        for ph, v in l.final.items():
            if v is t:
                return l
    return None


def bytes_of(p, t, v):
    """is t the list of bytes the json array v holds"""
    arr = payload(v, "Array")
    if t.op != "build":
        return False
    h, init, trips, cases = t.a
    if init is not EMPTY or list(trips) != [length(arr)] or not exhaustive([dict_items(c[0]) for c in cases]):
        return False
    L = loop_facts(p, t)
    bv = raw("bv", h)
    for conds, vals in cases:
        facts = set(dict_items(conds))
        if L is not None:
            for q in L.paths:
                if q.kind == "cont":
                    for a, pol in list(q.asserts):
                        facts.add((subst(a, {L.iota: bv}), pol))
        if len(vals) != 1 or not number_of(vals[0], idx(arr, bv), facts):
            return False
    return True


def dict_items(c):
    return [(a, p) for a, p in c]


def check(ctx):
    fn = decoder(ctx)
    ps, _ = ctx.run(fn)
    v = sym("arg", 0)
    w = ctx.where_fn(fn)
    kinds = set()
    for p in ps:
        facts = list(p.conds) + list(p.asserts)
        t = p.val
        if not ctx.ob("decode", "result", t.op == "agg" and t.a[0].endswith("Token"), w, "the decoded token is %s" % show(t), fn):
            continue
        x = field(t, "0")
        if t.a[1] == "Ext":
            kinds.add("number")
            ctx.ob("decode", "number", number_of(x, v, facts), w,
                   "an extension token becomes %s, not exactly the number read" % show(x), fn)
        else:
            if x is payload(v, "String"):
                kinds.add("string")
                ctx.ob("decode", "string", (is_variant(v, "String"), True) in facts, w, "a non-string is decoded as one", fn)
            else:
                ok = bytes_of(p, x, v)
                kinds.add("list")
                ctx.ob("decode", "bytes", ok, w, "a string token becomes %s, not exactly the bytes read" % show(x), fn)
    ctx.ob("decode", "kinds", kinds == {"number", "string", "list"}, w, "only %s are decoded" % sorted(kinds), fn)
    fn = encoder(ctx)
    ps, _ = ctx.run(fn)
    n = check_enc(ctx, ps, fn, True)
    fb = bytes_encoder(ctx)
    if ctx.has(fb):
        qs, _ = ctx.run(fb)
        n += check_enc(ctx, qs, fb, False)
    ctx.floor("encoder paths", n, 3)


def check_enc(ctx, ps, fn, token):
    v = sym("arg", 0)
    w = ctx.where_fn(fn)
    n = 0
    for p in ps:
        n += 1
        t = p.val
        facts = set(p.conds) | set(p.asserts)
        if not ctx.ob("encode", "json", t.op == "app" and t.a[0] == "json", w, "a token is written as %s" % show(t), fn):
            continue
        x = t.a[1]
        b = payload(v, "Str") if token else v
        good = False
        if token and lit(is_variant(v, "Ext")) in facts:
            good = x is payload(v, "Ext")
        else:
            good = x is b or is_utf8_of(x, b)
        ctx.ob("encode", "value", good, w, "a token is written as %s" % show(x), fn)
    return n


def is_utf8_of(x, b):
    return x.op == "payload" and x.a[1] == "Ok" and x.a[0].op == "app" and x.a[0].a[0] == "from_utf8" and x.a[0].a[1] is b
