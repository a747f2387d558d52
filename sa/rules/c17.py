"""C17 bit-fallback encodings are exact and unambiguous"""
from ctx import *

RULE = ("constant evaluation of the constructors' summaries: for a set of type bitsK every byte value 0..255 has exactly one "
        "fallback sequence, its string is that one byte, and its token numbers name, in order, the extension tokens equal to the "
        "byte's K-bit digits, most significant first; the extension tokens are numbered by their values")

SIG = "fn(processing::Processing, bool) -> tokenset::TokenSet"
BITS = {"Bits1": 1, "Bits2": 2, "Bits4": 4}


def const_fold(x):
    if x.op == "trunc" and x.a[1].op == "int":
        n = x.a[1].a[0]
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(x.a[0])
        if bits:
            return I(n & ((1 << bits) - 1))
    return None


def const(t):
    return rewrite(t, const_fold)


def check(ctx):
    ctx.fn("")
    cands = [n for n, f in ctx._names.items() if f.d["sig"] == SIG]
    kinds = {}
    for fn in cands:
        ps, _ = ctx.run(fn)
        w = ctx.where_fn(fn)
        for p in ps:
            t = p.val
            if t.op != "agg" or not t.a[0].endswith("TokenSet"):
                ctx.ob("set", "value", False, w, "the constructor returns %s" % show(t)[:200], fn)
                continue
            ty = field(t, "token_type")
            v = ty.a[1] if ty.op == "agg" else None
            if v not in BITS:
                continue
            kinds[v] = kinds.get(v, 0) + 1
            one_set(ctx, fn, w, v, t)
    for v in BITS:
        ctx.ob("constructor", v, kinds.get(v, 0) >= 1, None, "no constructor builds a %s set" % v)


def one_set(ctx, fn, w, v, t):
    k = BITS[v]
    n = 1 << k
    toks, seqs = field(t, "tokens"), field(t, "sequences")
    ctx.ob("ext tokens", "count", const(field(t, "n_ext_tokens")) is I(n), w,
           "the set is said to have %s extension tokens instead of %d" % (show(field(t, "n_ext_tokens")), n), fn)
    cnt = const(length(seqs))
    if not ctx.ob("bytes", "count", cnt is I(256), w, "there are %s fallback sequences, not one per byte" % show(cnt), fn):
        return
    seen = set()
    for c in range(256):
        s = const(idx(seqs, I(c)))
        st, tk = const(field(s, "string")), const(field(s, "tokens"))
        m = length(st)
        b = const(idx(st, ZERO)) if m is ONE else None
        if b is None or b.op != "int":
            ctx.ob("bytes", "string", False, w, "the string of sequence %d is %s, not one byte" % (c, show(st)[:100]), fn)
            return
        b = b.a[0]
        if not ctx.ob("bytes", "each once", b not in seen and 0 <= b < 256, w, "byte %d has two sequences" % b, fn):
            return
        seen.add(b)
        want = [(b >> (8 - k * (i + 1))) & (n - 1) for i in range(8 // k)]
        got = []
        l = const(length(tk))
        if l.op == "int":
            for i in range(l.a[0]):
                tok = const(idx(toks, const(idx(tk, I(i)))))
                d = const(payload(tok, "Ext")) if tok.op == "agg" and tok.a[1] == "Ext" else tok
                got.append(d.a[0] if d.op == "int" else show(d))
        if not ctx.ob("digits", v, got == want, w, "byte %d is spelled by the extension tokens %s instead of %s" % (b, got, want), fn):
            return
