"""C13 cached statistics are those of the token set asked for"""
from commands import *
import c04
import c05

RULE = ("every method of the cache: what it returns is tokenize_file of the requested set on the cache's own data and initial size, or the entry under the key computed from "
        "the requested set; every entry is stored under the key of the very set it was measured with, all counters unchanged; nothing else of the cache changes; "
        "the key is the JSON text of the set, and that document records type, processing, paragraph flag, every token and every sequence")
TECHNIQUE = "function summaries of the cache's methods (abstract interpretation of MIR with value numbering), injectivity of the key by the shape of the document"

MAY_DIFFER = ("pair_counts",)


def check(ctx):
    nm = names(ctx, LEVEL2)
    t = nm["tokenize_file"]
    wr, srt = nm["TokenSet::to_json"], nm["TokenSet::sort"]
    fs = ctx.engine().names
    adt = ctx.adt("TokenizerCache")
    if not adt:
        return
    mod = adt["span"][0] if adt.get("span") else None
    methods = [n for n, f in fs.items() if re.search(r"&mut [\w:]*TokenizerCache", f.d["sig"]) and f.d["span"][0] == mod]
    ctx.floor("methods of the cache", len(methods), 2)
    keys = []
    stores = 0
    hits = 0
    for n in sorted(methods):
        ps, _ = ctx.run(n, tuple(sorted({t, wr, srt})))
        f = fs[n]
        me = sym("arg", 0)
        args = [sym("arg", i) for i in range(f.d["argc"])]
        asked = [a for i, a in enumerate(args) if i and "TokenSet" in sig_args(f)[i]]
        w = ctx.where_fn(n)
        for p in ps:
            V = p.val
            if "TokenStats" in f.d["sig"].split("->")[-1]:
                if not ctx.ob("lookup", "request", len(asked) == 1, w, "%s is asked for %d token sets" % (n, len(asked)), n):
                    continue
                got = measured(ctx, V, t, me)
                if got is not None:
                    ctx.ob("lookup", "set", norm(got, srt) is asked[0], w, "%s tokenises %s" % (n, show(got)[:160]), n)
                else:
                    k = entry(V, me)
                    hits += k is not None
                    X = key_set(ctx, k, wr) if k is not None else None
                    keys.append((k, n))
                    ctx.ob("lookup", "hit", X is not None and norm(X, srt) is asked[0], w, "%s returns %s" % (n, show(V)[:240]), n)
            u = p.upd.get(("P", 0))
            if u is None or u is me:
                continue
            for g, ty in ctx.fields("TokenizerCache"):
                if g != "cache" and not re.search(r"HashMap|BTreeMap", ty):
                    ctx.ob("cache", "kept", field(u, g) is field(me, g), w, "%s changes %s of the cache" % (n, g), n)
                    continue
                m, base = field(u, g), field(me, g)
                while m.op == "app" and m.a[0] == "minsert":
                    stores += 1
                    k, v = m.a[2], m.a[3]
                    X = measured(ctx, v, t, me)
                    K = key_set(ctx, k, wr)
                    keys.append((k, n))
                    ctx.ob("store", "statistics", X is not None, w, "what %s stores is not the result of a tokenisation: %s" % (n, show(v)[:240]), n)
                    ctx.ob("store", "key", K is not None and X is not None and same_set(K, X, srt), w, "%s stores the statistics of %s under the key of %s" % (n, show(X)[:120] if X is not None else "?", show(K if K is not None else k)[:120]), n)
                    m = m.a[1]
                ctx.ob("store", "nothing else", m is base or m.op == "app" and m.a[0] == "mremove" or m.op == "app" and m.a[0] == "newmap", w, "%s changes the cache to %s" % (n, show(m)[:200]), n)
    ctx.floor("entries stored", stores, 1)
    ctx.floor("lookups answered from the cache", hits, 1)
    made = [n for n, f in fs.items() if re.search(r"TokenizerCache<[^>]*>$", f.d["sig"].split("->")[-1].strip()) and "->" in f.d["sig"]]
    ctx.floor("constructors of the cache", len(made), 1)
    for n in made:
        ps, _ = ctx.run(n)
        for p in ps:
            for g, ty in ctx.fields("TokenizerCache"):
                if re.search(r"HashMap|BTreeMap", ty):
                    x = field(p.val, g)
                    ctx.ob("cache", "new", x.op == "app" and x.a[0] == "newmap", ctx.where_fn(n), "a new cache starts with %s" % show(x)[:120], n)
    injective(ctx)


def sig_args(f):
    s = f.d["sig"]
    s = s[s.index("(") + 1:]
    out, depth, cur = [], 0, ""
    for c in s:
        if c == ")" and depth == 0:
            break
        if c in "<([":
            depth += 1
        if c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out + [""] * 8


def norm(x, srt):
    """the set a sorted copy was made of"""
    while x.op == "mutout" and x.a[0] == srt:
        x = x.a[2]
    return x


def same_set(a, b, srt):
    return norm(a, srt) is norm(b, srt)


def measured(ctx, v, t, me):
    """token set whose tokenisation on the cache's data v is, counters unchanged (pair counts may be dropped)"""
    b = v
    while b.op == "with":
        if any(k not in MAY_DIFFER for k, _ in b.a[1]):
            return None
        b = b.a[0]
    if b.op == "agg" and str(b.a[0]).split("::")[-1] == "TokenStats":
        src = None
        for f, x in zip(b.a[2], b.a[3:]):
            if f in MAY_DIFFER:
                continue
            if not (x.op == "field" and x.a[1] == f):
                return None
            if src is not None and x.a[0] is not src:
                return None
            src = x.a[0]
        b = src
    if b is None or not (b.op == "call" and b.a[0] == t):
        return None
    if b.a[2] is not field(me, "sampler") or b.a[3] is not field(me, "initial_size"):
        return None
    return b.a[1]


def entry(v, me):
    """key of the cache entry that is returned unchanged"""
    if v.op == "payload" and v.a[1] == "Some" and v.a[0].op == "app" and v.a[0].a[0] == "mget" and v.a[0].a[1].op == "field" and v.a[0].a[1].a[0] is me:
        return v.a[0].a[2]
    return None


def key_set(ctx, k, wr):
    """the set whose JSON text a key is"""
    x = k
    if x.op == "payload" and x.a[1] == "Ok":
        x = x.a[0]
    j = None
    if x.op == "ev" and x.a[0] == "json_to_string":
        j = x.a[1][0]
    elif x.op == "app" and x.a[0] in ("tostring", "display", "json_text") and len(x.a) == 2:
        j = x.a[1]
    if j is not None and j.op == "call" and j.a[0] == wr:
        return j.a[1]
    return None


def injective(ctx):
    """the document of a token set differs for sets that differ"""
    wr = ctx.role("TokenSet::to_json", c04.SIG)
    enc, encb = c05.encoder(ctx), c05.bytes_encoder(ctx)
    nmap = {"TokenType": c04.serde_names(ctx, "TokenType"), "Processing": c04.serde_names(ctx, "Processing")}
    for ty, m in nmap.items():
        vs = c04.variants(ctx, ty)
        ctx.ob("key", ty, len(set(m.values())) == len(vs) == len(m), None, "two variants of %s are spelled alike: %s" % (ty, m), wr)
    ws, _ = ctx.run(wr, (enc, encb))
    w = ctx.where_fn(wr)
    me = sym("arg", 0)
    ctx.floor("ways to write a set", len(ws), 1)
    f = c04.Compose(ctx, nmap, {}, None, enc, encb)
    arrs = set()
    for p in ws:
        d = document(p.val)
        if not ctx.ob("key", "document", d is not None, w, "the key is not a JSON object with known keys: %s" % show(p.val)[:200], wr):
            continue
        vals = {k: unjson(v) for k, v in d.items()}
        for g in ("token_type", "processing", "split_paragraphs"):
            ctx.ob("key", g, any(v is field(me, g) for v in vals.values()), w, "the key does not depend on %s" % g, wr)
        toks = field(me, "tokens")
        ok = False
        for v in vals.values():
            if v.op == "build" and v.a[1] is EMPTY and list(v.a[2]) == [length(toks)] and len(v.a[3]) == 1 and not v.a[3][0][0] and len(v.a[3][0][1]) == 1:
                e = unjson(v.a[3][0][1][0])
                ok = ok or e.op == "call" and e.a[0] == enc and e.a[1] is idx(toks, raw("bv", v.a[0]))
        ctx.ob("key", "tokens", ok, w, "the key does not list every token in order", wr)
        seqs = field(me, "sequences")
        have = None
        for v in vals.values():
            if v.op == "build" and v.a[1] is EMPTY and list(v.a[2]) == [length(seqs)]:
                have = v
                arrs.add(v)
                one_sequence(ctx, v, seqs, toks, enc, encb, w, wr)
        if have is None:
            none = [b for b in arrs_of(ctx, ws, seqs) if lit(neg(pos(length(b)))) in set(p.conds) | set(p.asserts)]
            none = none or lit(neg(pos(length(seqs)))) in set(p.conds) | set(p.asserts)
            ctx.ob("key", "sequences", bool(none), w, "the key leaves out sequences when %s" % showlits(p.conds)[:160], wr)
    ctx.floor("keys with sequences", len(arrs), 1)


def arrs_of(ctx, ws, seqs):
    out = []
    for p in ws:
        d = document(p.val) or {}
        for v in d.values():
            v = unjson(v)
            if v.op == "build" and v.a[1] is EMPTY and list(v.a[2]) == [length(seqs)]:
                out.append(v)
    return out


def one_sequence(ctx, b, seqs, toks, enc, encb, w, wr):
    bv = raw("bv", b.a[0])
    s = idx(seqs, bv)
    n = length(field(s, "tokens"))
    okc = {lit(pos(sub(n, ONE))), lit(pos(n))}
    for conds, els in b.a[3]:
        if not ctx.ob("key", "every sequence", all(c in okc for c in conds) and len(els) == 1, w, "the key records only sequences with %s" % showlits(conds)[:160], wr):
            continue
        d = document(els[0]) or {}
        vals = [unjson(v) for v in d.values()]
        ctx.ob("key", "string of a sequence", any(v.op == "call" and v.a[0] == encb and v.a[1] is field(s, "string") for v in vals), w, "the key does not record the strings of sequences", wr)
        ok = False
        for v in vals:
            if v.op == "build" and v.a[1] is EMPTY and list(v.a[2]) == [n] and len(v.a[3]) == 1 and not v.a[3][0][0] and len(v.a[3][0][1]) == 1:
                i = idx(field(s, "tokens"), raw("bv", v.a[0]))
                e = unjson(v.a[3][0][1][0])
                ok = ok or e is i or e.op == "call" and e.a[0] == enc and e.a[1] is idx(toks, i)
        ctx.ob("key", "tokens of a sequence", ok, w, "the key does not record the tokens of sequences", wr)


def unjson(v):
    while v.op == "app" and v.a[0] == "json":
        v = v.a[1]
    return v


def document(v):
    """JSON object -> {key: value} or None"""
    out = {}
    v = unjson(v)
    while v.op == "store":
        if v.a[1].op != "bytes":
            return None
        out.setdefault(v.a[1].a[0], v.a[2])
        v = v.a[0]
    if not (v.op == "app" and v.a[0] == "jobj"):
        return None
    m = v.a[1]
    while m.op == "app" and m.a[0] == "minsert":
        if m.a[2].op != "bytes":
            return None
        out.setdefault(m.a[2].a[0], m.a[3])
        m = m.a[1]
    return out if m.op == "app" and m.a[0] == "newmap" else None
