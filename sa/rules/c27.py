"""C27 data is tokenised in the form the token set expects"""
from commands import *

RULE = ("on every path of optimize and convert: each source of samples reads the raw file if the processing mode is raw, else the user's processed file, else the "
        "temporary file that process_file filled from the raw file; the recorded initial size is the length of the raw file; a starting token set is used only on "
        "paths that compared its processing mode with the requested one; inside the optimiser new token sets get the requested mode and keep it")
TECHNIQUE = "value provenance over command summaries (abstract interpretation of MIR with value numbering)"


def check(ctx):
    cmds, nm = commands(ctx)
    n = 0
    for v in ("Optimize", "ConvertTokens"):
        for P in cmds.get(v, []):
            n += 1
            source(ctx, P, nm)
            size(ctx, P, nm)
            starting(ctx, P, nm)
    ctx.floor("paths of optimize and convert", n, 6)
    inside(ctx)
    kept(ctx)


def input_set(P, nm):
    """the token set read from the file named on the command line (the value of the parser)"""
    f = P.opt("input_tokens")
    if P.variant == "Optimize":
        f = payload(f, "Some")
    for e, _ in flat_events(P.events):
        if e.name == nm["TokenSet::from_json"] and reads(e.args[0], f):
            return e.res
    return None


def reads(t, f):
    """JSON read from the file named f"""
    return contains(t, lambda x: x.op == "ev" and x.a[0] in ("fs::File::open", "fs::read", "fs::read_to_string") and x.a[1][0] is f)


def expected(ctx, P, nm):
    """the term for the name of the file that has to be tokenised"""
    w = ctx.where_fn("main")
    if P.variant == "Optimize":
        mode = P.opt("processing")
    else:
        ts = input_set(P, nm)
        if not ctx.ob("data", "token set", ts is not None, w, "the token set to convert is not read from the input tokens file", P.variant):
            return None
        mode = field(ts, "processing")
    given = P.opt("processed_data")
    if lit(is_variant(mode, "Raw")) in P.facts:
        return lambda t: t is P.opt("data")
    if not ctx.ob("data", "mode", lit(neg(is_variant(mode, "Raw"))) in P.facts, w,
                  "the file to tokenise does not depend on the processing mode on the path %s" % P.label(), P.variant):
        return None
    if lit(is_variant(given, "Some")) in P.facts:
        return lambda t: t is payload(given, "Some")
    if not ctx.ob("data", "given", lit(neg(is_variant(given, "Some"))) in P.facts, w,
                  "the file to tokenise does not depend on whether a processed file was given on the path %s" % P.label(), P.variant):
        return None

    def fresh(t):
        x = temp_name(t)
        if x is None:
            return False
        if not (x.op == "mutout" and x.a[0] == nm["process_file"] and x.a[1] == 1):
            return False
        src = stream_root(x.a[2])
        return is_open(src, P.opt("data")) and is_temp(stream_root(x.a[3]).a[0] if stream_root(x.a[3]).op == "payload" else stream_root(x.a[3]))
    return fresh


def temp_name(t):
    """the temporary file a path belongs to"""
    if t.op == "app" and t.a[0] == "temppath":
        return t.a[1]
    if t.op == "ev" and str(t.a[0]).endswith("::into_temp_path"):
        return t.a[1][0]
    return None


def is_open(t, name):
    if t.op == "payload" and t.a[1] in ("Ok", "Some"):
        t = t.a[0]
    return t.op == "ev" and t.a[0] == "fs::File::open" and t.a[1][0] is name


def sampler_files(t, nm):
    """names of the files a source of samples reads"""
    if t.op == "call" and t.a[0] in (nm["MemorySampler::from_file"], nm["MemorySampler::sample_from_file"], nm["FileSampler::new"]):
        return [t.a[1]]
    out = []
    if t.op == "agg":
        for x in walk(t):
            if x.op == "ev" and x.a[0] in ("fs::read", "fs::File::open", "fs::read_to_string"):
                out.append(x.a[1][0])
        if not out:
            out = [x for x in t.a[3:] if isinstance(x, T) and (x.op in ("payload", "field", "sym") or temp_name(x) is not None)]
    return out


def source(ctx, P, nm):
    good = expected(ctx, P, nm)
    if good is None:
        return
    n = 0
    for e, inits in with_roots(P.events):
        if e.name in (nm["tokenize_file"], nm["optimize_tokenset"]):
            n += 1
            s = e.args[1]
            fs = sampler_files(s, nm)
            ctx.ob("data", "file", bool(fs) and all(good(f) for f in fs), e.span,
                   "%s works on %s (%s)" % (e.name, ", ".join(show(f)[:120] for f in fs) or show(s)[:120], P.label()), P.variant)
    ctx.ob("data", "tokenised", n >= 1, ctx.where_fn("main"), "nothing is tokenised on the path %s" % P.label(), P.variant)


def size(ctx, P, nm):
    for e, _ in flat_events(P.events):
        if e.name in (nm["tokenize_file"], nm["optimize_tokenset"]):
            a = e.args[2 if e.name == nm["tokenize_file"] else 4]
            ok = a.op == "agg" and a.a[1] == "Some" and raw_length(a.a[3], P.opt("data"))
            ctx.ob("size", "raw file", ok, e.span, "the initial size given to %s is %s instead of the length of the raw file" % (e.name, show(a)[:200]), P.variant)


def raw_length(t, name):
    if t.op == "app" and t.a[0] == "filelen":
        x = t.a[1]
        if x.op == "payload" and x.a[1] == "Ok":
            x = x.a[0]
        return x.op == "ev" and x.a[0] in ("fs::metadata", "fs::File::metadata") and (x.a[1][0] is name or contains(x.a[1][0], lambda y: is_open(y, name)))
    return False


def starting(ctx, P, nm):
    """a starting token set is used only if it has the requested mode"""
    if P.variant != "Optimize":
        return
    ts = input_set(P, nm)
    used = [e for e, _ in flat_events(P.events) if e.name == nm["TokenSet::from_json"]]
    if ts is None:
        ctx.ob("starting", "set", not used, used[0].span if used else None, "a token set is read from an unexpected file", P.variant)
        return
    want, have = P.opt("processing"), field(ts, "processing")
    same = [eq(want, have), eq(have, want)]
    ok = any(lit(s) in P.facts for s in same)
    if not ok:
        for v in ("Raw", "CapsWords"):
            ok = ok or lit(is_variant(want, v)) in P.facts and lit(is_variant(have, v)) in P.facts
    ctx.ob("starting", "same mode", ok, ctx.where_fn("main"), "a starting token set is used without comparing its processing mode with the requested one (%s)" % P.label(), P.variant)


NEW = ("TokenSet::new_bits1", "TokenSet::new_bits2", "TokenSet::new_bits4", "TokenSet::new_bytes")


def inside(ctx):
    """the optimiser: same data, same size, requested mode for new sets"""
    ps, n, nm = optimizer(ctx)
    k = 0
    want = sym("arg", 2)
    for p in ps:
        for e, _ in flat_events(p.events):
            for new in NEW:
                if e.name == nm[new]:
                    k += 1
                    ctx.ob("optimizer", "mode of new sets", any(a is want for a in e.args), e.span, "a new token set does not get the requested processing mode but %s" % ", ".join(show(a)[:80] for a in e.args), n)
    ctx.floor("new token sets in the optimiser", k, 2)
    # the cache tokenises the optimiser's own data and records its initial size
    caches = set()
    for p in ps:
        for e, _ in flat_events(p.events):
            for a in e.args:
                for x in walk(a):
                    if x.op == "agg" and "TokenizerCache" in str(x.a[0]):
                        caches.add(x)
    ctx.floor("tokenisation caches", len(caches), 1)
    for c in caches:
        vals = c.a[3:]
        ctx.ob("optimizer", "data of the cache", any(v is sym("arg", 1) for v in vals), ctx.where_fn(n), "the cache does not tokenise the data given to the optimiser: %s" % show(c)[:200], n)
        ctx.ob("optimizer", "size in the cache", any(v is sym("arg", 4) for v in vals), ctx.where_fn(n), "the cache does not record the initial size given to the optimiser: %s" % show(c)[:200], n)


def kept(ctx):
    """constructors store the mode they are given; no method changes it"""
    for new in NEW:
        ps, _ = ctx.run(ctx.role(new, ""))
        f = ctx.fn(new)
        for p in ps:
            got = field(p.val, "processing")
            i = [i for i, t in enumerate(f.d.get("argtys") or []) if t.endswith("Processing")] if f else []
            ctx.ob("mode", "constructor", got.op == "sym" and got.a[0] == "arg", ctx.where_fn(new), "%s stores the mode %s" % (new, show(got)[:100]), new)
    n = 0
    fs = ctx.engine().names
    for name, f in sorted(fs.items()):
        sig = f.d["sig"]
        if sig.startswith("fn(&mut tokenset::TokenSet"):
            n += 1
            ps, _ = ctx.run(name)
            for p in ps:
                new = p.upd.get(("P", 0))
                if new is None:
                    continue
                got = field(new, "processing")
                ctx.ob("mode", "kept", got is field(sym("arg", 0), "processing") or got.op == "field" and got.a[1] == "processing" and got.a[0].op in ("sym", "init"), ctx.where_fn(name),
                       "%s changes the processing mode to %s" % (name, show(got)[:100]), name)
    ctx.floor("methods that change token sets", n, 2)
