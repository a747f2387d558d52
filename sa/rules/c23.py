"""C23 samples partition the data"""
from ctx import *
import linear

RULE = ("for every iterator of samples: on each path that yields, the slice starts where the state says the previous one ended, is not "
        "empty and stays inside the data, and the new state is exactly its end (proved from the path's conditions with linear integer "
        "entailment); a path that stops implies that the end of the data was reached; the iterator starts at the beginning of the data")

ASSUMES = ["the chunk size is at least one", "start + chunk size does not overflow", "a file is not modified while it is read"]


def iterators(ctx):
    """(name of next, name of the iterator type)"""
    ctx.fn("")
    out = []
    for n, f in ctx._names.items():
        if f.d["name"] == "next" and f.d["sig"].split("->")[-1].strip().startswith("std::option::Option<") and "Sample<" in f.d["sig"].split("->")[-1]:
            out.append(n)
    return sorted(out)


def producers(ctx):
    """(function, path, iterator aggregate) of each Sampler::iter"""
    out = []
    for n, f in sorted(ctx._names.items()):
        if f.d["name"] == "iter" and n.endswith(" as Sampler>::iter"):
            ps, _ = ctx.run(n)
            out += [(n, p) for p in ps]
    return out


def bytes_of(v):
    """contents of a sample value"""
    return v.a[3] if v.op == "agg" and len(v.a) == 4 else None


def parts(t):
    """slice term -> (data, from, to)"""
    if t.op == "slice":
        d, lo, hi = t.a
        return d, lo, length(d) if hi is None else hi
    return t, ZERO, length(t)


def file_state(t, root):
    """file position of a state term relative to a state of the same file: (number of reads, [read size], seek offset or None)"""
    reads, off = [], None
    if t.op == "app" and t.a[0] == "seeked":
        off = t.a[2]
        t = t.a[1]
    while t.op == "app" and t.a[0] == "read.next":
        reads.append(t.a[2])
        t = t.a[1]
    return (reads[::-1], off) if t is root else None


def check(ctx):
    its = iterators(ctx)
    prods = producers(ctx)
    kinds = {}
    yields = 0
    for fn in its:
        tname = fn[1:].split(" as ")[0]
        mine = [(n, p) for n, p in prods if p.val.op == "agg" and p.val.a[0].split("::")[-1] == tname]
        if not ctx.ob("start", tname, mine, ctx.where_fn(fn), "no sampler starts a %s" % tname, fn):
            continue
        for pn, p in mine:
            k, y = one(ctx, fn, tname, pn, p)
            kinds.setdefault(k, set()).add(fn)
            yields += y
    for n, p in prods:
        ok = p.val.op == "agg" and any(p.val.a[0].split("::")[-1] == fn[1:].split(" as ")[0] for fn in its)
        ctx.ob("start", "known iterator", ok, ctx.where_fn(n), "%s returns %s, which is not one of the analysed iterators" % (n, show(p.val)[:100]), n)
    ctx.floor("iterators over data in memory", len(kinds.get("memory", ())), 1)
    ctx.floor("iterators over a file", len(kinds.get("file", ())), 1)
    ctx.floor("paths that yield a sample", yields, 2)


def restricted(p):
    """the path of Sampler::iter is for a limited number of samples"""
    return any(a.op == "is" and a.a[1] == "Some" and pl or a.op == "is" and a.a[1] == "None" and not pl
               for a, pl in p.conds if a.a[0].op == "field")


def one(ctx, fn, tname, pn, prod):
    w = ctx.where_fn(fn)
    ps, _ = ctx.run(fn)
    me = sym("arg", 0)
    init = prod.val
    fields = [f for f, _ in ctx.fields(tname)]
    sample = [contents(p) for p in ps]
    for p, s in zip(ps, sample):
        if not (p.val is NONE) and s is None:
            ctx.ob("samples", "shape", False, w, "%s returns %s" % (fn, show(p.val)[:100]), fn)
            return "unknown", 0
    if any(contains(p.val, lambda x: x.op == "app" and x.a[0] == "filled") for p in ps) or \
       any(e.name.startswith("io::") for p in ps for e, _ in flat_events(p.events)):
        if restricted(prod):
            return "selection", 0
        return "file", by_file(ctx, fn, w, ps, me, init, fields, pn, prod)
    if any(contains(p.val, lambda x: x.op == "idx" and not p.val is NONE) for p in ps) and not any(
            contains(p.val, lambda x: x.op == "slice") for p in ps):
        return "selection", by_index(ctx, fn, w, ps, me, init, fields, pn)
    return "memory", by_memory(ctx, fn, w, ps, me, init, fields, pn)


def contents(p):
    if p.val.op == "agg" and p.val.a[1] == "Some":
        return bytes_of(payload(p.val, "Some"))
    return None


def new_state(p, me):
    return p.upd.get(("P", 0), me)


def usizes(ctx, me, init, fields, ps):
    """the chunk size: fields of type usize of the sampler or copied from it, never written by next"""
    changed = {f for p in ps for f in fields if field(new_state(p, me), f) is not field(me, f)}
    out = []
    for f in fields:
        v = field(init, f)
        if f in changed:
            continue
        if v is sym("arg", 0):
            a = sampler_type(ctx, init)
            out += [field(field(me, f), n) for n, ty in a if ty == "usize"]
        elif v.op == "field" and v.a[0] is sym("arg", 0):
            ty = dict(sampler_type(ctx, init)).get(v.a[1])
            if ty == "usize":
                out.append(field(me, f))
    return out, changed


def sampler_type(ctx, init):
    return getattr(ctx, "_sampler_fields", {}).get(init, [])


def by_memory(ctx, fn, w, ps, me, init, fields, pn):
    remember(ctx, init, pn)
    sizes, changed = usizes(ctx, me, init, fields, ps)
    base = [sub(x, ONE) for x in sizes]
    nn = lambda t: t.op == "field"
    n = 0
    cand = set()
    for p in ps:
        s = contents(p)
        if s is not None:
            cand.add(parts(s)[0])
    if not ctx.ob("samples", "data", len(cand) == 1, w, "samples are slices of %s" % ", ".join(show(c)[:80] for c in cand), fn):
        return 0
    D = cand.pop()
    # the data is a byte vector of the sampler
    f0 = D
    path = []
    while f0.op == "field":
        path.append(f0.a[1])
        f0 = f0.a[0]
    d0 = init
    for x in reversed(path):
        d0 = field(d0, x)
    whole = d0.op == "field" and d0.a[0] is sym("arg", 0) and f0 is me
    ctx.ob("start", "data", whole, ctx.where_fn(pn), "the iterator starts with %s instead of the data" % show(d0)[:100], pn)
    rest = D.op == "field" and D.a[0] is me and D.a[1] in changed
    N = length(D)
    if rest:
        ctx.ob("state", "fields", changed == {D.a[1]}, w, "the state has more than the rest of the data: %s" % sorted(changed), fn)
        P, inv = ZERO, []
    else:
        if not ctx.ob("state", "fields", len(changed) == 1, w, "the state changes in %s" % sorted(changed), fn):
            return 0
        P = field(me, list(changed)[0])
        ctx.ob("start", "position", field(init, list(changed)[0]) is ZERO, ctx.where_fn(pn),
               "the iterator starts at position %s" % show(field(init, list(changed)[0]))[:60], pn)
        inv = [sub(N, P), P]
    for i, p in enumerate(ps):
        facts = set(p.conds) | set(p.asserts)
        ent = lambda g, facts=facts: linear.entails(facts, g, nn, base + inv)
        s = contents(p)
        for e, _ in flat_events(p.events):
            if e.name.startswith(("io::", "rand::", "fs::")):
                ctx.ob("samples", "pure", False, e.span, "%s while iterating over data in memory" % e.name, fn)
        if s is None:
            ctx.ob("end", "all data", ent(sub(P, N)), w, "the iteration stops before the end of the data when %s" % showlits(p.conds)[:300], fn)
            continue
        n += 1
        _, a, b = parts(s)
        st = new_state(p, me)
        if hasattr(ctx, "cuts"):
            ctx.cuts.append(("memory", fn, w, p, facts, ent, D, a if not rest else ZERO, b, lambda ent=ent, b=b: ent(sub(b, N)),
                             lambda facts=facts, b=b: any(linear.entails(facts, sub(b, add(P, x)), nn, base + inv + [sub(sub(N, b), ONE)]) for x in sizes)))
        ctx.ob("samples", "start", ent(sub(a, P)) and ent(sub(P, a)), w, "a sample starts at %s instead of %s" % (show(a)[:100], show(P)[:60]), fn)
        ctx.ob("samples", "not empty", ent(sub(sub(b, a), ONE)), w, "a sample may be empty: from %s to %s when %s" % (
            show(a)[:100], show(b)[:100], showlits(p.conds)[:300]), fn)
        ctx.ob("samples", "in range", ent(sub(N, b)), w, "a sample may reach past the data: %s" % show(b)[:200], fn)
        if rest:
            d2, lo, hi = parts(field(st, D.a[1]))
            ok = d2 is D and ent(sub(hi, N)) and ent(sub(N, hi)) and ent(sub(lo, b)) and ent(sub(b, lo))
        else:
            q = field(st, list(changed)[0])
            ok = ent(sub(q, b)) and ent(sub(b, q))
        ctx.ob("state", "next start", ok, w, "after a sample that ends at %s the state is %s" % (show(b)[:100], show(st)[:200]), fn)
    return n


def remember(ctx, init, pn):
    f = ctx.fn(pn)
    tn = pn[1:].split(" as ")[0]
    ctx._sampler_fields = getattr(ctx, "_sampler_fields", {})
    ctx._sampler_fields[init] = [tuple(x[:2]) for x in ctx.fields(tn)]


def by_file(ctx, fn, w, ps, me, init, fields, pn, prod):
    remember(ctx, init, pn)
    limit = [f for f in fields if field(init, f) is NONE or
             (field(init, f).op == "field" and dict(sampler_type(ctx, init)).get(field(init, f).a[1], "").startswith("std::option::Option<"))]
    mine = [p for p in ps if not any(lit(is_variant(field(me, f), "Some")) in p.conds for f in limit)]
    sizes, changed = usizes(ctx, me, init, fields, mine)
    for f in limit:
        ctx.ob("state", "limit", f not in changed, w, "an unrestricted iterator becomes restricted", fn)
    base = [sub(x, ONE) for x in sizes]
    opened = [e for e in prod.events if not isinstance(e, tuple)]
    ff = [f for f in fields if field(init, f).op == "payload" and field(init, f).a[0].op == "ev"]
    ok = len(ff) == 1 and field(init, ff[0]).a[0].a[0] == "fs::File::open" and [e.name for e in opened if e.name.startswith(("io::", "fs::"))] == ["fs::File::open"]
    if not ctx.ob("start", "file", ok, ctx.where_fn(pn), "the iterator does not start at the beginning of a newly opened file: %s" % show(init)[:200], pn):
        return 0
    name = field(init, ff[0]).a[0].a[1][0]
    ctx.ob("start", "file name", name.op == "field" and name.a[0] is sym("arg", 0), ctx.where_fn(pn), "the file opened is %s" % show(name)[:80], pn)
    F = field(me, ff[0])
    ctx.ob("state", "fields", changed <= {ff[0]}, w, "the state changes in %s" % sorted(changed), fn)
    n = 0
    for p in mine:
        facts = set(p.conds) | set(p.asserts)
        reads = [(e, ls) for e, ls in flat_events(p.events) if e.name.startswith("io::read")]
        odd = [e for e, _ in flat_events(p.events) if e.name.startswith(("rand::", "fs::"))]
        ctx.ob("samples", "pure", not odd, w, "%s while iterating over all data" % ", ".join(e.name for e in odd), fn)
        if not ctx.ob("samples", "one read", len(reads) == 1 and not reads[0][1] and reads[0][0].name == "io::read", w,
                      "a sample takes %d reads" % len(reads), fn):
            continue
        e = reads[0][0]
        ctx.ob("samples", "reader", e.args[0] is F, e.span, "the sample is read from %s" % show(e.args[0])[:100], fn)
        ev = raw("ev", e.name, (F, length(e.args[1])), 0, ())
        r = e.res if e.res is not None else ev
        k = payload(r, "Ok")
        ent = lambda g, facts=facts, k=k, e=e: linear.entails(facts, g, lambda t: t.op == "field", base + [k, sub(length(e.args[1]), k)])
        ctx.ob("samples", "buffer", ent(sub(length(e.args[1]), ONE)), e.span, "the sample is read into a buffer of length %s" % show(length(e.args[1]))[:60], fn)
        st = new_state(p, me)
        s = contents(p)
        if s is None:
            ctx.ob("end", "all data", ent(neg_(k)), w, "the iteration stops before the end of the file when %s" % showlits(p.conds)[:300], fn)
            continue
        n += 1
        d, a, b = parts(s)
        good = d.op == "app" and d.a[0] == "filled" and d.a[2] is F
        ctx.ob("samples", "data", good, w, "the sample is %s instead of what was read" % show(s)[:200], fn)
        if not good:
            continue
        if hasattr(ctx, "cuts"):
            size = length(e.args[1])
            ctx.cuts.append(("file", fn, w, p, facts, ent, d, a, b, lambda ent=ent, b=b, k=k, size=size: ent(sub(sub(size, k), ONE)) and ent(sub(b, k)),
                             lambda ent=ent, b=b, size=size: ent(sub(b, size))))
        ctx.ob("samples", "start", ent(neg_(a)) and ent(a), w, "a sample starts at byte %s of what was read" % show(a)[:100], fn)
        ctx.ob("samples", "not empty", ent(sub(b, ONE)), w, "a sample may be empty: %s" % show(b)[:200], fn)
        ctx.ob("samples", "in range", ent(sub(k, b)), w, "a sample may be longer than what was read: %s" % show(b)[:200], fn)
        fs = file_state(field(st, ff[0]), F)
        if not ctx.ob("state", "file", fs is not None and len(fs[0]) == 1, w, "the file is left as %s" % show(field(st, ff[0]))[:200], fn):
            continue
        off = fs[1]
        if off is None:
            back = ZERO
        elif off.op == "agg" and off.a[1] == "Current":
            back = payload(off, "Current")
        else:
            ctx.ob("state", "seek", False, w, "the file is positioned at %s" % show(off)[:100], fn)
            continue
        # position = start + k + back must be start + b
        g = sub(b, add(k, back))
        ctx.ob("state", "next start", ent(g) and ent(neg_(g)), w, "after a sample of %s bytes out of %s read the file is moved by %s" % (
            show(b)[:100], show(k)[:60], show(back)[:100]), fn)
        if off is not None:
            sk = [x for x, _ in flat_events(p.events) if x.name == "io::seek"]
            good = all(x.res is not None and lit(is_variant(x.res, "Ok")) in facts for x in sk)
            ctx.ob("state", "seek done", good and len(sk) == 1, w, "a failed seek goes unnoticed", fn)
    return n


def neg_(t):
    return sub(ZERO, t)


def by_index(ctx, fn, w, ps, me, init, fields, pn):
    return 0
