"""C31 character counting counts every character once"""
from ctx import *
import linear

RULE = ("summary of the counting function: every line is read whole and once until the end of the file; for each, the total grows by its number "
        "of characters and, for each character, exactly one counter - the one of that character - by one, starting from zero; the total "
        "printed is that total, each printed count is that of the printed character, and the maximum printed is a maximum over exactly "
        "the characters with a positive count")

FN = "count_chars"


def is_zero_map(t):
    return t.op == "app" and t.a[0] == "newmap" or t.op == "rep" and t.a[0] is ZERO


def bump(old, new, c):
    """new is old with one more at c -> "array", "map" or None"""
    if new.op == "store" and new.a[0] is old and new.a[1] is c and new.a[2] is add(idx(old, c), ONE):
        return "array"
    if new is app("minsert", old, c, add(app("mget_or", old, c, ZERO), ONE)):
        return "map"
    return None


def strip_show(t):
    """what is shown by a piece of printed text"""
    while t.op == "app" and (t.a[0] in ("display", "fmtspec") or t.a[0].startswith("fmt.")):
        t = t.a[1]
    return t


def shown(t):
    return [strip_show(x) for x in (t.a if t.op == "cat" else (t,)) if x.op != "bytes"]


def codepoint(t):
    """number of a character term"""
    while True:
        if t.op == "payload" and t.a[1] == "Some":
            t = t.a[0]
        elif t.op == "app" and t.a[0] in ("char_from", "char"):
            t = t.a[1]
        elif t.op == "trunc":
            t = t.a[1]
        else:
            return t


def check(ctx):
    fn = ctx.role(FN, "fn(&str)")
    ps, _ = ctx.run(fn, log_prints=True)
    w = ctx.where_fn(fn)
    n = 0
    for p in ps:
        n += one(ctx, fn, w, p)
    ctx.floor("character counters", n, 1)


def one(ctx, fn, w, p):
    reads = [e[1] for e in p.events if isinstance(e, tuple) and any(x.name.startswith("io::read") for q in e[1].paths for x, _ in flat_events(q.events))]
    if not ctx.ob("read", "one loop", len(reads) == 1, w, "%d loops read the file" % len(reads), fn):
        return 0
    R = reads[0]
    kinds = {}
    total = None
    counters = None
    below = set()
    for q in R.paths:
        rs = [(e, ls) for e, ls in flat_events(q.events) if e.name.startswith("io::")]
        ok = len(rs) == 1 and not rs[0][1] and rs[0][0].name == "io::read_line"
        if not ctx.ob("read", "one line", ok, w, "an iteration does not read exactly one whole line: %s" % ", ".join(e.name for e, _ in rs), fn):
            return 0
        r = rs[0][0]
        rd = [k for k, v in R.leaves.items() if v["phi"] is r.args[0]]
        src = R.leaves[rd[0]]["init"] if rd else UNIT
        while src.op == "app" and src.a[0] == "BufReader":
            src = src.a[1]
        ok = src.op == "payload" and src.a[0].op == "ev" and src.a[0].a[0] == "fs::File::open" and src.a[0].a[1][0] is sym("arg", 0)
        ctx.ob("read", "file", ok, r.span, "lines are read from %s" % show(src)[:100], fn)
        ctx.ob("read", "fresh line", r.args[-1] in (S(""), EMPTY), r.span, "a line is read into a buffer with text", fn)
        cnt = payload(r.res, "Ok")
        data = app("read_line.data", r.args[0])
        facts = set(q.conds) | set(q.asserts)
        if q.kind != "cont":
            at_end = linear.entails(facts, sub(ZERO, cnt), lambda t: t is cnt) or lit(eq(length(data), ZERO)) in facts
            ctx.ob("read", "to the end", at_end, w, "the loop is left before the end of the file when %s" % showlits(q.conds)[:200], fn)
            continue
        if rd:
            ctx.ob("read", "next", q.upd.get(rd[0]) is app("read_line.next", r.args[0]), w, "the reader is changed besides reading a line", fn)
        chars = app("chars", data)
        nch = length(chars)
        # the total
        tot = {k for k, v in R.leaves.items() if v["init"] is ZERO and q.upd.get(k) is add(v["phi"], nch)}
        total = tot if total is None else total & tot
        # the counters
        cl = [e[1] for e in q.events if isinstance(e, tuple) and any(x.op == "minsert" or x.op == "store" or x.op == "app" and x.a[0] == "minsert"
                                                                   for z in e[1].paths for u in z.upd.values() for x in walk(u))]
        if not ctx.ob("count", "one loop", len(cl) == 1, w, "the characters of a line are counted by %d loops" % len(cl), fn):
            return 0
        C = cl[0]
        ctx.ob("count", "every character", list(C.trips) == [nch], w, "the counted characters are not those of the line", fn)
        cs = set()
        for z in C.paths:
            chg = {k: u for k, u in z.upd.items() if k in C.leaves and u is not C.leaves[k]["phi"]}
            if z.kind == "exit":
                ctx.ob("count", "left early", False, w, "the rest of a line is not counted when %s" % showlits(z.conds)[:200], fn)
            if z.kind != "cont":
                continue
            c = idx(chars, C.iota)
            ks = []
            for k, u in chg.items():
                b = bump(C.leaves[k]["phi"], u, c)
                if b:
                    ks.append((k, b))
                    if b == "map":
                        sizes = [length(R.leaves[y]["init"]) for y in C.leaves if y in R.leaves and R.leaves[y]["init"].op == "rep"]
                        if not all(linear.entails(set(z.conds) | set(z.asserts), sub(c, y), lambda t: True) for y in sizes):
                            below.add(k)
                    if b == "array":
                        size = length(R.leaves[k]["init"]) if k in R.leaves else None
                        ctx.ob("count", "in range", size is not None and linear.entails(set(z.conds) | set(z.asserts), sub(sub(size, ONE), c), lambda t: True,
                                                                                       [sub(size, length(C.leaves[k]["phi"]))]),
                               w, "a counter outside the array of counters may be used", fn)
                elif not tracked(C.leaves[k]["phi"], u, c, z):
                    ctx.ob("count", "other", contains_total(u, C.leaves[k]["phi"]), w, "a counter becomes %s" % show(u)[:150], fn)
            ctx.ob("count", "once", len(ks) == 1, w, "a character is counted in %d counters when %s" % (len(ks), showlits(z.conds)[:200]), fn)
            cs |= {k for k, _ in ks}
            for k, b in ks:
                kinds[k] = b
        for k in cs:
            ok = k in R.leaves and C.leaves[k]["init"] is R.leaves[k]["phi"] and q.upd.get(k) is C.final.get(C.leaves[k]["phi"]) and is_zero_map(R.leaves[k]["init"])
            ctx.ob("count", "accumulate", ok, w, "the counters of a line are not added to those of the file, starting from zero", fn)
        counters = cs if counters is None else counters | cs
    ctx.ob("total", "number of characters", total, w, "no total grows by the number of characters of each line", fn)
    # what is printed
    fin = left_with(R, p)
    tops = [e for e in p.events if not isinstance(e, tuple) and e.name == "print"]
    vals = [v for e in tops for v in shown(e.args[0])]
    ctx.ob("total", "printed", any(fin[k] is v for k in total or () for v in vals), w, "the total is not printed", fn)
    facts = set(p.conds) | set(p.asserts)
    arrays = [k for k in counters or () if kinds[k] == "array"]
    maps = [k for k in counters or () if kinds[k] == "map"]
    above = set(maps) - below
    m = 0
    for v in vals:
        if any(fin[k] is v for k in total or ()):
            continue
        src = sup(codepoint(v), fin, arrays, maps, facts, R)
        if src is None:
            continue
        m += 1
        # nothing counted in a map whose greatest character does not exist
        src |= {k for k in maps for a, q in facts if a.op == "is" and (a.a[1] == "Some" and not q or a.a[1] == "None" and q)
                and sup(codepoint(a.a[0]), fin, [], [k], facts, R) == {k}}
        src |= {k for k in maps for o in ("hashkeys", "treekeys") if lit(neg(pos(length(app(o, fin[k]))))) in facts}
        # a character of a map that holds only characters beyond the array is greater than all in the array
        if any(k in above and there(v, fin[k], facts) and sup(codepoint(v), fin, [], [k], facts, R) == {k} for k in maps):
            src |= set(arrays)
        ctx.ob("max", "all characters", src >= set(arrays) | set(maps) or "chars" in src, w,
               "the maximum is not taken over all counted characters", fn)
    ctx.ob("max", "printed", m >= 1, w, "no maximum over the counted characters is printed: %s" % "; ".join(show(v)[-150:] for v in vals), fn)
    # counts
    printed = set()
    for e in p.events:
        if not isinstance(e, tuple) or e[1] is R:
            continue
        L = e[1]
        for z in L.paths:
            for x in z.events:
                if isinstance(x, tuple) or x.name != "print":
                    continue
                vs = shown(x.args[0])
                for k in arrays:
                    cnts = [v for v in vs if v.op == "idx" and v.a[0] is fin[k]]
                    for v in cnts:
                        rest = [codepoint(y) for y in vs if y is not v]
                        ctx.ob("count", "printed with its character", v.a[1] in rest and v.a[1] is L.iota, x.span,
                               "the count of character %s is printed for %s" % (show(v.a[1])[:50], ", ".join(show(y)[:50] for y in rest)), fn)
                        printed.add(k)
        if not any(not isinstance(x, tuple) and x.name == "print" for q in L.paths for x in q.events):
            continue
        for k in arrays:
            # an iteration that prints no count has a count of zero
            if k in printed:
                ctx.ob("count", "all printed", list(L.trips) in ([length(fin[k])], [length(R.leaves[k]["init"])]), w, "not all counts are printed", fn)
                for z in L.paths:
                    if z.kind == "cont" and not any(not isinstance(x, tuple) and x.name == "print" for x in z.events):
                        cell = idx(fin[k], L.iota)
                        ctx.ob("count", "all printed", linear.entails(set(z.conds) | set(z.asserts), sub(ZERO, cell), lambda t: t is cell), w,
                               "a positive count is not printed", fn)
                    if z.kind == "exit" and L.final is not None and any(not isinstance(x, tuple) and x.name == "print" for q in L.paths for x in q.events):
                        ctx.ob("count", "all printed", False, w, "not all counts are printed", fn)
    ctx.ob("count", "printed", set(arrays) <= printed, w, "the counts are not printed", fn)
    return len(counters or ())


def left_with(R, p):
    """leaf -> its value after the loop on this path"""
    cand = [dict(R.final)] + [R.brk(q) for q in R.paths if q.kind == "exit"]
    texts = set()
    for e in p.events:
        for x, _ in flat_events([e]):
            if x.name == "print":
                texts |= set(walk(x.args[0]))
        if isinstance(e, tuple):
            for t in e[1].trips:
                texts |= set(walk(t))
    best = max(cand, key=lambda m: sum(1 for k in R.leaves if m.get(R.leaves[k]["phi"]) in texts))
    return {k: best.get(R.leaves[k]["phi"], UNIT) for k in R.leaves}


def contains_total(u, phi):
    return u is add(phi, ONE)


def tracked(phi, u, c, z):
    """a running maximum"""
    if u is app("max", phi, c) or u.op == "max" or u is c:
        return True
    return False


def sup(t, fin, arrays, maps, facts, R):
    """the counters of whose characters the term is the maximum, or None"""
    t = codepoint(t)
    if t is ZERO:
        # nothing counted in the array
        out = set()
        for k in arrays:
            if any(not pl and a.op == "exists" and all_cells(a, fin[k]) for a, pl in facts):
                out.add(k)
        return out
    for k, keys in [(k, app(o, fin[k])) for k in maps for o in ("hashkeys", "treekeys")]:
        if t.op == "out" and t.a[0].op == "fold":
            f = t.a[0]
            h, trips, inits, cases = f.a[0], f.a[1], f.a[2], f.a[3]
            if list(trips) == [length(keys)] and len(f.a) > 4 and not f.a[4]:
                x = idx(keys, raw("bv", h))
                ph = raw("phi", h, t.a[1])
                if all(keeps_max(cs, ups[t.a[1]], ph, x) for cs, ups in cases):
                    s = sup(inits[t.a[1]], fin, arrays, maps, facts, R)
                    return None if s is None else s | {k}
        if keys.a[0] == "treekeys" and t is idx(keys, sub(length(keys), ONE)):
            return {k}
        if t.op == "app" and t.a[0] in ("max", "last") and len(t.a) > 1 and (t.a[1] is keys or t.a[1].op == "app" and t.a[1].a[0] == "sorted" and t.a[1].a[1] is keys) \
                and (t.a[0] == "max" or keys.a[0] == "treekeys" or t.a[1] is not keys):
            return {k}
    if t.op in ("max",) or t.op == "app" and t.a[0] == "max":
        out = set()
        for x in t.a:
            if isinstance(x, T):
                s = sup(codepoint(x), fin, arrays, maps, facts, R)
                if s is None:
                    return None
                out |= s
        return out
    # the last index with a positive count
    for k in arrays:
        n = length(fin[k])
        b = sub(sub(n, ONE), t)
        if b.op == "brk" and b.a[1] == "pos":
            f = b.a[0]
            if list(f.a[1]) == [n] and cell_positive(f.a[4], sub(sub(n, ONE), raw("bv", f.a[0])), fin[k]):
                return {k}
    return None


def there(v, m, facts):
    """is the value known to be the greatest key of the map, which is not empty"""
    for o in ("hashkeys", "treekeys"):
        if lit(pos(length(app(o, m)))) in facts:
            return True
    return any(x.op == "payload" and x.a[1] == "Some" and lit(is_variant(x.a[0], "Some")) in facts for x in walk(v))


def keeps_max(cs, u, ph, x):
    if u is ph:
        return linear.entails(cs, sub(ph, x), lambda t: True)
    if u is x:
        return linear.entails(cs, sub(x, ph), lambda t: True)
    return u is app("max", ph, x) or u is app("max", x, ph) or (u.op == "max" and set(u.a) == {ph, x})


def cell_positive(lits, i, arr):
    lits = list(lits)
    want = lit(pos(idx(arr, i)))
    return len(lits) == 1 and (lits[0] == want or lits[0] == want)


def all_cells(a, arr):
    h, trips, lits = a.a
    bv = raw("bv", h)
    n = length(arr)
    if list(trips) != [n]:
        return False
    return cell_positive(lits, bv, arr) or cell_positive(lits, sub(sub(n, ONE), bv), arr)
