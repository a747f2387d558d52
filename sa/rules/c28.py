"""C28 optimising bytes works for any number of tokens"""
from steps import *
from dispatch import choices, ways
import c11
import c34
import linear

LEAST = 3       # tokens for bytes that a frequency-based set needs at least

RULE = ("every path of every function that chooses single bytes: the bytes that get a token are an initial part, at most 256 long, of an arrangement of all byte values, or one per part of "
        "a split of the byte counts into a positive number of parts; a split merges neighbours only while there are more parts than asked for, so it never runs out; "
        "at least one candidate is built for every number of tokens a set of the type can have; an array of bytes or counts is never indexed beyond its end; assertions on the length of what is "
        "encoded hold for single bytes; the way of choosing bytes that each token type is given has a path for sets of that type; every step asks for at least as many tokens for bytes as the type needs")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering), linear entailment of slice and loop bounds"


def check(ctx):
    s = steps(ctx)
    ctx.floor("ways to choose single bytes", len(s.impls), 3)
    direct = by_split = 0
    for n in s.impls:
        d, b = chosen(ctx, n)
        direct += d
        by_split += b
    ctx.floor("direct choices of bytes", direct, 1)
    ctx.floor("choices of bytes by splitting", by_split, 1)
    for n in sorted(c11.splitters(ctx)):
        split(ctx, n)
    handled(ctx)
    callers(ctx, s)


def handled(ctx):
    """each type of token set is given a way of choosing bytes that can deal with it"""
    k = 0
    for kind, n, e in choices(ctx):
        k += 1
        ctx.ob("type", kind, len(ways(ctx, n, kind)) > 0, e.span, "sets of the type %s are given to %s, which always fails for them" % (kind, n), n)
    ctx.floor("types of token sets", k, 5)


def callers(ctx, s):
    """enough tokens for bytes are asked for, given that every set has at least the tokens its type needs"""
    k = 0
    want = s.want
    for p in s.paths:
        for e, facts in with_facts(p.events, list(p.conds) + list(p.asserts)):
            if e.name not in s.ob_name:
                continue
            base = s.stats_of(s.n(e.args[0]))
            if not ctx.ob("asked", "set", base is not None, e.span, "bytes are chosen from other statistics than those of a set: %s" % show(e.args[0])[:120], s.step):
                continue
            k += 1
            kk = s.n(e.args[1])
            fs = [x for x in (lit(s.n(a if b else neg(a))) for a, b in facts) if isinstance(x, tuple)]
            tt, ext = field(s.me, "token_type"), field(s.me, "n_ext_tokens")
            for v, least in c34.FEWEST.items():
                if v == "Bytes" or any(a.op == "is" and a.a[0] is tt and (a.a[1] == v) != b for a, b in fs):
                    continue
                goal = sub(kk, I(least))
                ex = [sub(sub(s.size(b), raw("nlong", b)), I(least)) for b in {base, s.me}] + [sub(want, s.size(s.me))]
                if v != "BytesHuff":
                    ex += [sub(ext, I(c34.EXT[v])), sub(I(c34.EXT[v]), ext)]
                num = numbers(fs)
                ok = linear.entails(relevant(num, goal, ex), goal, nonneg=lambda t: t.op in ("total", "nlong", "sym"), extra=ex, depth=2)
                ctx.ob("asked", "enough", ok, e.span, "a set of the type %s may get only %s tokens for bytes, it needs %d" % (v, show(kk)[:100], least), s.step)
    ctx.floor("choices of bytes in a step", k, 3)


def with_facts(events, facts):
    for e in events:
        if isinstance(e, tuple):
            for q in e[1].paths:
                yield from with_facts(q.events, facts + list(q.conds) + list(q.asserts))
        else:
            yield e, facts


def lengths(ctx, n, events, asserts, facts, makers):
    """assertions on lengths hold: what a sequence stands for is one byte, and so are the tokens of a new set"""
    for a, b in asserts:
        if a.op not in ("pos", "eq0"):
            continue
        at = linear.form(a.a[0])[1]
        if not at or not all(x.op == "len" for x in at) or not any(of_token(x.a[0]) for x in at):
            continue
        ex = []
        for x in at:
            if of_token(x.a[0]) and one_byte_long(x.a[0], makers):
                ex += [sub(x, ONE), sub(ONE, x)]
        fx = [f for f in numbers(facts) if f != (a, b)]
        ok = any(linear.entails(relevant(fx, g, ex), g, nonneg=count, extra=ex, depth=2) for g in goals(a, b)) if (a.op == "pos" or not b) else \
            linear.entails(relevant(fx, a.a[0], ex), a.a[0], nonneg=count, extra=ex, depth=2) and linear.entails(relevant(fx, a.a[0], ex), sub(I(0), a.a[0]), nonneg=count, extra=ex, depth=2)
        ctx.ob("assertion", "length", ok, ctx.where_fn(n), "an assertion does not hold for single bytes: %s" % showlits([(a, b)])[:160], n)
    for e in events:
        if isinstance(e, tuple):
            for q in e[1].paths:
                lengths(ctx, n, q.events, q.asserts, list(facts) + list(q.conds), makers)


def of_token(x):
    """the bytes of a token or of what a sequence stands for"""
    return x.op == "field" and x.a[1] == "string" or x.op == "payload" and x.a[1] == "Str"


def one_byte_long(x, makers):
    if x.op == "field":
        return True
    t = x.a[0]
    if t.op != "idx":
        return False
    v = t.a[0]
    return v.op == "field" and v.a[1] == "tokens" and v.a[0].op == "call" and v.a[0].a[0] in makers


def chosen(ctx, n):
    st, k = sym("arg", 0), sym("arg", 1)
    ts = field(st, "token_set")
    makers = c11.makers(ctx)
    ps, _ = ctx.run(n, tuple(sorted(makers)))
    w = ctx.where_fn(n)
    fix = c11.fixed_ext(ctx)
    direct = by_split = 0
    for p in ps:
        if p.val is ts:
            continue
        facts = list(p.conds) + list(p.asserts)
        lengths(ctx, n, p.events, p.asserts, list(p.conds), makers)
        toks = field(p.val, "tokens")
        single = [b for b in builds(toks) if len(b.a[3]) and any(one_byte(e) is not None for _, els in b.a[3] for e in els)]
        for b in single:
            direct += 1
            prefix(ctx, b, facts, n, w)
        # candidates made by a split
        for l in loops_of(p.events):
            for q in l.paths:
                for e in q.events:
                    if not isinstance(e, tuple) and e.name in makers:
                        by_split += 1
                        candidate(ctx, e, l, q, facts, n, k)
        for a, q in p.asserts:
            if a.op == "is" and a.a[0].op == "out" and q:
                ok = always_some(a.a[0], facts, [sub(k, I(LEAST))])
                ctx.ob("candidate", "found", ok, w, "there may be no candidate: %s" % show(a)[:160], n)
    return direct, by_split


def builds(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if x.op == "cat":
            st += list(x.a)
        elif x.op == "push":
            st.append(x.a[0])
        elif x.op == "build":
            st.append(x.a[1])
            out.append(x)
    return out


def one_byte(e):
    """the byte of a token for a single byte"""
    if e.op == "agg" and str(e.a[0]).split("::")[-1] == "Token" and str(e.a[1]) == "Str":
        s = e.a[3]
        if length(s) is ONE:
            return idx(s, ZERO)
    return None


def prefix(ctx, b, facts, n, w):
    bv = raw("bv", b.a[0])
    num = [(a, q) for a, q in facts if a.op in ("pos", "eq0")]
    trips = b.a[2]
    lim = any(linear.entails(relevant(num, sub(I(256), t), []), sub(I(256), t), depth=2) for t in trips)
    ctx.ob("chosen", "at most 256", lim, w, "as many as %s bytes are given tokens, there are only 256" % ", ".join(show(t)[:100] for t in trips), n)
    for conds, els in b.a[3]:
        for e in els:
            x = one_byte(e)
            ok = x is not None and each_once(x, bv)
            ctx.ob("chosen", "each once", ok, w, "the bytes given tokens are not distinct: %s" % show(x if x is not None else e)[:200], n)


def each_once(x, bv):
    """is x a different byte for every position"""
    if x is bv or x.op == "app" and x.a[0] == "trunc" and x.a[-1] is bv or x.op == "trunc" and x.a[-1] is bv:
        return True
    if x.op == "idx" and x.a[1] is bv:
        return arrangement(x.a[0])
    if x.op in ("field",) and x.a[0].op == "idx" and x.a[0].a[1] is bv:
        return arrangement(x.a[0].a[0], x.a[1])
    return False


def arrangement(v, f=None):
    """a permutation of all byte values (or of records that have each of them once in one field)"""
    while True:
        if v.op == "app" and v.a[0] in ("sorted_by", "reversed", "sorted") or v.op in ("sorted_by", "reversed", "sorted"):
            v = v.a[1] if v.op == "app" else v.a[0]
            continue
        break
    if v.op != "build" or v.a[1] is not EMPTY or len(v.a[2]) != 1 or v.a[2][0] is not I(256) or len(v.a[3]) != 1:
        return False
    conds, els = v.a[3][0]
    if conds or len(els) != 1:
        return False
    e = field(els[0], f) if f is not None else els[0]
    bv = raw("bv", v.a[0])
    return e is bv or e.op in ("trunc", "app") and e.a[-1] is bv


def numbers(facts):
    return [(a, q) for a, q in facts if a.op in ("pos", "eq0")]


def count(t):
    return t.op in ("sym", "iota", "bv", "nlong")


def candidate(ctx, e, l, q, facts, n, k):
    """a set is built with a positive number of parts, and its own assertions hold"""
    fx = numbers(facts) + numbers(list(q.conds)) + [x for x in (lit(pos(sub(t, l.iota))) for t in l.trips) if isinstance(x, tuple)]
    ex = [l.iota, sub(k, I(LEAST))]
    args = list(e.args)
    kinds = sig_args_of(ctx, e.name)
    for name, a in zip(kinds, args):
        if name == "usize":
            goal = sub(a, ONE)
            ok = linear.entails(relevant(fx, goal, ex), goal, nonneg=count, extra=ex, depth=2)
            ctx.ob("candidate", "positive", ok, e.span, "a candidate is built with %s tokens, which may be none" % show(a)[:100], n)
    ps, _ = ctx.run(e.name, tuple(sorted(c11.splitters(ctx) | c11.encoders(ctx))))
    m = {sym("arg", i): a for i, a in enumerate(args)}
    for p in ps:
        for a, b in p.asserts:
            if a.op not in ("pos", "eq0") or not all(x.op == "sym" for x in linear.form(a.a[0])[1]):
                continue
            y = subst(a, m)
            ok = any(linear.entails(relevant(fx, g, ex), g, nonneg=count, extra=ex, depth=2) for g in goals(y, b))
            ctx.ob("candidate", "assertion", ok, e.span, "an assertion may fail for the candidate: %s" % show(y)[:160], n)


def goals(a, b):
    x = a.a[0]
    if a.op == "pos":
        return [sub(x, ONE)] if b else [sub(I(0), x)]
    return [sub(x, ONE), sub(sub(I(0), x), ONE)] if not b else []


def sig_args_of(ctx, n):
    import c13
    f = ctx.fn(n)
    return c13.sig_args(f)[:f.d["argc"]]


def always_some(o, facts, ex):
    """a value that starts as None is Some after the loop: the loop runs, and no pass leaves None"""
    fd, i = o.a[0], o.a[1]
    if fd.op != "fold" or not fd.a[1]:
        return False
    fx = numbers(facts)
    for t in fd.a[1]:
        g = sub(t, ONE)
        if not linear.entails(relevant(fx, g, ex), g, nonneg=count, extra=ex, depth=3):
            return False
    if is_variant(fd.a[2][i], "Some") is TRUE:
        return True
    # the variables that are None together with it: all start as None and each pass leaves all of them as they are or makes all Some
    none = [j for j, v in enumerate(fd.a[2]) if v is NONE]
    phis = {}
    for conds, vals in fd.a[3]:
        for x in walk(raw("list", *[a for a, _ in conds], *vals)):
            if x.op == "phi" and x.a[0] == fd.a[0] and x.a[1] in none:
                phis[x.a[1]] = x
    for conds, vals in fd.a[3]:
        sets = [vals[j].op == "agg" and str(vals[j].a[1]) == "Some" for j in none]
        if all(sets):
            continue
        if any(sets):
            return False
        # leaves it alone: only when it already is Some
        if not any((a, q) == lit(is_variant(phis[j], "Some")) for j in none if j in phis for a, q in conds):
            return False
    return True


def split(ctx, n):
    """merging goes on only while there are more parts than asked for, and there are always two to merge"""
    fs = ctx.engine().names
    opq = tuple(m for m, f in fs.items() if re.match(r"^fn\(&[\w:]+\) -> [\w:]+$", f.d["sig"]) and f.d["span"][0] == fs[n].d["span"][0])
    ps, _ = ctx.run(n, opq)
    w = ctx.where_fn(n)
    ex = [sub(sym("arg", 1), ONE)]
    k = 0
    for p in ps:
        for l in loops_of(p.events, deep=False):
            if l.trips:
                continue
            for q in l.paths:
                if q.kind != "cont":
                    continue
                k += 1
                fx = numbers(list(q.conds))
                ok = False
                for key, leaf in l.leaves.items():
                    phi = leaf["phi"]
                    g = sub(length(phi), I(2))
                    d = sub(length(phi), length(q.upd.get(key, phi)))
                    if d is ONE and linear.entails(relevant(fx, g, ex), g, nonneg=count, extra=ex, depth=2):
                        ok = True
                ctx.ob("split", "two parts", ok, w, "parts are merged although there may be only one left: %s" % showlits(q.conds)[:160], n)
                for a, b in q.asserts:
                    if a.op == "is" and a.a[0].op == "out" and b:
                        ctx.ob("split", "pair", always_some(a.a[0], list(q.conds), ex), w, "there may be no pair to merge: %s" % show(a)[:160], n)
    ctx.floor("merging loops", k, 1)
