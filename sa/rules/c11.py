"""C11 the optimiser never exceeds the requested number of tokens"""
from steps import *
import linear

RULE = ("every path of an optimisation step that returns a token set: from 'the current set has at most the requested number of tokens' and the path's conditions and assertions follows "
        "that the returned set has at most that number, given what the parts do to the size (decided separately, each for every path): picking a token adds exactly one, removing takes "
        "exactly one, choosing single bytes stays within the number asked for plus the longer tokens, or leaves the set alone")
TECHNIQUE = "size accounting over the step's summary (abstract interpretation of MIR with value numbering), linear entailment per path; contracts of the parts proved on their own summaries"


def check(ctx):
    s = steps(ctx)
    w = ctx.where_fn(s.step)
    res = s.results()
    ctx.floor("ways to accept a set", len(res), 3)
    for p, x in res:
        ok = s.proves(p, sub(s.want, s.size(x)), extra=[sub(s.want, s.size(s.me))])
        ctx.ob("size", kind(s, x), ok, w, "a set that may have more tokens than requested is accepted: %s, on the path %s" % (show(x)[:160], showlits(p.conds)[:200]), s.step)
    contracts(ctx, s)


def kind(s, x):
    o = s.origin(x)
    return o[0] if o else "other"


def contracts(ctx, s):
    add_one(ctx, s)
    remove_one(ctx, s)
    ctx.floor("functions that pick a token", len(s.pickers), 1)
    for n in s.pickers:
        picks_one(ctx, s, n)
    ctx.floor("ways to choose single bytes", len(s.impls), 3)
    for n in s.impls:
        bounded(ctx, s, n)


def adder(ctx):
    return ctx.role(*ADD)


def add_one(ctx, s):
    n = adder(ctx)
    ps, _ = ctx.run(n)
    me = sym("arg", 0)
    for p in ps:
        u = p.upd.get(("P", 0), me)
        d = sub(length(field(u, "tokens")), length(field(me, "tokens")))
        ctx.ob("contract", "adding", d is ONE, ctx.where_fn(n), "adding a token changes the number of tokens by %s" % show(d)[:100], n)


def remove_one(ctx, s):
    n = s.remove
    ps, _ = ctx.run(n)
    me, i = sym("arg", 0), sym("arg", 1)
    for p in ps:
        u = p.upd.get(("P", 0), me)
        d = sub(length(field(u, "tokens")), length(field(me, "tokens")))
        facts = [x for x in list(p.conds) + list(p.asserts)]
        # an index beyond the tokens cannot be removed: the call does not return then
        valid = [lit(pos(sub(length(field(me, "tokens")), i)))]
        ok = d is I(-1) or linear.infeasible([f for f in linear.ineqs_of(facts + valid)[0]] + [(0, {length(field(me, "tokens")): 1}), (0, {i: 1})])
        ctx.ob("contract", "removing", ok, ctx.where_fn(n), "removing a token changes the number of tokens by %s" % show(d)[:100], n)


def picks_one(ctx, s, n):
    a = adder(ctx)
    ps, _ = ctx.run(n, (a,) + tuple(validators(ctx, n)))
    st = sym("arg", 0)
    k = 0
    for p in ps:
        if p.val is NONE:
            continue
        k += 1
        x = token_set_in(p.val)
        ok = x is not None and x.op == "mutout" and x.a[0] == a and x.a[1] == 0 and x.a[2] is field(st, "token_set")
        ctx.ob("contract", "picking", ok, ctx.where_fn(n), "picking a token makes %s of the set, not the set with one token added" % show(x if x is not None else p.val)[:200], n)
    ctx.floor("sets made by %s" % n, k, 1)


def token_set_in(v):
    """the token set in Some((set, number)) or Some(set)"""
    x = payload(v, "Some")
    if x.op == "agg" and len(x.a) > 3:
        for y in x.a[3:]:
            if y.op in ("mutout", "with") or y.op == "agg" and str(y.a[0]).endswith("TokenSet"):
                return y
        return None
    return x


def validators(ctx, n):
    """functions from a string to bool that n calls"""
    fs = ctx.engine().names
    cr = crate(ctx)
    under = cr.reach([fs[n].d["key"]])
    return sorted(m for m, f in fs.items() if f.d["sig"] == "fn(&[u8]) -> bool" and f.d["key"] in under)


# ---- choosing single bytes

def size_bound(ctx, t, facts, depth=0):
    """upper bound of the length of a sequence of tokens as a linear term; None when there is none"""
    if t.op == "cat":
        out = I(0)
        for x in t.a:
            b = size_bound(ctx, x, facts, depth)
            if b is None:
                return None
            out = add(out, b)
        return out
    if t.op == "push":
        b = size_bound(ctx, t.a[0], facts, depth)
        return add(b, ONE) if b is not None else None
    if t.op == "build":
        base = size_bound(ctx, t.a[1], facts, depth)
        if base is None:
            return None
        bv = raw("bv", t.a[0])
        most = max((len(els) for _, els in t.a[3]), default=0)
        if len(t.a[2]) < 1:
            return None
        if most == 1 and len(t.a[3]) == 1 and len(t.a[2]) == 1:
            r = is_long(t.a[3][0][0], t.a[3][0][1], bv) if t.a[3][0][0] else None
            if r is not None and t.a[2][0] is length(r[0]) and r[0].op == "field":
                return add(base, raw("nlong", r[0].a[0]))
        n = t.a[2][0] if len(t.a[2]) == 1 else raw("min", *t.a[2])
        return add(base, scale(n, most))
    if t.op == "field" and t.a[1] == "tokens":
        x = t.a[0]
        return made_bound(ctx, x, facts, depth)
    n = length(t)
    return n


def made_bound(ctx, x, facts, depth):
    """upper bound of the number of tokens of a set that a call, or one of several, made"""
    if depth > 4:
        return None
    if x.op == "call" and ctx.has(x.a[0]):
        b = fn_bound(ctx, x.a[0])
        if b is None:
            return None
        return subst(b, {sym("arg", i): a for i, a in enumerate(x.a[1:])})
    return length(field(x, "tokens"))


def fn_bound(ctx, n):
    """number of tokens (at most) of the set a function returns, over its arguments"""
    if not hasattr(ctx, "_bounds"):
        ctx._bounds = {}
    if n in ctx._bounds:
        return ctx._bounds[n]
    ctx._bounds[n] = None
    sp = splitters(ctx)
    ps, _ = ctx.run(n, tuple(sorted(sp | encoders(ctx))))
    out = None
    for p in ps:
        b = size_bound(ctx, field(p.val, "tokens"), p.conds)
        if b is not None:
            b = subst_lens(ctx, b, sp)
        if b is None or out is not None and out is not b:
            out = None
            break
        out = b
    ctx._bounds[n] = out
    return out


SPLIT = re.compile(r"^fn\(&\[\(u8, u64\)\], usize\) -> std::vec::Vec<[\w:]+>$")
ENC = re.compile(r"^fn\(&\[\(u8, u64\)\], usize\) -> std::vec::Vec<\(u8, std::vec::Vec<usize>\)>$")


def splitters(ctx):
    return {n for n, f in ctx.engine().names.items() if SPLIT.match(f.d["sig"])}


def encoders(ctx):
    return {n for n, f in ctx.engine().names.items() if ENC.match(f.d["sig"])}


def subst_lens(ctx, b, sp):
    """at most k parts come out of a split into k parts"""
    m = {}
    for x in walk(b):
        if x.op == "len" and x.a[0].op == "call" and x.a[0].a[0] in sp:
            if split_bound(ctx, x.a[0].a[0]):
                m[x] = x.a[0].a[2]
    return subst(b, m)


def split_bound(ctx, n):
    """a split into k parts returns at most k"""
    if not hasattr(ctx, "_splits"):
        ctx._splits = {}
    if n in ctx._splits:
        return ctx._splits[n]
    fs = ctx.engine().names
    opq = tuple(m for m, f in fs.items() if re.match(r"^fn\(&[\w:]+\) -> [\w:]+$", f.d["sig"]) and f.d["span"][0] == fs[n].d["span"][0])
    ps, _ = ctx.run(n, opq)
    ok = bool(ps)
    for p in ps:
        good = linear.entails([c for c in list(p.conds) + list(p.asserts) if c[0].op in ("pos", "eq0")], sub(sym("arg", 1), length(p.val)), nonneg=lambda t: t.op == "sym")
        ctx.ob("contract", "splitting", good, ctx.where_fn(n), "splitting may give more than the parts asked for", n)
        ok = ok and good
    ctx._splits[n] = ok
    return ok


def bounded(ctx, s, n):
    """within the number asked for plus the longer tokens, or the set itself"""
    st, k = sym("arg", 0), sym("arg", 1)
    ts = field(st, "token_set")
    sets = makers(ctx)
    ps, _ = ctx.run(n, tuple(sorted(sets)))
    ctx.floor("paths of %s" % n, len(ps), 1)
    fix = fixed_ext(ctx)
    for p in ps:
        if p.val is ts:
            ctx.ob("contract", "single bytes", True, ctx.where_fn(n), "", n)
            continue
        facts = list(p.conds) + list(p.asserts)
        cases = alternatives(field(p.val, "tokens"), facts)
        for t, fx in cases:
            b = size_bound(ctx, t, fx)
            ok = False
            if b is not None:
                ex = [sub(k, field(ts, "n_ext_tokens"))]
                for ty, m in fix.items():
                    if lit(is_variant(field(ts, "token_type"), ty)) in set(facts):
                        d = sub(field(ts, "n_ext_tokens"), I(m))
                        ex += [d, sub(I(0), d)]
                num = [(a, q) for a, q in fx if a.op in ("pos", "eq0")]
                goal = sub(add(k, raw("nlong", ts)), b)
                ok = linear.entails(relevant(num, goal, ex), goal, nonneg=lambda x: x.op in ("sym", "nlong") or x.op == "field", extra=ex)
            ctx.ob("contract", "single bytes", ok, ctx.where_fn(n), "choosing single bytes may give %s tokens, more than asked for" % (show(b)[:200] if b is not None else "any number of"), n)


def makers(ctx):
    """functions that make one candidate set out of byte counts"""
    return {n for n, f in ctx.engine().names.items() if re.search(r"&\[\(u8, u64\)\]", f.d["sig"]) and f.d["sig"].split("->")[-1].strip() == SET}


def alternatives(t, facts):
    """a sequence that starts with the tokens of the best of several sets: the ways that one was made, with what holds then"""
    for x in walk(t):
        if x.op == "field" and x.a[1] == "tokens":
            cs = loop_cases(x)
            if cs:
                return [(subst(t, {x: y}), list(facts) + inside) for y, inside in cs]
    return [(t, facts)]


def element_cases(L, chain):
    """part of some element of a list that is built: the values it can have"""
    while L.op == "app" and L.a[0] in ("sorted", "sorted_by", "reversed"):
        L = L.a[1]
    if L.op != "build" or L.a[1] is not EMPTY:
        return []
    bv = raw("bv", L.a[0])
    out = []
    for conds, els in L.a[3]:
        for v in els:
            for c in reversed(chain):
                v = field(v, c.a[1]) if c.op == "field" else payload(v, c.a[1], *c.a[2:])
            out.append((v, [lit(pos(sub(n, bv))) for n in L.a[2]] + list(conds)))
    return out


def loop_cases(x):
    """part of a variable that a loop sets (best = Some(..)): the values it is given, with what holds then"""
    chain = []
    o = x
    while o.op in ("field", "payload"):
        chain.append(o)
        o = o.a[0]
    if chain and o.op == "app" and o.a[0] in ("min_by_key", "max_by_key", "min_by", "max_by", "min", "max") and chain[-1].op == "payload" and chain[-1].a[1] == "Some":
        return element_cases(o.a[1], chain[:-1])
    if o.op == "idx":
        return element_cases(o.a[0], chain)
    if o is x or o.op not in ("out", "brk") or o.a[0].op != "fold" or not isinstance(o.a[1], int):
        return []
    fd, i = o.a[0], o.a[1]
    bv = raw("bv", fd.a[0])
    out = []
    for conds, vals in fd.a[3]:
        v = vals[i]
        if v.op == "phi" or v is NONE:
            continue
        for c in reversed(chain):
            v = field(v, c.a[1]) if c.op == "field" else payload(v, c.a[1], *c.a[2:])
        out.append((v, [lit(pos(sub(n, bv))) for n in fd.a[1]] + list(conds)))
    return out


def fixed_ext(ctx):
    """token types whose sets all have a known number of extension tokens"""
    if hasattr(ctx, "_fixed"):
        return ctx._fixed
    out, bad = {}, set()
    new = []
    for n, f in ctx.engine().names.items():
        tys = [l[0] for l in f.d["locals"][1:1 + f.d["argc"]]]
        if not f.d["sig"].endswith("-> " + SET) or "usize" not in tys or not any(t.endswith("TokenType") for t in tys) or any(t.startswith("&mut") for t in tys):
            continue
        ps, _ = ctx.run(n)
        for ia in [i for i, t in enumerate(tys) if t == "usize"]:
            for ib in [i for i, t in enumerate(tys) if t.endswith("TokenType")]:
                if ps and all(field(p.val, "n_ext_tokens") is sym("arg", ia) and field(p.val, "token_type") is sym("arg", ib) for p in ps):
                    new.append((n, ia, ib))
    cr = crate(ctx)
    live = cr.live()
    at = {}
    for n, ia, ib in new:
        at.setdefault(n, []).append((ia, ib))
    keys = {ctx.engine().names[n].d["key"]: n for n in at}
    if not new or any(len(v) != 1 for v in at.values()) or any(
            k in live for k, f, sp in cr.field_writes("TokenSet", {"n_ext_tokens", "token_type"}) if k not in keys):
        ctx._fixed = {}
        return {}
    # one of them may hand its arguments on to another
    for k in sorted({c for key in keys for c in cr.back.get(key, ()) if c not in keys}):
        n = cr.name_of.get(k.split("::{closure")[0])
        if k not in live or n is None:
            continue
        qs, _ = ctx.run(n, tuple(sorted(at)))
        for p in qs:
            for e, _l in flat_events(p.events):
                if e.name not in at:
                    continue
                (ia, ib), = at[e.name]
                ty, ne = e.args[ib], e.args[ia]
                if ty.op == "agg":
                    v = str(ty.a[1]) if ty.a[1] else str(ty.a[0]).split("::")[-1]
                    if isint(ne):
                        if out.setdefault(v, ne.a[0]) != ne.a[0]:
                            bad.add(v)
                    else:
                        bad.add(v)
                else:
                    bad |= {v for v in ("Bits1", "Bits2", "Bits4", "Bytes", "BytesHuff") if lit(neg(is_variant(ty, v))) not in set(p.conds) | set(p.asserts)}
    ctx._fixed = {v: m for v, m in out.items() if v not in bad}
    return ctx._fixed
