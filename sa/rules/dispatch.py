"""Which way of choosing single bytes the optimiser is given, for which type of token set."""
from steps import *
import c11

TYPES = ("Bits1", "Bits2", "Bits4", "Bytes", "BytesHuff")


def impl_types(ctx):
    """type that implements the choice -> its function"""
    out = {}
    for n in ob_impls(ctx):
        m = re.match(r"^<(.+) as .+>::\w+$", n)
        out[m.group(1).split("<")[0].split("::")[-1]] = n
    return out


def last(t):
    return re.sub(r"^&('\w+ )?(mut )?", "", t).split("<")[0].split("::")[-1]


def choices(ctx):
    """[(type of the token set or None, implementation, event)] for every place that settles on one implementation"""
    if hasattr(ctx, "_choices"):
        return ctx._choices
    cmds, nm = commands(ctx)
    impls = impl_types(ctx)
    cr = crate(ctx)
    live = cr.live()
    trait_fns = {n for n in impls.values()}
    callees = set()
    for k, f in ctx.prog.fns.items():
        if k not in live:
            continue
        for b in f["blocks"]:
            if b["cleanup"] or b["t"][0] != "call":
                continue
            fn = (b["t"][1].get("f") or {}).get("fn")
            if not fn or not any(last(a) in impls for a in fn["args"]):
                continue
            g = fn["res"] or fn["key"]
            n = cr.name_of.get(g)
            if n and n not in trait_fns and fn["key"] in ctx.prog.fns:
                callees.add(n)
    # the outermost ones
    lvl = set(nm.values()) - ({nm["optimize_tokenset"]} - callees)
    opq = lvl | callees | trait_fns | {nm2 for nm2 in names(ctx, LEVEL2).values() if nm2 != nm["optimize_tokenset"] or nm2 in callees}
    ps, _ = ctx.run("main", tuple(sorted(opq)))
    out = []
    opts = cmds.get("Optimize") or []
    tt = opts[0].opt("type") if opts else None
    for p in ps:
        facts = set(p.conds) | set(p.asserts)
        for e, fs in under(p.events, facts):
            if e.name not in callees:
                continue
            xs = {last(a) for a in list(e.targs)} & set(impls)
            kinds = [v for v in TYPES if tt is not None and lit(is_variant(tt, v)) in fs]
            if len(kinds) > 1:
                continue            # no such path
            kinds = [v for v in kinds or TYPES if tt is not None and lit(neg(is_variant(tt, v))) not in fs]
            for x in xs:
                for v in kinds:
                    if not any(o[0] == v and o[1] == impls[x] for o in out):
                        out.append((v, impls[x], e))
    ctx._choices = out
    return out


def under(events, facts):
    for e in events:
        if isinstance(e, tuple):
            for q in e[1].paths:
                yield from under(q.events, facts | set(q.conds) | set(q.asserts))
        else:
            yield e, facts


def ways(ctx, n, kind):
    """(path, type of the set it makes) of an implementation for statistics of a set of a type; the type is None if it is not known"""
    mk = c11.makers(ctx)
    ps, _ = ctx.run(n, tuple(sorted(mk)))
    ts = field(sym("arg", 0), "token_set")
    tt = field(ts, "token_type")
    out = []
    for p in ps:
        facts = list(p.conds) + list(p.asserts)
        if any(a.op == "is" and a.a[0] is tt and (a.a[1] == kind) != b for a, b in facts):
            continue
        out.append((p, type_of(ctx, field(p.val, "token_type"), tt, kind, mk)))
    return out


def type_of(ctx, t, tt, kind, mk):
    if t is tt:
        return {kind}
    if t.op == "agg":
        return {str(t.a[1])}
    while t.op == "field" and t.a[1] == "token_type":
        x = t.a[0]
        if x.op == "call" and x.a[0] in mk:
            ps, _ = ctx.run(x.a[0], tuple(sorted(c11.splitters(ctx) | c11.encoders(ctx))))
            out = set()
            for p in ps:
                out |= type_of(ctx, field(p.val, "token_type"), tt, kind, mk) or {None}
            return out
        cs = c11.loop_cases(x)
        if not cs or any(v is x for v, _ in cs):
            break
        out = set()
        for v, _ in cs:
            out |= type_of(ctx, field(v, "token_type"), tt, kind, mk) or {None}
        return out
    return set()
