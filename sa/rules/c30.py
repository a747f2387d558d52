"""C30 commands pass each option to its role"""
from commands import *
from cli import HARMLESS, chain, text_of
from c09 import declared, under
from c27 import input_set, is_open, reads, source, NEW
from dispatch import choices, ways

RULE = ("the parser generated by clap stores each option in the field the commands use, with no parser, default or action other than the derived one, and names each "
        "value of --type and --processing after its variant; on every path of main each command runs its own action with the values of its options in their roles "
        "(files, directories, ntokens, processing, type, starting token set, minimum data size), and the optimiser uses them in these roles")
TECHNIQUE = "value provenance from the option table of the generated parser through command summaries (abstract interpretation of MIR)"
OPTIONS = {
    "process": ["data", "output"],
    "count-chars": ["data"],
    "convert-tokens": ["data", "processed-data", "input-tokens", "tokens-dir"],
    "optimize": ["data", "processed-data", "tokens-dir", "processing", "type", "ntokens", "input-tokens", "min-data-size"],
}
OPTIONAL = {("convert-tokens", "processed-data"), ("optimize", "processed-data"), ("optimize", "input-tokens"), ("optimize", "min-data-size")}


def check(ctx):
    cmds, nm = commands(ctx)
    options(ctx)
    own = {"Process": process, "CountChars": count, "ConvertTokens": convert, "Optimize": optimize}
    for v, f in own.items():
        ps = cmds.get(v, [])
        ctx.floor("paths of %s" % v, len(ps), 1)
        for P in ps:
            f(ctx, P, nm)
    inside(ctx)


# ---- the command line
def options(ctx):
    c = cli(ctx)
    for cmd, names in OPTIONS.items():
        have = c.commands.get(cmd)
        if not ctx.ob("option", cmd, have is not None, c.where, "there is no command %s" % cmd, "main"):
            continue
        for n in names:
            o = have.get(n)
            ctx.ob("option", "%s --%s" % (cmd, n), o is not None and c.field_of(cmd, n) is not None, c.where, "%s has no option --%s that is stored in a field" % (cmd, n), "main")
            if o is not None:
                plain(ctx, c, cmd, n, o)
        shorts = [repr(o.short.a) for o in have.values() if o.short is not None]
        ctx.ob("option", "%s short" % cmd, len(shorts) == len(set(shorts)), c.where, "two options of %s have the same short name" % cmd, "main")
        ids = [i for i in c.fields.get(c.variant.get(cmd), {}).values()]
        ctx.ob("option", "%s fields" % cmd, len(ids) == len(set(ids)), c.where, "two fields of %s are filled from the same option" % cmd, "main")
    a = ctx.prog.adts
    seen = set()
    for cmd, n in (("optimize", "processing"), ("optimize", "type")):
        f = c.field_of(cmd, n)
        for k, adt in a.items():
            for v in adt["variants"]:
                if v["name"] == c.variant.get(cmd) and k.split("::")[-1] == (c.type or "").split("::")[-1]:
                    seen |= {t for g, t in v["fields"] if g == f}
    ctx.floor("types of options with named values", len(seen), 2)
    for t in sorted(seen):
        values(ctx, t.split("::")[-1])


def plain(ctx, c, cmd, n, o):
    for m, args in o.methods:
        ok = m in HARMLESS
        if m == "default_value" and (cmd, n) not in OPTIONAL:
            ok = True
        if m == "value_parser":
            ok = contains(args[0], lambda x: x.op == "app" and str(x.a[0]).endswith("_infer_ValueParser_for::new"))
        elif m == "action":
            ok = args[0].op == "agg" and args[0].a[1] in ("Set",)
        ctx.ob("option", "%s --%s %s" % (cmd, n, m), ok, c.where, "the value of option --%s of %s is changed by %s(%s)" % (n, cmd, m, ", ".join(show(a)[:80] for a in args if isinstance(a, T))), "main")


def squash(s):
    return "".join(x for x in (s or "").lower() if x.isalnum())


def values(ctx, ty):
    """the spelling of a value on the command line is that of its variant"""
    fn = "<%s as ValueEnum>::to_possible_value" % ty
    ps, _ = ctx.run(fn)
    adt = ctx.adt(ty)
    got = {}
    for p in ps:
        v = [x["name"] for x in adt["variants"] if lit(is_variant(sym("arg", 0), x["name"])) in set(p.conds) | set(p.asserts)]
        if p.val.op != "agg" or p.val.a[1] != "Some" or len(v) != 1:
            ctx.ob("value", "form", False, ctx.where_fn(fn), "a value of %s has no name" % ty, fn)
            continue
        name = None
        for m, args in chain(p.val.a[3], "clap::builder::PossibleValue::"):
            if m == "new":
                name = text_of(args[0])
        got[v[0]] = name
        ctx.ob("value", v[0], squash(name) == squash(v[0]), ctx.where_fn(fn), "the value %s on the command line stands for %s" % (name, v[0]), fn)
    ctx.ob("value", "all", len(got) == len(adt["variants"]), ctx.where_fn(fn), "not every variant of %s has a name" % ty, fn)


# ---- actions
ACTIONS = ("process_file", "count_chars", "tokenize_file", "optimize_tokenset")


def only(ctx, P, nm, allowed):
    n = 0
    for e, _ in flat_events(P.events):
        for a in ACTIONS:
            if e.name == nm[a]:
                n += a == allowed[0]
                ctx.ob("action", a, a in allowed, e.span, "%s is called by the command %s" % (a, P.name), P.variant)
    ctx.ob("action", P.name, n >= 1, ctx.where_fn("main"), "the command %s does not call %s on the path %s" % (P.name, allowed[0], P.label()), P.variant)


def process(ctx, P, nm):
    only(ctx, P, nm, ["process_file"])
    for e, inits in with_roots(P.events):
        if e.name == nm["process_file"]:
            ctx.ob("role", "data", is_open(stream_root(e.args[0], inits), P.opt("data")), e.span, "process reads %s" % show(e.args[0])[:160], P.variant)
            out = created(stream_root(e.args[1], inits))
            ctx.ob("role", "output", out is not None and out.a[1][-1] is P.opt("output"), e.span, "process writes %s" % show(e.args[1])[:160], P.variant)


def count(ctx, P, nm):
    only(ctx, P, nm, ["count_chars"])
    for e, _ in flat_events(P.events):
        if e.name == nm["count_chars"]:
            ctx.ob("role", "data", any(a is P.opt("data") or is_open(stream_root(a), P.opt("data")) for a in e.args), e.span, "count-chars reads %s" % ", ".join(show(a)[:100] for a in e.args), P.variant)


def raw_input(ctx, P, nm):
    """what is pre-processed is the data file"""
    for e, inits in with_roots(P.events):
        if e.name == nm["process_file"]:
            ctx.ob("role", "data", is_open(stream_root(e.args[0], inits), P.opt("data")), e.span, "%s pre-processes %s" % (P.name, show(e.args[0])[:160]), P.variant)


def saves(ctx, P, nm):
    for o in outputs(P.events):
        ctx.ob("role", "tokens_dir", declared(P, nm)(o.dest), o.ev.span, "%s saves %s" % (P.name, show(o.dest)[:160]), P.variant)


def convert(ctx, P, nm):
    only(ctx, P, nm, ["tokenize_file", "process_file"])
    raw_input(ctx, P, nm)
    source(ctx, P, nm)
    saves(ctx, P, nm)
    ts = input_set(P, nm)
    for e, _ in flat_events(P.events):
        if e.name == nm["tokenize_file"]:
            ctx.ob("role", "input_tokens", e.args[0] is ts, e.span, "convert-tokens tokenises with %s" % show(e.args[0])[:200], P.variant)


def optimize(ctx, P, nm):
    only(ctx, P, nm, ["optimize_tokenset", "process_file", "tokenize_file"])
    raw_input(ctx, P, nm)
    source(ctx, P, nm)
    saves(ctx, P, nm)
    given = P.opt("input_tokens")
    with_set = lit(is_variant(given, "Some")) in P.facts
    ts = input_set(P, nm)
    if not ctx.ob("role", "input_tokens", with_set or lit(neg(is_variant(given, "Some"))) in P.facts, ctx.where_fn("main"), "the starting token set does not matter on the path %s" % P.label(), P.variant):
        return
    ctx.ob("role", "input_tokens", (ts is not None) == with_set, ctx.where_fn("main"), "the starting token set is %s on the path %s" % ("not read" if with_set else "read", P.label()), P.variant)
    mds = P.opt("min_data_size")
    small = lit(is_variant(mds, "Some")) in P.facts
    ctx.ob("role", "min_data_size", small or lit(neg(is_variant(mds, "Some"))) in P.facts, ctx.where_fn("main"), "the minimum data size does not matter on the path %s" % P.label(), P.variant)
    n = 0
    for e, inits in with_roots(P.events):
        if e.name == nm["optimize_tokenset"]:
            for i, r in ((0, "ntokens"), (2, "processing"), (3, "type")):
                ctx.ob("role", r, e.args[i] is P.opt(r), e.span, "the optimiser is given %s as %s" % (show(e.args[i])[:160], r), P.variant)
            ctx.ob("role", "tokens_dir", e.args[6] is P.opt("tokens_dir"), e.span, "the optimiser is given %s as the tokens directory" % show(e.args[6])[:160], P.variant)
            roots = starts(e.args[5], inits, nm)
            good = all(r is (ts if with_set else NONE) for r in roots)
            ctx.ob("role", "starting token set", good, e.span, "the optimiser starts from %s (%s)" % (", ".join(show(r)[:120] for r in roots), P.label()), P.variant)
        if e.name == nm["MemorySampler::sample_from_file"]:
            n += 1
            r = first(e.args[1], inits)
            ctx.ob("role", "min_data_size", small and r is payload(mds, "Some"), e.span, "the first sample has the size %s" % show(r)[:160], P.variant)
    ctx.ob("role", "min_data_size", (n > 0) == small, ctx.where_fn("main"), "the data is %s on the path %s" % ("not sampled" if small else "sampled", P.label()), P.variant)


def first(t, inits):
    """value on the first round of the loops it is updated in"""
    for _ in range(50):
        if t in inits:
            t = inits[t]
        elif t.op in ("out", "brk") and t.a[0].op == "fold" and isinstance(t.a[1], int):
            t = t.a[0].a[2][t.a[1]]
        else:
            break
    return t


def starts(t, inits, nm):
    """the token sets (or NONE) an optional token set is made from, other than results of earlier rounds"""
    t = first(t, inits)
    if t.op == "agg" and t.a[1] == "Some":
        x = first(t.a[3], inits)
        if x.op == "field" and x.a[1] == "token_set" and x.a[0].op == "call" and x.a[0].a[0] == nm["optimize_tokenset"]:
            return starts(x.a[0].a[6], inits, nm)
        return [x]
    if t.op == "payload" and t.a[1] == "Some":
        return starts(t.a[0], inits, nm)
    return [t]


KINDS = {"Bits1": "TokenSet::new_bits1", "Bits2": "TokenSet::new_bits2", "Bits4": "TokenSet::new_bits4", "Bytes": "TokenSet::new_bytes", "BytesHuff": "TokenSet::new_bytes"}


def inside(ctx):
    ps, n, nm = optimizer(ctx)
    for kind, x, e in choices(ctx):
        for p, got in ways(ctx, x, kind):
            ctx.ob("optimizer", "type kept", got == {kind}, e.span, "choosing single bytes of a set of the type %s with %s makes a set of the type %s" % (kind, x, "/".join(str(g) for g in sorted(map(str, got))) or "?"), x)
    k = 0
    for p in ps:
        facts = set(p.conds) | set(p.asserts)
        steps = [(e, i) for e, i in with_roots(p.events) if e.name == nm["optimization_step"]]
        ctx.ob("optimizer", "steps", len(steps) >= 1, ctx.where_fn(n), "the optimiser makes no step", n)
        pre = sym("arg", 5)
        kind = [v for v in KINDS if lit(is_variant(sym("arg", 3), v)) in facts]
        for e, inits in steps:
            k += 1
            ctx.ob("optimizer", "ntokens", e.args[1] is sym("arg", 0), e.span, "the optimiser aims at %s tokens" % show(e.args[1])[:120], n)
            s = first(e.args[0], inits)
            # the set left by an earlier step: where that one started
            while s.op == "payload" and s.a[1] == "Some":
                y = first(s.a[0], inits)
                if not (y.op == "call" and y.a[0] == nm["optimization_step"]):
                    break
                s = first(y.a[1], inits)
            # in order already
            while s.op == "mutout" and s.a[0] == nm.get("TokenSet::sort") and s.a[1] == 0:
                s = first(s.a[2], inits)
            if lit(is_variant(pre, "Some")) in facts:
                ctx.ob("optimizer", "starting set", s is payload(pre, "Some"), e.span, "the optimiser starts from %s instead of the set given" % show(s)[:160], n)
                continue
            ctx.ob("optimizer", "starting set", lit(neg(is_variant(pre, "Some"))) in facts, e.span, "whether a starting set was given does not matter", n)
            if len(kind) != 1:
                ctx.ob("optimizer", "type", False, e.span, "the token type does not matter on the path %s" % showlits(p.conds)[:200], n)
                continue
            want = nm[KINDS[kind[0]]]
            if kind[0] == "BytesHuff":
                h = nm["<HuffOptimizer as BytesOptimizer>::optimize_bytes"]
                ok = s.op == "call" and s.a[0] == h and contains(s.a[1], lambda x: x.op == "call" and x.a[0] == want) and any(a is sym("arg", 0) for a in s.a[2:])
            else:
                ok = s.op == "call" and s.a[0] == want
            ctx.ob("optimizer", "type", ok, e.span, "the optimiser starts from %s for the type %s" % (show(s)[:160], kind[0]), n)
    ctx.floor("steps of the optimiser", k, 6)
    for new in NEW:
        q, _ = ctx.run(ctx.role(new, ""))
        for p in q:
            t = field(p.val, "token_type")
            want = [k for k, v in KINDS.items() if v == new][0]
            ctx.ob("optimizer", "type of %s" % new, t.op == "agg" and t.a[1] == want, ctx.where_fn(new), "%s makes a set of the type %s" % (new, show(t)[:80]), new)
