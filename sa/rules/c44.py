"""C44 new token sets can write every byte and split paragraphs"""
from steps import *
import c11
import c30
from c38 import args_of
import linear

RULE = ("every path of the optimiser on which no token set is given: the set its first step, and the first measurement, start from (constructors inlined) has the processing mode asked for, is marked as splitting paragraphs, and "
        "has only extension tokens and, for each of the 256 bytes, a token or a sequence with exactly this byte; or it is what a function that chooses single bytes makes from the "
        "statistics of such a set and the number of tokens asked for")
TECHNIQUE = "optimiser summaries (abstract interpretation of MIR with value numbering): fields, token and sequence lists of the starting set as comprehensions over the bytes"


def check(ctx):
    s = steps(ctx)
    _, n, nm = optimizer(ctx)
    f = ctx.fn(n)
    at = args_of(f)
    w = ctx.where_fn(n)
    news = {m for m, g in ctx.engine().names.items() if g.d["sig"].split("->")[-1].strip() == SET and "TokenSet" not in g.d["sig"].split("->")[0] and "TokenStats" not in g.d["sig"].split("->")[0] and "Value" not in g.d["sig"].split("->")[0]
            and "&[(" not in g.d["sig"]}
    hide = (set(nm.values()) | set(s.impls) | s.lookups | {s.tok}) - {n} - news
    ps, _ = ctx.run(n, tuple(sorted(hide)))
    pre = [i for i, t in enumerate(at) if re.search(r"^std::option::Option<.*TokenSet>$", t)]
    mode = [i for i, t in enumerate(at) if t.split("::")[-1] == "Processing"]
    num = [i for i, t in enumerate(at) if t == "usize"]
    if not ctx.ob("start", "arguments", len(pre) == len(mode) == len(num) == 1, w, "the optimiser takes %s" % ", ".join(at), n):
        return
    pre, mode, num = sym("arg", pre[0]), sym("arg", mode[0]), sym("arg", num[0])
    k = 0
    for p in ps:
        facts = set(p.conds) | set(p.asserts)
        if lit(is_variant(pre, "Some")) in facts:
            continue
        for e, inits in with_roots(p.events):
            if e.name != s.step and e.name not in s.lookups:
                continue
            m = 0 if e.name == s.step else 1
            x = c30.first(e.args[m], inits)
            if later(x, s, inits):
                continue
            k += 1
            fresh(ctx, n, x, e, s, mode, num)
    ctx.floor("starts without a set given", k, 5)


def later(x, s, inits):
    """a set made by an earlier step or handed through one"""
    while x.op in ("payload", "mutout", "brk", "out"):
        if x.op == "payload":
            x = c30.first(x.a[0], inits)
        elif x.op == "mutout":
            return True
        else:
            return True
    return x.op == "call" and x.a[0] == s.step


def fresh(ctx, n, x, e, s, mode, num):
    if x.op == "call" and x.a[0] in s.impls:
        ctx.ob("start", "number of tokens", x.a[2] is num, e.span, "the bytes of a new set are chosen for %s tokens" % show(x.a[2])[:100], n)
        y = s.stats_of(x.a[1])
        if ctx.ob("start", "measured", y is not None, e.span, "a new set is made from %s" % show(x.a[1])[:160], n):
            fresh(ctx, n, y, e, s, mode, num)
        return
    ctx.ob("start", "processing mode", field(x, "processing") is mode, e.span, "a new set has the processing mode %s" % show(field(x, "processing"))[:100], n)
    ctx.ob("start", "splits paragraphs", field(x, "split_paragraphs") is TRUE, e.span, "a new set is not marked as splitting paragraphs but %s" % show(field(x, "split_paragraphs"))[:100], n)
    toks, seqs = field(x, "tokens"), field(x, "sequences")
    got, other = bytes_of(toks, is_str)
    ctx.ob("start", "tokens", other is None, e.span, "a new set has the tokens %s" % (show(other)[:200] if other is not None else ""), n)
    got2, other2 = bytes_of(seqs, is_seq)
    ctx.ob("start", "sequences", other2 is None, e.span, "a new set has the sequences %s" % (show(other2)[:200] if other2 is not None else ""), n)
    if other is None and other2 is None:
        bad = [b for b in range(256) if got[b] + got2[b] != 1]
        ctx.ob("start", "every byte", not bad, e.span, "in a new set %d bytes have not exactly one token or sequence, such as %s" % (len(bad), bad[:3]), n)


def is_str(x):
    return x.a[3] if x.op == "agg" and str(x.a[1]) == "Str" else None


def is_ext(x):
    return x.op == "agg" and str(x.a[1]) == "Ext"


def is_seq(x):
    return field(x, "string") if x.op == "agg" and str(x.a[0]).split("::")[-1] == "Sequence" else None


def bytes_of(t, what):
    """(how often a list has each byte, part of it that is not understood)"""
    none = [0] * 256
    if t is EMPTY:
        return none, None
    if t.op == "list":
        n = list(none)
        for x in t.a:
            if is_ext(x):
                continue
            y = what(x)
            if y is None or y.op != "list" or len(y.a) != 1 or y.a[0].op != "int":
                return none, x
            n[y.a[0].a[0] % 256] += 1
        return n, None
    if t.op == "cat":
        n = list(none)
        for x in t.a:
            a, b = bytes_of(x, what)
            if b is not None:
                return none, b
            n = [u + v for u, v in zip(n, a)]
        return n, None
    if t.op == "push":
        return bytes_of(raw("cat", t.a[0], raw("list", t.a[1])), what)
    if t.op == "build" and len(t.a[2]) == 1 and len(t.a[3]) == 1:
        (conds, els), = t.a[3]
        n, b = bytes_of(t.a[1], what)
        if b is not None or len(els) != 1:
            return none, t if b is None else b
        x = els[0]
        if is_ext(x):
            return n, None
        y = what(x)
        if y is not None and not conds and t.a[2][0] is I(256) and y.op == "list" and len(y.a) == 1:
            v = y.a[0]
            while v.op in ("trunc",) or v.op == "app" and v.a[0] == "trunc":
                v = v.a[-1]
            if v is raw("bv", t.a[0]) or v is sub(I(255), raw("bv", t.a[0])):
                return [u + 1 for u in n], None
    return none, t
