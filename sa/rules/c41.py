"""C41 token sets of another kind or size are saved under another name"""
from commands import *

RULE = ("every path of the function that names a token set, for every token type and processing mode: the name is constant text and the number of tokens in decimal; over all types and modes the constant "
        "texts are different and can be told from the number, and there is nothing in them that would lead out of the directory")
TECHNIQUE = "function summaries of the naming and display functions (abstract interpretation of MIR with value numbering), enumerated over the variants"


def check(ctx):
    nm = names(ctx, LEVEL2)
    fn = nm["TokenSet::name"]
    ps, _ = ctx.run(fn)
    w = ctx.where_fn(fn)
    me = sym("arg", 0)
    types = dict(tuple(f[:2]) for f in ctx.fields("TokenSet"))
    kinds = {}
    for f, ty in types.items():
        a = [x for x in ctx.prog.adts.values() if x["enum"] and x["path"].split("::")[-1] == ty.split("::")[-1]]
        if a and all(not v["fields"] for v in a[0]["variants"]):
            kinds[f] = (ty, [v["name"] for v in a[0]["variants"]])
    need = [f for f in kinds if kinds[f][0].split("::")[-1] in ("TokenType", "Processing")]
    if not ctx.ob("name", "kinds", len(need) == 2, w, "a token set has no type or processing mode", fn):
        return
    texts = {f: shown(ctx, kinds[f][0]) for f in need}
    number = app("display", length(field(me, "tokens")))
    seen = {}
    combos = [(a, b) for a in kinds[need[0]][1] for b in kinds[need[1]][1]]
    k = 0
    for c in combos:
        env = dict(zip(need, c))
        mine = [p for p in ps if not any(against(a, v, me, env) for a, v in list(p.conds) + list(p.asserts))]
        what = " ".join(c)
        ctx.ob("name", "made", len(mine) >= 1, w, "a set of the kind %s has no name" % what, fn)
        for p in mine:
            k += 1
            t = rewrite(p.val, lambda x: known(x, me, env, texts), {})
            parts = list(t.a) if t.op == "cat" else [t]
            i = [j for j, x in enumerate(parts) if x is number]
            const = [x for x in parts if x.op == "bytes"]
            if not ctx.ob("name", "number of tokens", len(i) == 1, w, "the number of tokens is not told by the name: %s" % show(p.val)[:200], fn):
                continue
            if not ctx.ob("name", "constant", len(const) == len(parts) - 1, w, "the name of a set is not made of its kind and size: %s" % show(t)[:200], fn):
                continue
            pre = b"".join(x.a[0] for x in parts[:i[0]])
            post = b"".join(x.a[0] for x in parts[i[0] + 1:])
            ctx.ob("name", "in the directory", not set(b"/\\\0") & set(pre + post) and (pre + post).strip(b"."), w, "the name leads out of the directory: %s" % show(t)[:200], fn)
            ctx.ob("name", "number told", not pre[-1:].isdigit() and not post[:1].isdigit(), w, "the number of tokens cannot be told from the rest of the name: %s" % show(t)[:200], fn)
            for c2, n2 in seen.items():
                ctx.ob("name", "different", c2 == c or apart((pre, post), n2), w, "sets of the kinds %s and %s can have the same name: %s" % (" ".join(c2), what, show(t)[:200]), fn)
            seen[c] = (pre, post)
    ctx.floor("kinds of token sets", len(combos), 10)
    ctx.floor("names", k, 10)


def apart(a, b):
    """no numbers make these texts around a number the same name"""
    if a == b:
        return False
    digit = lambda s: any(48 <= x <= 57 for x in s)
    # the number is the first, or the last, run of digits in both
    return not digit(a[0]) and not digit(b[0]) or not digit(a[1]) and not digit(b[1]) or a[0] == b[0] or a[1] == b[1]


def against(a, v, me, env):
    """this condition is not met by sets of this kind"""
    for f, k in env.items():
        if a.op == "is" and a.a[0] is field(me, f):
            return (a.a[1] == k) != v
    return False


def known(x, me, env, texts):
    if x.op == "app" and x.a[0] == "display":
        for f, k in env.items():
            if x.a[1] is field(me, f) and texts[f].get(k) is not None:
                return S(texts[f][k])
    return None


def shown(ctx, ty):
    """what is displayed for each variant"""
    n = "<%s as Display>::fmt" % ty.split("::")[-1]
    out = {}
    if not ctx.has(n):
        return out
    ps, _ = ctx.run(n)
    me = sym("arg", 0)
    vs = [v["name"] for a in ctx.prog.adts.values() if a["path"].split("::")[-1] == ty.split("::")[-1] for v in a["variants"]]
    for v in vs:
        got = set()
        for p in ps:
            if any(a.op == "is" and a.a[0] is me and (a.a[1] == v) != pol for a, pol in list(p.conds) + list(p.asserts)):
                continue
            t = b""
            for e, ls in flat_events(p.events):
                if not e.name.startswith("fmt::") or ls:
                    continue
                x = e.args[-1]
                t = t + x.a[0] if t is not None and x.op == "bytes" else None
            got.add(t)
        if len(got) == 1:
            out[v] = got.pop()
    return out
