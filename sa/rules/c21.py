"""C21 words are case-folded only when the marker restores them"""
from ctx import *
from rules import c20

RULE = ("every way a word is written out by the text transducer (C20's exploration): either unmarked and exactly the word, or after "
        "a marker and then with the path's facts containing a test that implies that undoing the marker (upper-casing the first "
        "letter, or the whole word) gives back the word; a character outside words is passed through only if it cannot be taken for a marker")

W = c20.W
CH = app("chars", W)
C0 = idx(CH, ZERO)
FIRST = app("char", C0)


def is_tail(x):
    if x.op == "it" and x.a[0] == "seq" and x.a[1] is CH and x.a[2] is ONE and x.a[3] is length(CH):
        return True
    if x.op == "slice" and x.a[0] is W and (x.a[2] is None or x.a[2] is length(W)):
        return x.a[1] is app("char.len_utf8", C0) or x.a[1] is length(FIRST)
    return False


def has(facts, t):
    return lit(t) in facts


def capital_ok(body, facts):
    """upper-casing the first letter of the body gives the word"""
    low = None
    if len(body) == 2 and is_tail(body[1]):
        low = body[0]
    elif len(body) == 1 and is_tail_lower(body[0], facts):
        low = app("lower", FIRST)
    elif len(body) == 1 and body[0] is app("lower", FIRST) and only_letter(facts):
        low = body[0]
    else:
        return False
    if low is app("lower", FIRST):
        if has(facts, eq(FIRST, app("upper", low))):
            return True
    if low in (app("lower", FIRST), app("char", app("char.to_ascii_lowercase", C0))):
        if has(facts, app("char.is_ascii_uppercase", C0)):
            return True
    whole = cat(app("upper", low), *body[1:])
    return has(facts, eq(W, whole))


def only_letter(facts):
    return has(facts, eq_int(length(CH), ONE))


def is_tail_lower(x, facts):
    """lower-casing the whole word changes only its first letter, the others being lower-case already"""
    if x is not app("lower", W):
        return False
    for a, p in facts:
        if a.op == "exists" and not p and len(a.a[2]) == 1:
            (b, q), = a.a[2]
            if not q and b.op == "app" and b.a[0] == "char.is_lowercase":
                y = b.a[1]
                if y.op == "idx" and any(is_tail(z) for z in walk(y)):
                    return True
                if y.op == "idx" and y.a[0] is CH and y.a[1] is add(raw("bv", a.a[0]), ONE) and list(a.a[1]) == [sub(length(CH), ONE)]:
                    return True
    return False


def caps_ok(body, facts):
    """upper-casing the body gives the word"""
    b = cat(*body) if len(body) != 1 else body[0]
    return has(facts, eq(W, app("upper", b)))


MARKERS = (0x14, 0x15, 0x16)


def check(ctx):
    groups, through = c20.explore(ctx, False)
    ctx.floor("word emissions", len(groups), 3)
    seen = set()
    for g in groups:
        if g.marker is None:
            good, kind = c20.itself(g.body), "plain"
        elif g.marker == b"\x14":
            good, kind = capital_ok(g.body, g.facts), "capitalised"
        else:
            good, kind = caps_ok(g.body, g.facts), "all caps"
        seen.add(kind)
        ctx.ob("restore", kind, good, g.where, "a word is written as marker and %s under {%s}, which does not ensure that it can be restored" % (
            " + ".join(show(x) for x in g.body)[:200], engine.showlits(g.facts)[:400]), g.fn)
    ctx.ob("restore", "forms", "plain" in seen, ctx.where_fn(groups[0].fn) if groups else None, "no word is written plainly", "process")
    ctx.floor("pass-through paths", len(through), 1)
    for facts, ch, w, fn in through:
        for m in MARKERS:
            r = {(subst(a, {ch: I(m)}), p) for a, p in facts}
            ctx.ob("literal", "marker %#x" % m, norm_lits(frozenset(r)) is None, w,
                   "the character %#x in the text is written out as it is and cannot be told from a marker" % m, "process")
