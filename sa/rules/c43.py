"""C43 capitalised and all-caps words are folded"""
from ctx import *
from rules import c20, c21

RULE = ("every way a word is written out by the text transducer (C20's exploration): where it is written without a marker, the path's facts must "
        "contain a reason why the word is not capitalised (its first letter is no upper-case letter, some later letter is no lower-case letter, or "
        "upper-casing the lower-cased first letter does not give it back), and a reason why it is not all in capitals (some letter is no upper-case "
        "letter, or upper-casing the lower-cased word does not give it back); facts like the word's length or a test for ASCII letters are none")

W, CH, C0, FIRST = c21.W, c21.CH, c21.C0, c21.FIRST


def letter(y, whole):
    """a letter of the word: one after the first, or (whole) any"""
    if y.op != "idx":
        return False
    if any(c21.is_tail(z) for z in walk(y)):
        return True
    if y.a[0] is not CH:
        return False
    c, d = lin_parts(y.a[1])
    return whole or c >= 1 and d and all(k > 0 for k in d.values())


def tests(a, name, whole):
    """a is the test `name` of a letter of the word"""
    return a.op == "app" and a.a[0] == "char." + name and letter(a.a[1], whole)


def first_test(a):
    return a.op == "app" and a.a[0] in ("char.is_uppercase",) and a.a[1] is C0


def some_letter(a, p, name, whole):
    """there is a letter (after the first) for which the test fails"""
    if a.op == "exists":
        return p and any(not q and tests(b, name, whole) for b, q in a.a[2])
    return not p and tests(a, name, whole)


def counted(a, p):
    """a comparison of the number of upper-case (lower-case) letters with another number"""
    return a.op in ("pos", "eq0") and any(t.op == "sum" and any(x.op == "app" and x.a[0] in ("char.is_uppercase", "char.is_lowercase") for x in walk(t)) for t in walk(a))


def lowered_first(x):
    return x is app("lower", FIRST) or x is app("char", app("char.to_lowercase", C0))


def not_capital(a, p):
    if first_test(a) and not p or some_letter(a, p, "is_lowercase", False) or counted(a, p):
        return True
    if a.op == "eq":
        x, y = a.a[:2]
        for x, y in ((x, y), (y, x)):
            if not p and x is FIRST and y.op == "app" and y.a[0] == "upper" and lowered_first(y.a[1]):
                return True
            if not p and x is W and y.op == "cat" and y.a[0].op == "app" and y.a[0].a[0] == "upper" and lowered_first(y.a[0].a[1]):
                return True
            if p and x is FIRST and lowered_first(y):
                return True
            if p and x is W and y is app("lower", W):
                return True
            # what the lower-cased word begins with: other letters change as well
            if not p and y is app("lower", W) and x.op == "cat" and lowered_first(x.a[0]):
                return True
    return False


def not_caps(a, p):
    if first_test(a) and not p or some_letter(a, p, "is_uppercase", True) or counted(a, p):
        return True
    if a.op == "eq":
        x, y = a.a[:2]
        for x, y in ((x, y), (y, x)):
            if not p and x is W and y is app("upper", app("lower", W)):
                return True
            if not p and x is W and y is app("upper", W):
                return True
            if p and x is W and y is app("lower", W):
                return True
            if p and x is FIRST and lowered_first(y):
                return True
    return False


def check(ctx):
    groups, _ = c20.explore(ctx, False)
    ctx.floor("word emissions", len(groups), 3)
    kinds = {g.marker for g in groups}
    for m, what in ((b"\x14", "capitalised"), (b"\x15", "all caps")):
        ctx.ob("folded", what, m in kinds, ctx.where_fn(groups[0].fn) if groups else None, "no word is written as %s" % what, "process")
    n = 0
    for g in groups:
        if g.marker is not None:
            continue
        n += 1
        for what, why in (("capitalised", not_capital), ("all caps", not_caps)):
            ctx.ob("folded", what, any(why(a, p) for a, p in g.facts), g.where,
                   "a word that may be %s is written without a marker under {%s}" % (what, engine.showlits(g.facts)[:400]), g.fn)
    ctx.floor("unmarked words", n, 1)
