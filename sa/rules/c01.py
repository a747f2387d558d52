"""C01 merging is exact addition"""
from ctx import *

RULE = ("summary of the merge function: on every path the final value of every counter field of the receiver is "
        "old + other's (element-wise over the whole range for vectors), every other field is unchanged")
ASSUMES = ["both statistics are of the same token set (vectors of equal length)"]


def vec_sum_ok(fin, a, b, conds):
    """is fin = a + b element-wise, given equal lengths"""
    la, lb = length(a), length(b)
    zero = [(pos(x), False) for x in (la, lb)]
    zl = []
    for x in (la, lb):
        t, p = lit(neg(pos(x)))
        zl.append((t, p))
    if fin is a and any(z in conds for z in zl):
        return True
    if fin.op in ("mapupd", "mapupd_min", "mapupd_part"):
        h, init, trips, el = fin.a
        bv = raw("bv", h)
        return init is a and all(t in (la, lb) for t in trips) and el is add(idx(a, bv), idx(b, bv))
    if fin.op == "build":
        h, init, trips, cases = fin.a
        bv = raw("bv", h)
        return (init is EMPTY and all(t in (la, lb) for t in trips) and len(cases) == 1 and not cases[0][0]
                and len(cases[0][1]) == 1 and cases[0][1][0] is add(idx(a, bv), idx(b, bv)))
    return False


def check(ctx):
    fields = ctx.fields("TokenStats")
    ps, e = ctx.run("TokenStats::merge")
    me, other = sym("arg", 0), sym("arg", 1)
    w = ctx.where_fn("TokenStats::merge")
    n = 0
    for p in ps:
        fin = p.upd.get(("P", 0), me)
        for f in fields:
            name, ty = f
            a, b, x = field(me, name), field(other, name), field(fin, name)
            if ty == "u64":
                n += 1
                ctx.ob("sum", name, x is add(a, b), w,
                       "counter %s becomes %s instead of the sum of both" % (name, show(x)), "TokenStats::merge")
            elif ty.startswith("std::vec::Vec<u64"):
                n += 1
                ctx.ob("sum", name, vec_sum_ok(x, a, b, p.conds), w,
                       "counts %s become %s instead of the element-wise sum" % (name, show(x)), "TokenStats::merge")
            else:
                ctx.ob("unchanged", name, x is a, w, "%s is changed to %s by merging" % (name, show(x)), "TokenStats::merge")
    ctx.floor("counter fields merged", n, 5)
