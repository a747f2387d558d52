"""C33 partially sampled data approximates the requested size"""
from collections import Counter
from ctx import *
from crate import Crate
import c13
import linear

RULE = ("loop invariant of the function that samples a file, read off its summary: every line is read once, whole and in order, until the end of the file, and is appended to the paragraph at hand, "
        "which is put aside exactly when it ends in two newlines and the line begins with another byte; a paragraph that is put aside is appended whole to the data or left out, and the bytes gone through grow by its length; "
        "it is appended only if the data is not more than the requested share (size / length of the same file) of the bytes gone through, and left out only if it is not less, the last paragraph likewise; "
        "so the data stays within one paragraph of the share. Every caller asks for less than the length of the file")
TECHNIQUE = "function summaries (abstract interpretation of MIR with value numbering): inductive loop invariant, normalised comparison of products, linear entailment at callers"

NL = I(10)


def samplers(ctx):
    """functions (file name, number, number) -> type that keeps bytes"""
    ctx.fn("")
    out = []
    for n, f in sorted(ctx._names.items()):
        if f.d["argc"] != 3 or "{closure" in f.d["key"]:
            continue
        tys = c13.sig_args(f)[:3]
        ret = f.locals[0][0]
        a = ctx.prog.adts.get(ret.split("<")[0])
        if not a or len(a["variants"]) != 1 or not any(x[1] == "std::vec::Vec<u8>" for x in a["variants"][0]["fields"]):
            continue
        if tys[0].endswith("str") and tys[1:] == ["usize", "usize"]:
            out.append((n, [x[0] for x in a["variants"][0]["fields"] if x[1] == "std::vec::Vec<u8>"][0]))
    return out


def check(ctx):
    ss = samplers(ctx)
    ctx.floor("functions that sample a file", len(ss), 1)
    cr = Crate(ctx)
    live = cr.live()
    for n, f in ss:
        w = ctx.where_fn(n)
        ps, _ = ctx.run(n)
        sizes = set()
        for p in ps:
            sizes |= one(ctx, n, w, p, f)
        ctx.floor("ways through", len(ps), 1)
        if ctx.ob("share", "requested size", len(sizes) == 1, w, "the share is not that of one parameter", n):
            callers(ctx, cr, live, n, sizes.pop())


# ------------------------------------------------------------------ products and comparisons
def frac(t):
    """a quotient of products of atoms"""
    if t.op == "app" and t.a[0] == "fdiv":
        (a, b), (c, d) = frac(t.a[1]), frac(t.a[2])
        return a + d, b + c
    if t.op == "app" and t.a[0] == "fmul" or t.op == "mul":
        num, den = Counter(), Counter()
        for x in t.a:
            if isinstance(x, T):
                a, b = frac(x)
                num, den = num + a, den + b
        return num, den
    if t.op == "app" and t.a[0] in ("cast", "float", "as"):
        return frac(t.a[-1])
    return Counter([t]), Counter()


def compare(a, q):
    """literal -> (relation, product, product) without quotients, or None"""
    x = y = None
    if a.op == "app" and a.a[0] in ("flt", "fle"):
        x, y = a.a[1], a.a[2]
        rel = {("flt", True): "<", ("flt", False): ">=", ("fle", True): "<=", ("fle", False): ">"}[a.a[0], q]
    elif a.op == "pos":
        c, d = linear.form(a.a[0])
        p = [k for k, v in d.items() if v == 1]
        m = [k for k, v in d.items() if v == -1]
        if len(d) != 2 or len(p) != 1 or len(m) != 1 or c not in (0, 1):
            return None
        x, y = m[0], p[0]           # y - x + c > 0
        rel = ("<" if c == 0 else "<=") if q else (">=" if c == 0 else ">")
    else:
        return None
    (a1, b1), (a2, b2) = frac(x), frac(y)
    l, r = a1 + b2, a2 + b1
    both = l & r
    return rel, l - both, r - both


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}


def share(lits, d, n, file):
    """({relations of data * file length to size * bytes gone through}, sizes)"""
    rels, sizes = set(), set()
    for a, q in lits:
        r = compare(a, q)
        if r is None:
            continue
        rel, l, r2 = r
        for rel, x, y in ((rel, l, r2), (FLIP[rel], r2, l)):
            if x[length(d)] == 1 and sum(x.values()) == 2 and y[n] == 1 and sum(y.values()) == 2:
                fl = [k for k in x if k is not length(d)]
                sz = [k for k in y if k is not n]
                if len(fl) == 1 and len(sz) == 1 and file_length(fl[0], file) and sz[0].op == "sym":
                    rels.add(rel)
                    sizes.add(sz[0])
    return rels, sizes


def file_length(t, file):
    return t.op == "app" and t.a[0] == "filelen" and any(x is file for x in walk(t)) and not any(x.op in ("phi", "brk", "out") for x in walk(t))


# ------------------------------------------------------------------ the function
def one(ctx, n, w, p, dfield):
    file = sym("arg", 0)
    sizes = set()
    reads = [e[1] for e in p.events if isinstance(e, tuple) and any(x.name.startswith("io::read") for q in e[1].paths for x, _ in flat_events(q.events))]
    if not ctx.ob("read", "one loop", len(reads) == 1, w, "%d loops read the file" % len(reads), n):
        return sizes
    R = reads[0]
    # the parts of the state
    rd = None
    for q in R.paths:
        rs = [(e, ls) for e, ls in flat_events(q.events) if e.name.startswith("io::")]
        ok = len(rs) == 1 and not rs[0][1] and rs[0][0].name == "io::read_until" and rs[0][0].args[1] is NL
        if not ctx.ob("read", "one line", ok, w, "an iteration does not read exactly one line", n):
            return sizes
        r = rs[0][0]
        ks = [k for k, v in R.leaves.items() if v["phi"] is r.args[0]]
        if not ctx.ob("read", "reader", len(ks) == 1 and rd in (None, ks[0]), r.span, "lines are read from different places", n):
            return sizes
        rd = ks[0]
        ctx.ob("read", "fresh line", r.args[2] is EMPTY, r.span, "a line is read into a buffer that is not empty", n)
    src = R.leaves[rd]["init"]
    while src.op == "app" and src.a[0] == "BufReader":
        src = src.a[1]
    ctx.ob("read", "file", src.op == "payload" and src.a[0].op == "ev" and src.a[0].a[0] == "fs::File::open" and src.a[0].a[1][0] is file, w,
           "lines are read from %s" % show(src)[:100], n)
    line = app("read_until.data", R.leaves[rd]["phi"], NL)
    bytes_ = [k for k, v in R.leaves.items() if v["init"] is EMPTY]
    para = [k for k in bytes_ if any(q.kind == "cont" and q.upd.get(k) is cat(R.leaves[k]["phi"], line) for q in R.paths)]
    if not ctx.ob("paragraph", "grows by the line", len(para) == 1, w, "no paragraph grows by the lines read", n):
        return sizes
    para = para[0]
    P = R.leaves[para]["phi"]
    L = length(P)
    ended = [lit(eq_int(idx(P, sub(L, I(2))), NL)), lit(eq_int(idx(P, sub(L, ONE)), NL))]
    other = lit(neg(eq_int(idx(line, ZERO), NL)))
    long = lit(pos(sub(L, ONE)))
    conts = [q for q in R.paths if q.kind == "cont"]
    data = [k for k in bytes_ if k != para and any(q.upd.get(k) is cat(R.leaves[k]["phi"], P) for q in conts)]
    if not ctx.ob("data", "grows by paragraphs", len(data) == 1, w, "no data grows by whole paragraphs", n):
        return sizes
    data = data[0]
    D = R.leaves[data]["phi"]
    gone = [k for k, v in R.leaves.items() if v["init"] is ZERO and any(q.upd.get(k) is add(v["phi"], L) for q in conts)]
    if not ctx.ob("share", "bytes gone through", len(gone) == 1, w, "the bytes gone through are not counted by whole paragraphs", n):
        return sizes
    gone = gone[0]
    G = R.leaves[gone]["phi"]
    taken = left = 0
    for q in R.paths:
        facts = list(q.conds) + list(q.asserts)
        cnt = [payload(e.res, "Ok") for e, _ in flat_events(q.events) if e.name == "io::read_until"][0]
        # what is read is as long as the number returned says
        if linear.infeasible(linear.ineqs_of([f for f in facts if f[0].op in ("pos", "eq0")] + [lit(eq_int(cnt, length(line)))])[0] + [(0, {cnt: 1})]):
            continue
        if q.kind != "cont":
            at_end = linear.entails(facts, sub(ZERO, cnt), lambda t: t is cnt) or lit(eq(length(line), ZERO)) in facts
            ctx.ob("read", "to the end", at_end, w, "the file is not read to its end when %s" % showlits(q.conds)[:200], n)
            if at_end:
                ctx.ob("read", "nothing left over", all(q.upd.get(k, R.leaves[k]["phi"]) is R.leaves[k]["phi"] for k in (para, data, gone)), w,
                       "the paragraph at hand, the data or the bytes gone through change at the end of the file", n)
            continue
        ctx.ob("read", "next", q.upd.get(rd) is app("read_until.next", R.leaves[rd]["phi"], NL), w, "the reader is changed besides reading a line", n)
        np, nd, ng = (q.upd.get(k, R.leaves[k]["phi"]) for k in (para, data, gone))
        if np is cat(P, line):
            # the paragraph goes on: it has not ended, or the line is another newline
            neg_ = {(a, not b) for a, b in ended + [other, long]}
            on = any(c in neg_ for c in facts) or linear.entails(facts, sub(ONE, L), lambda t: t is L)
            ctx.ob("paragraph", "put aside at its end", on, w, "a paragraph goes on after its end when %s" % showlits(q.conds)[:200], n)
            ctx.ob("data", "unchanged", nd is D and ng is G, w, "data is added inside a paragraph", n)
            continue
        ok = np is line and all(c in facts for c in ended + [other]) and (long in facts or linear.entails(facts, sub(L, I(2)), lambda t: t is L))
        ctx.ob("paragraph", "whole", ok, w, "a paragraph is put aside before its end, or a line is lost: it becomes %s when %s" % (show(np)[:100], showlits(q.conds)[:200]), n)
        ctx.ob("share", "gone through", ng is add(G, L), w, "the bytes gone through become %s" % show(ng)[:100], n)
        took = nd is cat(D, P)
        ctx.ob("data", "whole paragraphs", took or nd is D, w, "the data becomes %s" % show(nd)[:150], n)
        if took:
            taken += 1
        else:
            left += 1
        sizes |= choice(ctx, n, w, facts, D, G, file, took)
    ctx.floor("paragraphs taken", taken, 1)
    ctx.floor("paragraphs left out", left, 1)
    # the last paragraph
    fin = [R.brk(q) for q in R.paths if q.kind == "exit"] or [dict(R.final)]
    res = field(p.val, dfield)
    facts = list(p.conds) + list(p.asserts)
    ok = False
    for m in fin:
        d, g, pp = m.get(D), m.get(G), m.get(P)
        if res is cat(d, pp) or res is d:
            ok = True
            sizes |= choice(ctx, n, w, facts, d, g, file, res is not d)
            break
    ctx.ob("data", "result", ok, w, "what is sampled is not the data gathered: %s" % show(res)[:150], n)
    return sizes


def choice(ctx, n, w, facts, d, g, file, took):
    rels, sizes = share(facts, d, g, file)
    none = linear.entails(facts, sub(ZERO, g), lambda t: t is g)
    ok = bool(rels & ({"<", "<="} if took else {">", ">="})) or none
    ctx.ob("share", "taken" if took else "left out", ok, w,
           "a paragraph is %s although the data may be %s than the requested share of the bytes gone through" % (("taken", "more") if took else ("left out", "less")), n)
    return sizes


# ------------------------------------------------------------------ callers
def callers(ctx, cr, live, n, size, file=sym("arg", 0), deep=0):
    key = ctx.fn(n).d["key"]
    k = 0
    for b in sorted(cr.back.get(key, ())):
        if b not in live:
            continue
        m = cr.name_of.get(b.split("::{closure")[0])
        if not ctx.ob("caller", "summary", m is not None, None, "no summary of a caller of %s" % n, b):
            continue
        ctx.fn("")
        opq = tuple(sorted(x for x, f in ctx._names.items() if x != m and "{closure" not in f.d["key"]))
        ps, _ = ctx.run(m, opq)
        for p in ps:
            for e, facts in with_facts(p.events, list(p.conds) + list(p.asserts)):
                if e.name != n:
                    continue
                k += 1
                s, f = e.args[size.a[1]], e.args[file.a[1]]
                if deep < 4 and s.op == "sym" and f.op == "sym" and s.a[0] == f.a[0] == "arg":
                    callers(ctx, cr, live, m, s, f, deep + 1)      # handed on
                    continue
                fls = {t for a, _ in facts for t in walk(a) if t.op == "app" and t.a[0] == "filelen" and any(x is f for x in walk(t))}
                ok = any(linear.entails([x for x in facts if x[0].op in ("pos", "eq0")], sub(t, s), lambda z: True) for t in fls)
                ctx.ob("caller", "less than the file", ok, e.span, "a sample of %s bytes may be asked for of a shorter file" % show(s)[:60], m)
    ctx.floor("calls", k, 1)


def with_facts(events, facts):
    for e in events:
        if isinstance(e, tuple):
            for q in e[1].paths:
                yield from with_facts(q.events, facts + list(q.conds) + list(q.asserts))
        else:
            yield e, facts
